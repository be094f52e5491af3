"""C11: the backend lock serializes processes, no update is lost"""
import json
import os
import signal
import time
from pathlib import Path

from hypothesis import strategies as st

from .. import edits, faults, gen, store
from .. import model as m
from ..core import CaseDir, HarnessError, Violation, check, same
from ..gitx import OBJ_REF, mkrepo, object_reference_entries
from ..procs import Gate, Proc

from dataladmetadatamodel.mapper.gitmapper.objectreference import add_blob_reference, add_tree_reference  # noqa: E402
from dataladmetadatamodel.mapper.gitmapper.utils import lock_backend, locked_backend, unlock_backend  # noqa: E402
from .c06 import initial_references  # noqa: E402
from .c07 import object_hash, type_of  # noqa: E402

PROPERTY = "C11"
LEVEL = "exploration"
NOTE = ("Generated lock programs of one process, probed by other processes at every step; concurrent flushes and lock-protected sessions with "
        "one process stopped before its nth git command while others run. Schedules are sampled; stopped processes make them reproducible.")
QUICK, THOROUGH = 480, 6000
RULE = ("Three kinds of cases. lock: a process enters and leaves the lock, nested, with different spellings of the path, for one or two repositories, with exceptions, forks, is interrupted while it waits, or dies; "
        "after each step other processes try to obtain the lock. flush: 2-3 processes record references and flush them concurrently. session: "
        "2-3 processes load, modify, write and flush under the lock. In the last two kinds a process is stopped before its nth git command while "
        "the others run. Non-trivial: the lock was probed while it was held and while it was free, or a process was stopped in the middle while "
        "another one had work to do.")
ASSUMPTIONS = ["one thread per process", "a probe that does not obtain the lock within 0.15 s counts as excluded"]
EXCLUDED = 0.15        # seconds
AVAILABLE = 60.0
CASE_TIMEOUT = 800

SPELLINGS = ["{r}", "{r}/", "{r}/.", "{r}/../r", "{d}/./r", "link", "linkdir/r", "relative", "{d}//r", "{d}/x/../r"]
# another repository in a folder with the same name
OTHER = ["{d}/x/r", "{d}/x/r/", "linkdir/x/r", "relative x/r"]


def strategy(tier):
    spelling = st.integers(0, len(SPELLINGS) - 1)
    either = gen.weighted(spelling, spelling, st.integers(len(SPELLINGS), len(SPELLINGS) + len(OTHER) - 1))
    step = gen.weighted(
        st.tuples(st.just("enter"), either).map(list), st.tuples(st.just("enter"), either).map(list),
        st.just(["leave"]), st.just(["leave"]), st.just(["raise"]),
        st.tuples(st.just("lock"), either).map(list), st.tuples(st.just("unlock"), either).map(list),
        st.tuples(st.just("flush"), either).map(list),
        st.tuples(st.just("fork"), either).map(list), st.tuples(st.just("interrupt"), either).map(list))
    lock = st.fixed_dictionaries({
        "kind": st.just("lock"), "steps": st.lists(step, min_size=2, max_size=7 if tier == "quick" else 14),
        "end": st.sampled_from(["exit", "kill", "raise"]), "probe": st.lists(spelling, min_size=3, max_size=3),
        "other": st.integers(len(SPELLINGS), len(SPELLINGS) + len(OTHER) - 1)})
    stop = gen.weighted(st.integers(0, 12), st.integers(0, 40))
    flush = st.fixed_dictionaries({
        "kind": st.just("flush"), "stored": st.lists(object_hash, max_size=5, unique=True),
        "procs": st.lists(st.tuples(spelling, st.lists(st.lists(object_hash, min_size=1, max_size=4), min_size=1, max_size=2)).map(list),
                          min_size=2, max_size=3),
        "stops": st.lists(stop, min_size=1, max_size=2)})
    names = st.sampled_from(["a", "b", "c/d", "c/e"])
    work = st.lists(gen.weighted(
        st.tuples(st.just("version"), st.integers(0, 2), names), st.tuples(st.just("dataset"), st.integers(0, 5), names),
        st.tuples(st.just("file"), st.integers(0, 5), names), st.tuples(st.just("element"), st.integers(0, 5), names)).map(list),
        min_size=1, max_size=2)
    sess = st.fixed_dictionaries({
        "kind": st.just("session"), "init": edits.initial_store(gen.plain_name, richer=True),
        "procs": st.lists(st.tuples(spelling, st.lists(work, min_size=1, max_size=2)).map(list), min_size=2, max_size=3),
        "stops": st.lists(gen.weighted(stop, st.integers(0, 80)), min_size=1, max_size=2)})
    return gen.weighted(lock, flush, sess)


def spelled(d, index):
    s = (SPELLINGS + OTHER)[index]
    if s == "link":
        return Path(d, "link")
    if s == "linkdir/r":
        return Path(d, "linkdir", "r")
    if s == "linkdir/x/r":
        return Path(d, "linkdir", "x", "r")
    if s == "relative x/r":
        return Path("x", "r")
    if s == "relative":
        return Path("r")
    # Path() keeps "..", but not "." and "//"
    return Path(s.format(d=d, r=d + "/r"))


def prepare(d):
    realm = mkrepo(d + "/r")
    os.symlink(realm, d + "/link")
    os.symlink(d, d + "/linkdir")
    os.mkdir(d + "/x")
    mkrepo(d + "/x/r")
    return realm


def which(index):
    return int(index >= len(SPELLINGS))


# ------------------------------------------------------------------- lock

class Leave(Exception):
    pass


class Raised(Exception):
    pass


class Interrupted(BaseException):
    pass


def interrupt(*args):
    raise Interrupted()


def lock_program(d, case, gate):
    """Tells the harness before each step how deep the locks of both repositories are nested"""
    os.chdir(d)
    steps = iter(case["steps"])
    depth = [0, 0]
    manual = []                 # spelling of each lock_backend(), None: start of a block

    def point():
        os.write(gate.at_w, bytes(depth))
        os.read(gate.go_r, 1)

    def block(level):
        while True:
            point()
            step = next(steps, None)
            if step is None:
                finish(level)
            if step[0] == "enter" and level < 4:
                manual.append(None)
                try:
                    with locked_backend(spelled(d, step[1])):
                        depth[which(step[1])] += 1
                        try:
                            block(level + 1)
                        finally:
                            # what lock_backend() did in the block is undone in the block
                            while manual[-1] is not None:
                                depth[which(manual[-1])] -= 1
                                unlock_backend(spelled(d, manual.pop()))
                            manual.pop()
                            depth[which(step[1])] -= 1
                except (Leave, Raised):
                    pass
            elif step[0] == "leave" and level:
                return
            elif step[0] == "raise" and level:
                raise Raised("error in locked block")
            elif step[0] == "lock" and sum(depth) < 6:
                lock_backend(spelled(d, step[1]))
                manual.append(step[1])
                depth[which(step[1])] += 1
            elif step[0] == "unlock":
                # locks of different repositories are not always undone in order
                for n in reversed(range(len(manual))):
                    if manual[n] is None:
                        break
                    if which(manual[n]) == which(step[1]):
                        del manual[n]
                        unlock_backend(spelled(d, step[1]))
                        depth[which(step[1])] -= 1
                        break
            elif step[0] == "flush":
                # takes and leaves the lock
                add_blob_reference("1" * 40, spelled(d, step[1]))
                m.flush_object_references(spelled(d, step[1]))
            elif step[0] == "fork":
                held = depth[which(step[1])] > 0
                check(acquired(d, step[1], EXCLUDED if held else AVAILABLE) is not held,
                      f"{step}, nesting depth {depth}: forked process {'obtained' if held else 'did not obtain'} the lock")
            elif step[0] == "interrupt" and not depth[which(step[1])]:
                interrupted_wait(d, step[1])

    def finish(level):
        if case["end"] == "raise":
            raise SystemError("end")
        os._exit(0)
    block(0)


def probe(d, index, wfd):
    os.chdir(d)
    lock_backend(spelled(d, index))
    os.write(wfd, b"l")
    time.sleep(600)


def acquired(d, index, timeout):
    rfd, wfd = os.pipe()
    p = Proc(probe, d, index, wfd)
    os.close(wfd)
    try:
        import select
        ready, _, _ = select.select([rfd], [], [], timeout)
        if not ready:
            return False
        if os.read(rfd, 1) != b"l":
            p.done(5)
            p.result("probe")
            raise HarnessError("probe ended without result")
        return True
    finally:
        p.kill()
        os.close(rfd)


def interrupted_wait(d, index):
    """Waiting for the lock, which another process holds, ends with an exception"""
    rfd, wfd = os.pipe()
    holder = Proc(probe, d, index, wfd)
    os.close(wfd)
    previous = signal.signal(signal.SIGALRM, interrupt)
    try:
        check(os.read(rfd, 1) == b"l", "the other process did not obtain the lock")
        signal.setitimer(signal.ITIMER_REAL, 0.08)
        lock_backend(spelled(d, index))
        raise Violation("two processes obtained the lock")
    except Interrupted:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, previous)
        holder.kill()
        os.close(rfd)


def run_lock(case, d):
    gate = Gate()
    p = Proc(lock_program, d, case, gate)
    held = free = 0
    import select
    try:
        n = 0
        while True:
            ready, _, _ = select.select([gate.at_r, p.rfd], [], [], 120)
            if not ready:
                raise Violation(f"process is blocked by its own lock at step {n} of {case['steps']}")
            if gate.at_r not in ready:
                break
            depths = os.read(gate.at_r, 2)
            for index in (case["probe"][n % 3], case["other"]):
                depth = depths[which(index)]
                what = f"step {n} of {case['steps']}, nesting depth {depth} of {(SPELLINGS + OTHER)[index]}"
                if depth:
                    held += 1
                    check(not acquired(d, index, EXCLUDED), f"{what}: another process obtained the lock")
                else:
                    free += not which(index)
                    check(acquired(d, index, AVAILABLE), f"{what}: lock is not available")
            n += 1
            if n > len(case["steps"]) and case["end"] == "kill":
                p.kill()
                break
            gate.open()
        if not p.ended:
            p.done(30)
            p.reap()
        if p.data and case["end"] != "raise":
            p.result(f"lock program {case['steps']}")
        if p.data and b'"SystemError"' not in p.data:
            p.result(f"lock program {case['steps']}")
        for index in (case["probe"][0], case["other"]):
            check(acquired(d, index, AVAILABLE), f"lock is not available after the end of the process ({case['end']})")
    finally:
        p.kill()
        gate.close()
    return {"nontrivial": held > 0 and free > 0, "tags": ["lock", f"end {case['end']}"]}


# -------------------------------------------------------- flushes, sessions

def flush_worker(d, index, rounds, actions):
    os.chdir(d)
    plan = faults.install(actions)
    for oids in rounds:
        for oid in oids:
            (add_tree_reference if type_of(oid) == "40000" else add_blob_reference)(oid, d + "/r")
        m.flush_object_references(spelled(d, index))
    return {"count": plan.count, "hit": plan.hit}


def apply_work(editor, number, round_number, work):
    """-> disjoint changes of the process; the model of the editor follows"""
    tag = f"p{number}r{round_number}"
    md = {"core": [["1", {}, 1.0, "n", "e@x", {"c": tag}]]}
    record = {"id": "00000000-0000-0000-0000-000000000001", "ver": "1" * 40, "dm": md, "ft": {"x": md}}
    for kind, index, name in work:
        if kind == "version":
            editor.op_set_version(f"{index}{tag}{name}", "", "1", {name: record})
        elif kind == "dataset":
            # "shared" exists from the start
            path = f"{name}/{tag}{index}"
            if path not in editor.mt[("shared", "")][1]:
                key = sorted(editor.mt).index(("shared", ""))
                editor.op_add_dataset(key, path, record)
        elif kind == "file":
            editor.record(("t", ("shared", ""), "")).file_tree.add_extractor_run(
                m.MP(f"{name}/{tag}{index}"), 1.0, "core", "n", "e@x", m.ExtractorConfiguration("1", {}), {"c": tag})
            m.model_add_run(editor.mt[("shared", "")][1][""]["ft"].setdefault(f"{name}/{tag}{index}", {}),
                            ["core", "1", {}, 1.0, "n", "e@x", {"c": tag}])
        else:
            u = sorted(editor.mu).index(SHARED_ID)
            editor.op_set_element(u, f"{index}{tag}{name}", "", "1", record)


SHARED_ID = "12121212-0000-0000-0000-000000000012"


def shared_store(init):
    md = {"core": [["1", {}, 1.0, "n", "e@x", {"c": "shared"}]]}
    record = {"id": SHARED_ID, "ver": "1" * 40, "dm": md, "ft": {"f": md}}
    result = {"tvl": [e for e in init["tvl"] or [] if e[0] != "shared"], "uuid": dict(init["uuid"] or {})}
    result["tvl"].append(["shared", "", "0", {"": record, "sub": record}])
    result["uuid"][SHARED_ID] = [["shared", "", "0", record]]
    return json.loads(json.dumps(result))


def session_worker(d, index, number, rounds, actions):
    os.chdir(d)
    plan = faults.install(actions)
    realm = d + "/r"
    own = []
    for round_number, work in enumerate(rounds):
        with locked_backend(spelled(d, index)):
            # start from what is stored, the reader is independent
            suspended = faults.suspend()
            stored = store.read_store(realm)
            faults.resume(suspended)
            editor = edits.Editor(realm, stored)
            apply_work(editor, number, round_number, work)
            editor.op_write("tvl", "t", 0, 0, 0)
            editor.op_write("us", "t", 0, 0, 0)
            editor.op_flush()
            own.append(editor.canonical())
    return {"count": plan.count, "hit": plan.hit}


def run_parallel(d, start, stops):
    """start(i, actions): Proc. The first processes are stopped before their nth git command"""
    gates = [Gate() for _ in stops]
    procs = []
    stopped = 0
    try:
        for i, stop in enumerate(stops):
            procs.append(start(i, {stop: gates[i].action()}))
            # wait until it is at its point, ends, or is blocked by another one
            end = time.monotonic() + (60 if i == 0 else 0.3)
            while time.monotonic() < end:
                if gates[i].reached(0.005):
                    stopped += 1
                    break
                if procs[i].done(0.0):
                    break
        for i in range(len(stops), start.count):
            procs.append(start(i, None))
        procs[-1].done(0.25)
        for gate in gates:
            gate.open()
        end = time.monotonic() + 120
        results = []
        for i, p in enumerate(procs):
            if not p.done(max(0.1, end - time.monotonic())):
                raise Violation(f"process {i} did not finish")
            results.append(p.result(f"process {i}"))
        return stopped, results
    finally:
        for p in procs:
            p.kill()
        for gate in gates:
            gate.close()


class Starter:
    def __init__(self, count, fn):
        self.count, self.fn = count, fn

    def __call__(self, i, actions):
        return Proc(self.fn, i, actions)


def run_flush(case, d):
    procs = case["procs"]
    stored = {o: type_of(o) for o in case["stored"]}
    if stored:
        store.write_reference_tree(d + "/r", OBJ_REF, stored)
    start = Starter(len(procs), lambda i, actions: flush_worker(d, procs[i][0], procs[i][1], actions))
    stopped, _ = run_parallel(d, start, case["stops"][:len(procs) - 1])
    expected = dict(stored)
    for _, rounds in procs:
        for oids in rounds:
            expected.update((o, type_of(o)) for o in oids)
    same(object_reference_entries(d + "/r"), expected, "object references after concurrent flushes")
    return {"nontrivial": stopped > 0, "tags": ["flush", f"stopped {stopped}"]}


def run_session_case(case, d):
    procs, realm = case["procs"], d + "/r"
    stored = shared_store(case["init"])
    store.Writer(realm).store(stored)
    initial_references(realm, stored)
    before = set(object_reference_entries(realm))
    start = Starter(len(procs), lambda i, actions: session_worker(d, procs[i][0], i, procs[i][1], actions))
    stopped, _ = run_parallel(d, start, case["stops"][:len(procs) - 1])
    # All changes are disjoint, the order does not matter
    model = merge(stored, procs)
    actual = store.read_store(realm)
    same(m.norm("store", actual), m.norm("store", model), "content after concurrent sessions")
    lost = before - set(object_reference_entries(realm))
    check(not lost, f"object references lost: {sorted(lost)[:3]}")
    return {"nontrivial": stopped > 0, "tags": ["session", f"stopped {stopped}"]}


class ModelOnly:
    """The model part of an editor"""
    def __init__(self, stored):
        self.mt = edits.to_dict(stored["tvl"])
        self.mu = {u: edits.to_dict(vl) for u, vl in stored["uuid"].items()}

    def op_set_version(self, version, prefix, ts, dt):
        self.mt[(version, prefix)] = [ts, json.loads(json.dumps(dt))]

    def op_add_dataset(self, i, path, record):
        self.mt[sorted(self.mt)[i]][1][path] = json.loads(json.dumps(record))

    def op_set_element(self, i, version, prefix, ts, record):
        self.mu[sorted(self.mu)[i]][(version, prefix)] = [ts, json.loads(json.dumps(record))]

    def record(self, loc):
        return self

    @property
    def file_tree(self):
        return self

    def add_extractor_run(self, *_):
        pass


def merge(stored, procs):
    model = ModelOnly(json.loads(json.dumps(stored)))
    for number, (_, rounds) in enumerate(procs):
        for round_number, work in enumerate(rounds):
            apply_work(model, number, round_number, work)
    return {"tvl": edits.to_list(model.mt), "uuid": {u: edits.to_list(vl) for u, vl in model.mu.items()}}


def run_case(case):
    with CaseDir() as d:
        prepare(d)
        return {"lock": run_lock, "flush": run_flush, "session": run_session_case}[case["kind"]](case, d)
