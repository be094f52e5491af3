"""C09: a crash leaves the old or the new state"""
import os
import random
import shutil
import sys

from hypothesis import strategies as st

from .. import edits, env, faults, gen, store
from .. import model as m
from ..core import CaseDir, HarnessError, attempt, check, same, session
from ..gitx import all_refs, mkrepo, object_reference_entries, snapshot
from .c06 import initial_references
from .c07 import legacy_entries

PROPERTY = "C09"
LEVEL = "fault_enumeration"
NOTE = ("Crash points are all boundaries of git commands of a generated session (git itself is trusted to be atomic), and the lines of the software "
        "after it changed a file of the repository itself; for every point the state "
        "of the repository is examined by an independent reader, sessions that are really killed confirm the states, and new processes repeat "
        "the session on crash states. The sessions are sampled.")
QUICK, THOROUGH = 200, 4000
RULE = ("Hypothesis generates a start state (with object references, optionally a legacy reference store) and a session of edits, writes at all "
        "levels, flushes, and a final write of the top-level objects in one of several orders. The state of the repository before each git "
        "command and at the end, i.e. every state that a kill leaves behind, is examined; some points are repeated with a real SIGKILL, and for "
        "every distinct combination of top-level references a new process repeats the session on the crash state. Non-trivial: at least "
        "3 distinct crash states of the references and at least one edit.")
ASSUMPTIONS = ["git commands are atomic: the process is killed before, between or after them",
               "a single file operation of the software (open, write, rename) is atomic"]
CASE_TIMEOUT = 800
PACKAGE = os.path.join(os.path.abspath(env.REPO), "dataladmetadatamodel") + os.sep


def strategy(tier):
    names = gen.weighted(gen.plain_name, gen.plain_name, gen.plain_name, gen.name)
    top = st.tuples(st.just("write"), st.sampled_from(["tvl", "us"]), st.just("t"), st.just(0), st.just(0), st.just(0)).map(list)
    op = gen.weighted(edits.operations(names, weights="edit"), edits.operations(names, weights="plain"))
    ops = gen.sized_list(gen.weighted(op, op, op, op, op, top, st.just(["flush"])), 4, 8 if tier == "quick" else 14)
    return st.fixed_dictionaries({
        "init": edits.initial_store(names, richer=True), "ops": ops, "final": st.sampled_from(["tuf", "utf", "tfu", "tf", "uf", "futf", "tutf"]),
        "legacy": gen.weighted(st.none(), st.lists(st.binary(min_size=20, max_size=20).map(bytes.hex), min_size=1, max_size=3, unique=True)),
        "kills": st.lists(st.tuples(st.integers(0, 200), st.sampled_from(["kill-before", "kill-after"])).map(list), min_size=1,
                          max_size=2 if tier == "quick" else 6),
        "seed": st.integers(0, 2 ** 32)})


class FileWatch:
    """
    Records states between git commands: after the process itself opened (for
    writing), renamed, or removed a file of the repository, the state is copied
    at the following lines of the software, whenever it differs.
    """
    WINDOW, LIMIT = 40, 40

    def __init__(self, realm, states, plan):
        self.realm, self.states, self.plan = realm, states, plan
        self.left, self.copies, self.busy, self.last = 0, 0, False, None
        sys.addaudithook(self.audit)
        sys.settrace(self.trace)

    def audit(self, event, args):
        if self.busy or event not in ("open", "os.rename", "os.remove", "os.link", "os.symlink", "os.truncate"):
            return
        if event == "open" and not (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
            return
        if any(isinstance(a, (str, bytes, os.PathLike)) and os.path.abspath(os.fsdecode(a)).startswith(self.realm + "/") for a in args[:2]):
            self.left = self.WINDOW

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PACKAGE):
            return self.line
        return None

    def line(self, frame, event, arg):
        if self.left > 0 and self.copies < self.LIMIT and not self.busy:
            self.busy = True
            try:
                self.left -= 1
                now = snapshot(self.realm)
                if now != self.last:
                    self.last = now
                    self.copies += 1
                    shutil.copytree(self.realm, f"{self.states}/{self.plan.count:05d}.{self.copies:03d}")
            finally:
                self.busy = False
        return self.line


def write_session(realm, stored, ops, final, states=None, faults_at=None):
    """-> versions of the top-level objects; with `states`, copies of all crash states are saved there"""
    plan = faults.install(faults_at)
    if states is not None:
        def observe(index, _):
            shutil.copytree(realm, f"{states}/{index:05d}")
        plan.observer = observe
        watch = FileWatch(realm, states, plan)
    editor = edits.Editor(realm, stored)
    versions = {"tvl": [stored["tvl"]], "uuid": [stored["uuid"]]}

    def note():
        for part in versions:
            if versions[part][-1] != editor.stored[part]:
                versions[part].append(editor.stored[part])
    for op in ops:
        editor.apply(op)
        note()
    for c in final:
        if c == "f":
            editor.op_flush()
        else:
            editor.op_write("tvl" if c == "t" else "us", "t", 0, 0, 0)
        note()
    if states is not None:
        sys.settrace(None)
        watch.busy = True
        shutil.copytree(realm, f"{states}/{plan.count:05d}")
    return {"versions": versions, "count": plan.count, "log": plan.log, "stats": editor.stats, "stored": editor.stored}


def norm_part(part, value):
    return None if value is None else m.norm("tvl" if part == "tvl" else "us", value)


def examine(realm, versions, entries, legacy, what):
    """-> store content of the crash state"""
    actual = store.read_store(realm)
    for part, known in versions.items():
        got = norm_part(part, actual[part])
        check(any(got == norm_part(part, v) for v in known),
              f"{what}: {part} is neither the old nor one of the {len(known) - 1} new versions: {got}")
    now = object_reference_entries(realm)
    bad = [e for e, mode in now.items() if mode == "?"]
    check(not bad, f"{what}: object references: {bad[:3]}")
    lost = set(entries) - set(now)
    check(not lost, f"{what}: object references lost: {sorted(lost)[:3]}")
    lost = legacy - set(now) - legacy_entries(realm)
    check(not lost, f"{what}: legacy references lost: {sorted(lost)[:3]}")
    return actual


def run_case(case):
    rng = random.Random(case["seed"])
    with CaseDir() as d:
        initial = mkrepo(d + "/initial")
        store.Writer(initial).store(case["init"])
        initial_references(initial, case["init"])
        if case["legacy"]:
            # an object that the old reference store protects
            store.write_legacy_reference_tree(initial, "refs/datalad/object-references/blobs", {o: "100644" for o in case["legacy"]})
        entries, legacy = object_reference_entries(initial), legacy_entries(initial)
        realm = d + "/r"
        shutil.copytree(initial, realm)
        os.mkdir(d + "/states")
        result = session(write_session, realm, case["init"], case["ops"], case["final"], d + "/states", what="session without crash")
        versions, count = result["versions"], result["count"]
        same(m.norm("store", store.read_store(realm)), m.norm("store", result["stored"]), "result without crash")

        representatives = {}
        for name in sorted(os.listdir(d + "/states")):
            state, n = f"{d}/states/{name}", int(name.split(".")[0])
            place = f"crash before git command {n} of {count} ({(result['log'] + ['end'])[n]})"
            if "." in name:
                place += ", while the software changes files"
            actual = examine(state, versions, entries, legacy, place)
            refs = all_refs(state)
            representatives.setdefault(tuple(sorted(refs.items())), []).append((name, actual))

        # Real kills
        for index, action in case["kills"]:
            index = index % (count + 1)
            killed = f"{d}/killed"
            shutil.copytree(initial, killed)
            outcome = attempt(write_session, killed, case["init"], case["ops"], case["final"], None, {index: action})
            if index < count and outcome.kind != "killed":
                raise HarnessError(f"session was not killed: {outcome.kind} {outcome.error}")
            actual = examine(killed, versions, entries, legacy, f"{action} git command {index} ({(result['log'] + ['end'])[index]})")
            if index < count:
                # the dead process must not be in the way
                repeat(killed, actual, case, entries, legacy, f"repeat after {action} git command {index}")
            shutil.rmtree(killed)

        # Repeat the session on crash states
        for group in representatives.values():
            name, actual = rng.choice(group)
            n = int(name.split(".")[0])
            repeat(f"{d}/states/{name}", actual, case, entries, legacy, f"repeat after crash at git command {n} ({(result['log'] + ['end'])[n]})")
    stats = result["stats"]
    edit_count = sum(v for k, v in stats.items() if k.split()[0] in ("set", "add", "delete", "attach", "run"))
    return {"nontrivial": len(representatives) >= 3 and edit_count > 0,
            "tags": [f"crash states of the references {min(len(representatives), 9)}", f"git commands {min(count // 20 * 20, 200)}+"]}


def repeat(realm, actual, case, entries, legacy, what):
    result = session(write_session, realm, actual, case["ops"], case["final"], what=what)
    same(m.norm("store", store.read_store(realm)), m.norm("store", result["stored"]), f"{what}: stored content")
    same(m.norm("store", session(m.dump_store, realm, what=what)), m.norm("store", result["stored"]), f"{what}: loaded content")
    lost = (set(entries) | legacy) - set(object_reference_entries(realm))
    check(not lost, f"{what}: object references lost: {sorted(lost)[:3]}")
