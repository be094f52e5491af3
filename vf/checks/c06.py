"""C06: stored metadata survives git garbage collection"""
import copy
from pathlib import Path

from hypothesis import strategies as st

from .. import edits, gen, store
from .. import model as m
from ..core import CaseDir, Violation, check, same, session
from ..gitx import OBJ_REF, TVL_REF, UUID_REF, all_objects, git, mkrepo, object_reference_entries, read_ref
from ..multi import content_at

PROPERTY = "C06"
LEVEL = "exploration"
NOTE = ("Histories of interleaved writes and flushes in two repositories, followed by git gc --prune=now and git fsck; the objects that an "
        "independent reader visited before are looked up afterwards. Sampled; trusts git gc and git fsck.")
QUICK, THOROUGH = 480, 12000
RULE = ("Hypothesis generates start states of two repositories and an interleaved history of edits, writes at every level, drops, separately "
        "written file trees and dataset trees (also of one object to both repositories), and flushes, in one or two sessions; at the end the top-level objects are written and the "
        "object references flushed in either order. Then git gc --prune=now and git fsck --full run, every object that is needed has to be "
        "present and everything loads completely. Non-trivial: at least 3 metadata objects with content were stored.")
ASSUMPTIONS = ["the object references of the start states are complete (written by the independent writer)",
               "metadata, records and version lists that were written alone, and not as part of a tree or top-level object, are not claimed"]


def strategy(tier):
    base = st.tuples(st.integers(0, 1), edits.operations(weights="edit")).map(list)
    tree = gen.file_tree(gen.small_metadata(), max_files=3, min_files=1)
    dtree = gen.dataset_tree(gen.small_record(), max_datasets=2, min_datasets=1)
    extra = st.one_of(
        st.tuples(st.integers(0, 1), st.tuples(st.just("tree"), tree).map(list)).map(list),
        st.tuples(st.integers(0, 1), st.tuples(st.just("dtree"), dtree).map(list)).map(list),
        st.tuples(st.integers(0, 1), st.tuples(st.just("both"), gen.weighted(
            st.tuples(st.just("ft"), tree).map(list), st.tuples(st.just("dt"), dtree).map(list)), gen.small_run).map(list)).map(list),
        st.tuples(st.integers(0, 1), st.tuples(
            st.just("cross"), st.sampled_from(["dt", "ft", "dt"]), edits.side, edits.index, edits.index, edits.index).map(list)).map(list),
        st.tuples(st.integers(0, 1), st.just(["flush"])).map(list),
        st.tuples(st.integers(0, 1), st.tuples(st.just("back"), edits.side, edits.index, edits.index).map(list)).map(list))
    ops = gen.sized_list(gen.weighted(base, base, base, extra), 5, 12 if tier == "quick" else 30)
    return st.fixed_dictionaries({
        "init": st.tuples(edits.initial_store(), edits.initial_store()).map(list),
        "sessions": st.lists(ops, min_size=1, max_size=2 if tier == "quick" else 4),
        "flush_order": st.sampled_from([[0, 1], [1, 0]]),
        "gc_between": st.booleans()})


def needed_by_store(realm):
    """Ids of all objects of the stored top-level objects, and of the metadata below"""
    seen = set()
    for ref in (TVL_REF, UUID_REF):
        oid = read_ref(realm, ref)
        if oid is not None:
            seen.add(oid)
    original = store.read_object

    def recording(repo, oid):
        seen.add(oid)
        return original(repo, oid)

    original_tree = store.read_tree

    def recording_tree(repo, oid):
        seen.add(oid)
        return original_tree(repo, oid)
    store.read_object, store.read_tree = recording, recording_tree
    try:
        content = store.read_store(realm)
    finally:
        store.read_object, store.read_tree = original, original_tree
    return seen, content


def needed_by_tree(realm, kind, location):
    seen = {location}
    original, original_tree = store.read_object, store.read_tree

    def recording(repo, oid):
        seen.add(oid)
        return original(repo, oid)

    def recording_tree(repo, oid):
        seen.add(oid)
        return original_tree(repo, oid)
    store.read_object, store.read_tree = recording, recording_tree
    try:
        content = store.read_kind(realm, kind, location)
    finally:
        store.read_object, store.read_tree = original, original_tree
    return seen, content


def initial_references(realm, init):
    """Object references of a store, as the format requires them"""
    entries = {}
    writer = store.Writer(realm)

    def metadata(md):
        entries[writer.blob(writer.metadata_json(md))] = "100644"

    def record(r, blob):
        if blob:
            entries[writer.record(r)] = "100644"
        if r["dm"] is not None:
            metadata(r["dm"])
            entries[writer.metadata(r["dm"])] = "100644"
        if r["ft"]:
            entries[writer.file_tree(r["ft"])] = "40000"
            for md in r["ft"].values():
                metadata(md)
    for _, _, _, dt in init["tvl"] or []:
        if dt:
            entries[writer.dataset_tree(dt)] = "40000"
        for r in dt.values():
            record(r, False)
    for vl in (init["uuid"] or {}).values():
        for _, _, _, r in vl:
            record(r, True)
    if entries:
        store.write_reference_tree(realm, OBJ_REF, entries)


def run_session(realms, stored, ops, flush_order):
    editors = [edits.Editor(r, s) for r, s in zip(realms, stored)]
    trees, crossed = [], set()
    for index, op in ops:
        if op[0] in ("tree", "dtree"):
            kind = "ft" if op[0] == "tree" else "dt"
            ref = m.BUILD[kind](op[1]).write_out(realms[index])
            trees.append([index, kind, ref.location, m.norm(kind, op[1])])
        elif op[0] == "both":
            # the same object in both repositories, without and with a change in between
            kind, model = op[1][0], edits.copied(op[1][1])
            obj = m.BUILD[kind](model)
            for n in (index, 1 - index, index):
                if n == index and kind == "ft" and model:
                    path = sorted(model)[0]
                    m.add_run(obj.get_metadata(m.MP(path)), op[2])
                    m.model_add_run(model[path], op[2])
                trees.append([n, kind, obj.write_out(realms[n]).location, edits.copied(m.norm(kind, model))])
        elif op[0] == "cross":
            # an object of one repository, also written to the other one
            found = editors[index].select(*op[1:])
            if found is not None:
                obj, kind, model = found
                m.DUMP[kind](obj)
                ref = obj.write_out(realms[1 - index])
                crossed.add(index)
                if ref.location != store.NONE:
                    trees.append([1 - index, kind, ref.location, edits.copied(m.norm(kind, model))])
        elif op[0] == "back":
            # a change that is taken back after what was stored before has been removed as garbage
            editor = editors[index]
            found = editor.model_record(*op[1:])
            if found is None or crossed:
                continue
            loc = found[0]
            old = (editor.mt[loc[1]] if loc[0] == "t" else editor.mu[loc[1]][loc[2]])[0]
            for time_stamp in (old, "changed", old):
                editor.op_retime(*op[1:], time_stamp)
                for e in editors:
                    e.op_write("tvl", "t", 0, 0, 0)
                    e.op_write("us", "t", 0, 0, 0)
                for realm in realms:
                    m.flush_object_references(Path(realm))
                git(realms[index], "gc", "--prune=now", "--quiet")
        else:
            if index in crossed and op[0] in ("write", "unget", "purge", "settle", "rework", "modify_and_drop"):
                # what was dropped after it was written elsewhere has to be in memory to be written
                editors[index].compare_memory("load all")
            editors[index].apply(op)
    for index, editor in enumerate(editors):
        if index in crossed:
            editor.compare_memory("load all")
        editor.op_write("tvl", "t", 0, 0, 0)
        editor.op_write("us", "t", 0, 0, 0)
    for index in flush_order:
        m.flush_object_references(Path(realms[index]))
    return {"stored": [e.stored for e in editors], "trees": trees}


def collect_garbage(realm, trees, stored, what):
    needed, content = needed_by_store(realm)
    same(m.norm("store", content), m.norm("store", stored), f"{what}: stored content before garbage collection")
    for _, kind, location, expected in trees:
        seen, content = needed_by_tree(realm, kind, location)
        same(m.norm(kind, content), expected, f"{what}: {kind} before garbage collection")
        needed |= seen
    missing = needed - all_objects(realm)
    check(not missing, f"{what}: objects missing before garbage collection: {sorted(missing)[:4]}")
    bad = [e for e, mode in object_reference_entries(realm).items() if mode == "?"]
    check(not bad, f"{what}: object references: {bad[:4]}")
    git(realm, "gc", "--prune=now", "--quiet")
    # fsck also complains about unusual names (.gitattributes, ...), only missing objects count here
    fsck = git(realm, "fsck", "--full", "--no-dangling", check=False)
    text = (fsck.stdout + fsck.stderr).decode(errors="replace").splitlines()
    bad = [line for line in text if line.startswith(("missing ", "broken link"))]
    check(not bad, f"{what}: git fsck: {bad[:3]}")
    lost = needed - all_objects(realm)
    check(not lost, f"{what}: removed by garbage collection: {sorted(lost)[:4]} ({len(lost)} of {len(needed)})")
    return len(needed)


def run_case(case):
    with CaseDir() as d:
        realms = [mkrepo(d + "/r0"), mkrepo(d + "/r1")]
        stored = case["init"]
        for realm, s in zip(realms, stored):
            store.Writer(realm).store(s)
            initial_references(realm, s)
        trees, size = [], 0
        for n, ops in enumerate(case["sessions"]):
            result = session(run_session, realms, stored, ops, case["flush_order"], what=f"session {n}")
            stored = result["stored"]
            trees += result["trees"]
            if n == len(case["sessions"]) - 1 or case["gc_between"]:
                for index, realm in enumerate(realms):
                    size += collect_garbage(realm, [t for t in trees if t[0] == index], stored[index], f"repository {index}, session {n}")
        for index, realm in enumerate(realms):
            same(m.norm("store", session(m.dump_store, realm, what="load after garbage collection")), m.norm("store", stored[index]),
                 f"repository {index} after garbage collection")
    return {"nontrivial": size >= 12, "tags": [f"sessions {len(case['sessions'])}"] + (["separate trees"] if trees else [])}
