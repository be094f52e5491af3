"""C22: writing is deterministic and idempotent"""
import random
from uuid import UUID

from hypothesis import strategies as st

from .. import edits, execmain, gen, store
from .. import model as m
from ..core import CaseDir, check, same, session
from ..gitx import TVL_REF, UUID_REF, all_objects, all_refs, mkrepo

PROPERTY = "C22"
LEVEL = "exploration"
NOTE = ("Metamorphic: permuted insertion orders, other processes (with other hash seeds) and other repositories must give equal references and equal "
        "sets of objects; histories of loads, writes, drops of unmodified objects must not change the repository. Sampled.")
QUICK, THOROUGH = 800, 24000
RULE = ("Hypothesis generates either a structure and two insertion orders, which are written by a forked process, and by a second process that is forked "
        "or executed with another hash seed in a repository at another path; or a stored state (written by the project, or by the independent writer "
        "with other but equivalent JSON text), optionally changed and saved, and then 3-8 load, look-up, write, drop and copy operations in 1-2 "
        "processes without modification. Non-trivial: at least two entries in a permuted container, or at least 2 writes of unmodified objects.")
ASSUMPTIONS = ["the order in which extractor runs and the entries of version lists are added is not permuted"]


def strategy(tier):
    names = gen.weighted(*[gen.plain_name] * 4, gen.name)
    md = gen.small_metadata(1)
    rec = gen.record(md, gen.file_tree(md, names, 3))
    kinds = gen.weighted(
        st.tuples(st.just("ft"), gen.file_tree(md, names, 7, 2)),
        st.tuples(st.just("dt"), gen.dataset_tree(rec, names, 4, 1)),
        st.tuples(st.just("us"), gen.uuid_set(rec, 4, 1)),
        st.tuples(st.just("mrr"), rec)).map(list)
    order = st.fixed_dictionaries({
        "kind": st.just("order"), "object": kinds, "orders": st.lists(st.integers(0, 1 << 16), min_size=2, max_size=2),
        "exec": gen.weighted(st.none(), st.integers(0, 99)), "again": st.integers(0, 2),
        "built": st.sampled_from(["at once", "write between"])})
    ops = edits.operations(names, "plain")
    index = st.integers(0, 5)
    levels = st.sampled_from(["tvl", "us", "dt", "dt", "vl", "record", "record", "dm", "ft", "ft", "node", "md", "md"])
    side = st.sampled_from("ttu")
    idle = gen.weighted(
        *[st.tuples(st.just("write"), levels, side, index, index, index)] * 3,
        *[st.tuples(st.just("write"), st.sampled_from(["tvl", "us"]), st.just("t"), st.just(0), st.just(0), st.just(0))] * 2,
        *[st.tuples(st.just("read"), st.sampled_from(["record", "file", "paths", "tree", "versions"]), side, index, index, index)] * 2,
        st.tuples(st.just("unget"), st.sampled_from(["dt", "vl", "record", "md"]), side, index, index, index),
        st.tuples(st.just("purge"), levels, side, index, index, index),
        st.just(("flush",)), st.just(("load_everything",)), st.just(("find",))).map(list)
    rewrite = st.fixed_dictionaries({
        "kind": st.just("rewrite"), "init": edits.initial_store(names, richer=True), "style": st.integers(0, 3),
        "edits": gen.weighted(st.just([]), st.lists(ops, min_size=1, max_size=4)),
        "more": st.lists(idle, max_size=3),
        "other": gen.weighted(st.none(), st.none(), st.lists(ops, min_size=1, max_size=3)),
        "sessions": st.lists(gen.sized_list(idle, 3, 8 if tier == "quick" else 20), min_size=1, max_size=2)})
    return gen.weighted(order, rewrite, rewrite)


# ----------------------------------------------------------------- orders

def permuted(value, seed):
    keys = list(value)
    random.Random(seed).shuffle(keys)
    return {k: value[k] for k in keys}


def write_permuted(kind, value, seed, realm, again, built):
    if kind == "mrr":
        value = {**value, "ft": None if value["ft"] is None else permuted(value["ft"], seed)}
        if built == "write between":
            # reach the content in two steps
            obj = m.build_record({**value, **({"dm": None} if seed % 3 else {}), **({"ft": None} if seed % 2 else {})})
            ref = obj.write_out(realm)
            if seed % 4 < 2:
                obj = m.load("mrr", realm, ref.to_json_obj())
            obj.set_dataset_level_metadata(None if value["dm"] is None else m.build_metadata(value["dm"]))
            obj.set_file_tree(None if value["ft"] is None else m.build_file_tree(value["ft"]))
        else:
            obj = m.build_record(value)
    elif kind == "us":
        order = permuted(value, seed)
        keys = list(order)
        obj = m.build_uuid_set({u: order[u] for u in keys[:1 if built == "write between" else len(keys)]})
        if built == "write between":
            obj.write_out(realm)
            for u in keys[1:]:
                obj.set_version_list(UUID(u), m.build_version_list(order[u]))
    else:
        def entry(v):
            return v if kind == "ft" or v["ft"] is None else {**v, "ft": permuted(v["ft"], seed + 1)}
        order = permuted(value, seed)
        keys = list(order)
        obj = m.BUILD[kind]({k: entry(order[k]) for k in keys[:1 if built == "write between" else len(keys)]})
        if built == "write between":
            obj.write_out(realm)
            for k in keys[1:]:
                if kind == "ft":
                    obj.add_metadata(m.MP(k), m.build_metadata(order[k]))
                else:
                    obj.add_dataset(m.MP(k), m.build_record(entry(order[k])))
    ref = obj.write_out(realm).to_json_obj()
    before = [sorted(all_objects(realm)), all_refs(realm)]
    for _ in range(again):
        same(obj.write_out(realm).to_json_obj(), ref, "reference returned by repeated write")
    same([sorted(all_objects(realm)), all_refs(realm)], before, "objects after repeated write")
    return ref


def run_order(case):
    kind, value = case["object"]
    with CaseDir() as d:
        first, second = mkrepo(d + "/r"), mkrepo(d + "/other place")
        a, b = case["orders"]
        ref = session(write_permuted, kind, value, a, first, 0, "at once", what="first order")
        if case["exec"] is None:
            other = session(write_permuted, kind, value, b, second, case["again"], case["built"], what="second order")
        else:
            other = execmain.call(write_permuted, kind, value, b, second, case["again"], case["built"],
                                  env={"PYTHONHASHSEED": str(case["exec"])}, what="second order")
        same(other, ref, "reference of the same content added in another order")
        objects, others = all_objects(first), all_objects(second)
        if case["built"] == "at once":
            same(sorted(others), sorted(objects), "objects of the same content added in another order")
        else:
            check(objects <= others, "objects are missing in the second repository")
        same(all_refs(second), all_refs(first), "git references")
        if not m.Reference.from_json_obj(ref).is_none_reference():
            same(m.norm(kind, store.read_kind(first, kind, ref["location"])), m.norm(kind, value), "stored content")
    inner = len(value) if kind != "mrr" else len(value["ft"] or {})
    return {"nontrivial": inner >= 2, "tags": [f"order {kind}", "order"] + (["exec"] if case["exec"] is not None else [])}


# -------------------------------------------------------------- rewriting

class Idle(edits.Editor):
    def op_write(self, level, side, i, j, k):
        found = self.select(level, side, i, j, k)
        if found is None:
            return
        obj, kind, value = found
        ref = obj.write_out(self.realm)
        if ref.is_none_reference():
            check(not m.norm(kind, value), f"None-reference for {kind} with content")
        else:
            same(m.norm(kind, store.read_kind(self.realm, kind, ref.location)), m.norm(kind, value),
                 f"content at the reference returned by writing an unmodified {kind}")
        self.count("write " + level)
        self.count("write")

    def op_load_everything(self):
        self.compare_memory("while reading")

    def op_find(self):
        m.get_top_nodes_and_metadata_root_record(
            "git", self.realm, UUID(int=1), "1" * 40, m.MP(""), m.MP(""), None, None, False)


def state(realm):
    return [sorted(all_objects(realm)), all_refs(realm)]


def replaced(editor, realm, other, missing=()):
    """Another process stores something else, unmodified objects do not replace it"""
    result = session(edits.run_session, realm, editor.stored, other, what="other process")
    before = state(realm)
    for name, top in (("tvl", editor.tvl), ("us", editor.us)):
        if name not in missing:
            top.write_out(realm)
            same(state(realm), before, f"repository after write of unmodified {name} that another process has replaced")
    editor.count("changed by others")
    return result["stored"]


def change(realm, stored, ops, more, other):
    editor = edits.Editor(realm, stored)
    for op in [*ops, ["write", "tvl", "t", 0, 0, 0], ["write", "us", "t", 0, 0, 0], ["flush"]]:
        editor.apply(op)
    editor.__class__ = Idle
    apply_idle(editor, [["write", "tvl", "t", 0, 0, 0], ["write", "us", "t", 0, 0, 0], *more], state(realm))
    if other:
        editor.stored = replaced(editor, realm, other)
    return {"stored": editor.stored, "stats": editor.stats}


def apply_idle(editor, ops, before):
    for n, op in enumerate(ops):
        editor.apply(op)
        if op[0] == "flush":
            # May add entries to the object references
            new = state(editor.realm)
            same([new[1].get(r) for r in (TVL_REF, UUID_REF)], [before[1].get(r) for r in (TVL_REF, UUID_REF)], "top-level references after flush")
            before = new
        same(state(editor.realm), before, f"repository after {op} (operation {n}) on unmodified objects")


def idle(realm, stored, ops, other=None):
    before = state(realm)
    editor = Idle(realm, stored)
    missing = [k for k, v in (("tvl", stored["tvl"]), ("us", stored["uuid"])) if v is None]
    ops = [op for op in ops if not (op[0] == "write" and op[1] in missing)]
    if not other:
        apply_idle(editor, ops, before)
        return editor.stats, stored
    apply_idle(editor, ops, before)
    stored = replaced(editor, realm, other, missing)
    return editor.stats, stored


def run_rewrite(case):
    stored = case["init"]
    stats = {}
    with CaseDir() as d:
        realm = mkrepo(d + "/r")
        if case["style"] == 0:
            session(m.write_store, realm, stored, what="write")
        else:
            styles = [None, {"indent": 1}, {"separators": (",", ":")}, {"sort_keys": True}]
            store.Writer(realm, json_style=styles[case["style"]]).store(stored)
        if case["edits"]:
            result = session(change, realm, stored, case["edits"], case["more"], case["other"], what="changes")
            stored, stats = result["stored"], result["stats"]
        for n, ops in enumerate(case["sessions"]):
            counts, stored = session(idle, realm, stored, ops, case["other"] if n == 0 else None, what=f"session {n}")
            for k, v in counts.items():
                stats[k] = stats.get(k, 0) + v
        same(m.norm("store", store.read_store(realm)), m.norm("store", stored), "stored content")
    return {"nontrivial": stats.get("write", 0) >= 2, "tags": ["rewrite"] + sorted(stats) + (["changed"] if case["edits"] else [])}


def run_case(case):
    return run_order(case) if case["kind"] == "order" else run_rewrite(case)
