"""C16: the stored format 2.0 stays compatible in both directions"""
import json
import random

from hypothesis import strategies as st

from .. import edits, gen, store
from .. import model as m
from ..core import CaseDir, HarnessError, Violation, check, same, session
from ..gitx import (OBJ_REF, TVL_REF, UUID_REF, all_objects, all_refs, git, mkrepo, object_reference_entries,
                    read_object, tree_data, tree_entries)

PROPERTY = "C16"
LEVEL = "exploration"
NOTE = ("Differential against an independent reader and writer of format 2.0: legal variations of the format (older class names, older reference "
        "attributes, JSON styles, packed objects and references) are generated, read, and extended by the project; its own output is read strictly. "
        "Sampled; trusts the independent implementation of the format.")
QUICK, THOROUGH = 480, 16000
RULE = ("Hypothesis generates a store, a set of legal format variations in which an independent writer stores it, 0-2 sessions of edits by the "
        "project, and a structure that the project writes to a fresh repository. Reads of the project are compared with the canonical content, "
        "its output with a strict reader of the format (all blobs, trees, modes, tags, attributes, reference names, object reference layout). "
        "Non-trivial: at least one variation and at least one edit.")
ASSUMPTIONS = ["a store that was extended may still contain older forms in parts that were not rewritten"]


def strategy(tier):
    names = gen.weighted(gen.plain_name, gen.plain_name, gen.plain_name, gen.name)
    op = gen.weighted(edits.operations(names, weights="edit"), edits.operations(names, weights="plain"))
    ops = gen.sized_list(op, 3, 7 if tier == "quick" else 16)
    style = st.fixed_dictionaries({}, optional={
        "indent": st.sampled_from([1, 4]), "sort_keys": st.just(True), "ensure_ascii": st.just(False)})
    rec = gen.small_record(gen.name)
    own = st.fixed_dictionaries({"tvl": gen.version_list(gen.dataset_tree(rec, gen.name, 3), 2, 1), "uuid": gen.uuid_set(rec, 2, 1)})
    return st.fixed_dictionaries({
        "init": edits.initial_store(names, richer=True),
        "old_names": st.booleans(), "extra_keys": st.booleans(), "style": style, "shuffle": st.integers(0, 1000),
        "newline": st.booleans(), "packed": gen.weighted(st.just(False), st.just(False), st.just(True)),
        "sessions": st.lists(st.tuples(ops, st.sampled_from(["tu", "ut", "t", "u"])).map(list), min_size=1, max_size=2 if tier == "quick" else 4),
        "own": own})


class Variation(store.Writer):
    """Writes legal variations of the format"""
    def __init__(self, repo, case):
        style = {k: v for k, v in case["style"].items()}
        super().__init__(repo, case["old_names"], case["extra_keys"], style)
        self.rng = random.Random(case["shuffle"])
        self.shuffled = case["shuffle"] > 0
        self.newline = case["newline"]

    def shuffle(self, obj):
        if isinstance(obj, dict):
            keys = list(obj)
            self.rng.shuffle(keys)
            return {k: self.shuffle(obj[k]) for k in keys}
        if isinstance(obj, list):
            return [self.shuffle(e) for e in obj]
        return obj

    def blob(self, obj):
        if self.shuffled:
            obj = self.shuffle(obj)
        try:
            data = json.dumps(obj, **self.json_style).encode()
        except UnicodeEncodeError:          # lone surrogates have to be escaped
            data = json.dumps(obj).encode()
        return store.write_object(self.repo, "blob", data + (b"\n" if self.newline else b""))


def pack(realm):
    ids = "".join(f"{o}\n" for o in sorted(all_objects(realm)))
    git(realm, "pack-objects", "-q", realm + "/.git/objects/pack/pack", input=ids.encode())
    git(realm, "prune-packed", "-q")
    git(realm, "pack-refs", "--all")
    check_packed = all_refs(realm)
    return check_packed


def read_leniently(realm):
    store.LENIENT = True
    try:
        return store.read_store(realm)
    finally:
        store.LENIENT = False


REFERENCE_CLASSES = {"Metadata", "MTreeNode", "FileTree", "DatasetTree", "MetadataRootRecord"}


def check_new_blob(oid, data):
    """References that the project writes have exactly the attributes of the format"""
    try:
        text = data.decode()
        obj = json.loads(text)
    except ValueError:
        raise Violation(f"format: the project wrote the blob {oid}, which is not JSON: {data[:200]}")
    references = []
    if isinstance(obj, list):
        references = [e["dataset_tree"] for e in obj]
    elif "dataset_identifier" in obj:
        references = [obj["dataset_level_metadata"], obj["file_tree"]]
    elif "class_name" in obj:
        references = [obj]
    for r in references:
        store.check_tag(r, "Reference", f"blob {oid}", ("class_name", "location"))
        check(r["class_name"] in REFERENCE_CLASSES, f"format: reference to {r['class_name']} in {text[:200]}")


def check_objects(realm, before):
    for oid in sorted(all_objects(realm) - before):
        kind, data = read_object(realm, oid)
        check(kind in ("blob", "tree"), f"format: the project wrote the {kind} {oid}")
        if kind == "tree":
            check(tree_data(tree_entries(data)) == data, f"format: tree {oid} is not sorted like git trees")
        else:
            check_new_blob(oid, data)


def check_layout(realm, content):
    refs = all_refs(realm)
    expected = {TVL_REF: "blob", UUID_REF: "tree", OBJ_REF: "tree"}
    for name, oid in refs.items():
        check(name in expected, f"format: unknown reference {name}")
        obj = read_object(realm, oid)
        check(obj is not None and obj[0] == expected[name], f"format: {name} refers to {None if obj is None else obj[0]} {oid}")
    for name in (TVL_REF, UUID_REF):
        check(name in refs, f"format: reference {name} was not written")
    # object references: <3>/<3>/<3>/<31>, trees or blobs with their own type
    entries = object_reference_entries(realm)
    if any(e[3] for e in content["tvl"]) or any(content["uuid"].values()):
        check(entries, "format: no object references were written")
    for oid, mode in entries.items():
        obj = read_object(realm, oid)
        check(obj is not None, f"format: object reference to {oid} ({mode}), which does not exist")
        check(mode == {"blob": "100644", "tree": "40000"}[obj[0]], f"format: object reference to {obj[0]} {oid} with mode {mode}")


def run_case(case):
    edit_count = 0
    with CaseDir() as d:
        realm = mkrepo(d + "/foreign")
        stored = case["init"]
        Variation(realm, case).store(stored)
        if case["packed"] and all_objects(realm):
            pack(realm)
        try:
            same(m.norm("store", read_leniently(realm)), m.norm("store", stored), "independent writer and reader")
        except Violation as e:
            raise HarnessError(str(e))
        same(m.norm("store", session(m.dump_store, realm, what="load foreign store")), m.norm("store", stored), "foreign store")
        for n, (ops, final) in enumerate(case["sessions"]):
            before = all_objects(realm)
            result = session(edits.run_session, realm, stored, ops, final, False, False, True, what=f"session {n}")
            stored = result["stored"]
            edit_count += sum(v for k, v in result["stats"].items() if k.split()[0] in ("set", "add", "delete", "attach", "run"))
            check_objects(realm, before)
            same(m.norm("store", read_leniently(realm)), m.norm("store", stored), f"extended foreign store after session {n}")
            same(m.norm("store", session(m.dump_store, realm, what="load")), m.norm("store", stored), f"extended foreign store, loaded after session {n}")
        own = mkrepo(d + "/own")
        session(m.write_store, own, case["own"], what="write")
        same(m.norm("store", store.read_store(own)), m.norm("store", case["own"]), "store of the project")
        check_objects(own, set())
        check_layout(own, case["own"])
    variations = [k for k in ("old_names", "extra_keys", "packed", "newline", "style") if case[k]]
    return {"nontrivial": bool(variations) and edit_count > 0, "tags": variations + [f"sessions {len(case['sessions'])}"]}
