"""C20: looking up records with automatic creation is idempotent"""
import copy
import json
import time
from pathlib import Path
from uuid import UUID

from hypothesis import strategies as st

from .. import edits, gen, store
from .. import model as m
from ..core import CaseDir, check, same, session
from ..gitx import TVL_REF, UUID_REF, mkrepo, read_object, read_ref, read_tree, snapshot

from dataladmetadatamodel.common import get_metadata_root_record_from_top_nodes  # noqa: E402

PROPERTY = "C20"
LEVEL = "exploration"
NOTE = ("Stateful histories of lookups (with and without automatic creation), modifications of the returned records, and saves over several "
        "processes against a dictionary model of lookup and creation; start states are complete, partly missing or inconsistent stores. Sampled.")
QUICK, THOROUGH = 600, 24000
RULE = ("Hypothesis generates a store whose dataset ids list the records of its dataset trees (with entries removed, replaced, or whole top-level "
        "objects missing) and 1-3 processes, each with lookups of existing and new root datasets and sub-datasets through both lookup functions, "
        "modifications of the returned records, and saves in both orders. Memory is compared after every operation (in a forked process), the "
        "repository after every save. Non-trivial: at least one record was created or found by automatic creation and then modified.")
ASSUMPTIONS = ["the lookup names the dataset path of the sub-dataset if, and only if, it gives a sub-dataset id",
               "whether a lookup without creation finds a record that only one of the two top-level objects refers to is not specified",
               "if the dataset id already refers to another record than the dataset path, only the record at the dataset path is claimed to be modified"]


def strategy(tier):
    names = gen.weighted(*[gen.plain_name] * 4, gen.name)
    md = gen.small_metadata()
    ids = st.integers(1, 4).map(lambda n: f"00000000-0000-0000-0000-{n:012d}")
    versions = gen.hex_version
    rec = gen.record(md, gen.file_tree(md, names, 2), ids, versions)
    prefix = st.sampled_from(["", "", "", "p", "p/q"])
    dpath = gen.weighted(gen.path(names, 1, 1), gen.path(names, 1, 3))
    root = st.booleans()
    tree = st.tuples(root, rec, st.dictionaries(dpath, rec, max_size=2)).map(
        lambda t: ({"": t[1]} if t[0] or not t[2] else {}) | t[2])
    init = st.fixed_dictionaries({
        "tvl": gen.weighted(st.none(), *[st.lists(st.tuples(prefix, gen.list_time_stamp, gen.weighted(tree, tree, tree, st.just({}))).map(list), max_size=3)] * 4),
        "uuid": gen.weighted(st.none(), *[st.lists(gen.weighted(*[st.none()] * 3, st.just("missing"), st.just("empty"), rec), min_size=9, max_size=9)] * 4)})
    index = st.integers(0, 6)
    new = st.tuples(st.just("new"), ids, versions, prefix, gen.weighted(st.just(""), st.just(""), dpath), ids, versions).map(list)
    existing = st.tuples(st.just("existing"), index, index, gen.weighted(st.just(None), st.just(None), st.just(None), ids)).map(list)
    # a new sub-dataset in an existing version, a sub-dataset below a new version
    near = st.tuples(st.just("near"), index, dpath, ids, versions).map(list)
    # the dataset id and version of an existing dataset at another place
    twin = st.tuples(st.just("twin"), index, index, dpath).map(list)
    # the dataset of the last twin
    source = st.just(["source"])
    edit = gen.weighted(st.none(), st.tuples(st.just("dm"), gen.small_run).map(list), st.tuples(st.just("ft"), gen.path(names, 1, 2), gen.small_run).map(list))
    lookup = st.tuples(st.just("lookup"), gen.weighted(new, existing, existing, near, twin, source), gen.weighted(st.just(True), st.just(True), st.just(False)), edit).map(list)
    op = gen.weighted(lookup, lookup, lookup, lookup, st.tuples(st.just("save"), st.sampled_from(["tu", "ut"])).map(list),
                      st.tuples(st.just("fresh"), gen.weighted(new, existing, near), st.booleans()).map(list))
    ops = gen.sized_list(op, 2, 5 if tier == "quick" else 12)
    return st.fixed_dictionaries({
        "init": init,
        "sessions": st.lists(st.tuples(ops, st.sampled_from(["tu", "ut", ""])).map(list), min_size=1, max_size=3 if tier == "quick" else 5)})


def complete(init):
    """Case data -> canonical store with corresponding UUID set"""
    tvl = None
    found = {}
    if init["tvl"] is not None:
        entries = {}
        for prefix, ts, dt in init["tvl"]:
            dt = copy.deepcopy(dt)
            version = dt[""]["ver"] if "" in dt else "9" * 40
            if (version, prefix) in entries:
                continue
            entries[(version, prefix)] = [ts, dt]
            for path, r in dt.items():
                found.setdefault((r["id"], r["ver"], prefix if path == "" else ""), r)
        tvl = edits.to_list(entries)
    uuid = None
    if init["uuid"] is not None:
        uuid = {}
        for n, ((u, version, prefix), r) in enumerate(sorted(found.items(), key=lambda e: e[0])):
            what = init["uuid"][n % len(init["uuid"])]
            if what == "missing":
                continue
            if what == "empty":
                # the dataset has a list, but not for this version
                uuid.setdefault(u, [])
                continue
            uuid.setdefault(u, []).append([version, prefix, str(n), r if what is None else what])
    return {"tvl": tvl, "uuid": uuid}


# ------------------------------------------------ references in the repository

def locations(realm):
    """Which stored record do the two views refer to? -> ({(version, prefix, path): id}, {(uuid, version, prefix): id})"""
    by_path, by_id = {}, {}

    def records(oid, prefix=""):
        for mode, name, sub in read_tree(realm, oid) or []:
            if mode == "40000":
                yield from records(sub, prefix + name.decode() + "/")
            else:
                yield prefix.rstrip("/"), sub
    tvl, us = read_ref(realm, TVL_REF), read_ref(realm, UUID_REF)
    if tvl is not None:
        for e in json.loads(read_object(realm, tvl)[1]):
            for path, oid in records(e["dataset_tree"]["location"]) if e["dataset_tree"]["location"] != store.NONE else []:
                by_path[(e["primary_data_version"], e["path"], path)] = oid
    for _, name, oid in (read_tree(realm, us) or []) if us is not None else []:
        for e in json.loads(read_object(realm, oid)[1]):
            by_id[(name.decode(), e["primary_data_version"], e["path"])] = e["dataset_tree"]["location"]
    return by_path, by_id


class Lookups:
    """
    Model: self.tree {(version, prefix): [time stamp, {path: record}]} and
    self.ids {id: {(version, prefix): [time stamp, record]}} (or None); records
    that the project has to keep in sync are the same Python object. A time
    stamp of None means any.
    """
    def __init__(self, realm, stored):
        self.realm = realm
        self.stored = stored
        self.tree = None if stored["tvl"] is None else edits.to_dict(json.loads(json.dumps(stored["tvl"])))
        self.ids = None if stored["uuid"] is None else {u: edits.to_dict(json.loads(json.dumps(vl))) for u, vl in stored["uuid"].items()}
        self.by_path, self.by_id = locations(realm)
        self.loose = set()          # (id, (version, prefix)): record is not claimed
        self.modified = set()       # ids of model records that were modified
        self.tvl = self.us = None
        self.created = 0
        self.modifications = 0
        self.calls = 0
        self.source = None          # dataset whose id and version were used for another dataset

    # ------------------------------------------------------------- targets
    def target(self, spec):
        """-> (root id, root version, prefix, path, sub id, sub version) or None"""
        if spec[0] == "new":
            _, u, version, prefix, path, sub, sub_version = spec
            return (u, version, prefix, path, sub if path else None, sub_version if path else None)
        if not self.tree:
            return None
        if spec[0] == "source":
            return self.source
        key = edits.pick(sorted(self.tree), spec[1])
        dt = self.tree[key][1]
        if spec[0] == "near":
            _, _, path, sub, sub_version = spec
            root = self.root_of(dt)
            return (root, key[0], key[1], path, sub, sub_version)
        if not dt:
            return None
        path = edits.pick(sorted(dt), spec[2])
        if spec[0] == "twin":
            key, path = self.source_of(key, path)
            dt = self.tree[key][1]
            root = self.root_of(dt)
            return (root, key[0], key[1], spec[3], dt[path]["id"], dt[path]["ver"])
        root = self.root_of(dt)
        if path == "":
            return (spec[3] or root, key[0], key[1], "", None, None)
        return (root, key[0], key[1], path, spec[3] or dt[path]["id"], dt[path]["ver"])

    def root_of(self, dt):
        """Id of the root dataset, if there is none yet, that of a known dataset"""
        return dt[""]["id"] if "" in dt else min(self.ids or {}, default=str(UUID(int=1)))

    def source_of(self, key, path):
        """Prefer datasets that have no id yet"""
        candidates = [(key, path)] + [(k, p) for k in sorted(self.tree) for p in sorted(self.tree[k][1])]
        key, path = next(((k, p) for k, p in candidates if self.missing(k, p, self.tree[k][1][p])), (key, path))
        dt = self.tree[key][1]
        root = self.root_of(dt)
        self.source = (root, key[0], key[1], path, *((None, None) if path == "" else (dt[path]["id"], dt[path]["ver"])))
        return key, path

    def missing(self, key, path, record):
        return (key if path == "" else (record["ver"], "")) not in (self.ids or {}).get(record["id"], {})

    # --------------------------------------------------------------- model
    def views(self, target):
        """-> (key in tree, path, [(id, key in id list)], key for root)"""
        u, version, prefix, path, sub, sub_version = target
        if path == "":
            return (version, prefix), (u, (version, prefix))
        return (version, prefix), (sub, (sub_version, ""))

    def model_lookup(self, target, create, tree, ids):
        """-> (record or None, complete). Changes the model if `create`."""
        u, version, prefix, path, sub, sub_version = target
        key, (own_id, own_key) = self.views(target)
        if not create:
            if tree is None or ids is None or key not in tree or path not in tree[key][1]:
                return None, False
            full = own_id in ids and own_key in ids[own_id] and (path == "" or u in ids and "" in tree[key][1])
            return tree[key][1][path], full
        if key not in tree:
            tree[key] = [None, {}]
            self.created += 1
        dt = tree[key][1]
        if path != "":
            if "" not in dt:
                dt[""] = {"id": u, "ver": version, "dm": {}, "ft": {}}
                self.created += 1
            if key not in ids.setdefault(u, {}):
                ids[u][key] = [None, dt[""]]
        if path not in dt:
            dt[path] = {"id": own_id, "ver": own_key[0], "dm": {}, "ft": {}}
            self.created += 1
        record = dt[path]
        if own_key not in ids.setdefault(own_id, {}):
            ids[own_id][own_key] = [None, record]
            self.created += 1
        return record, True

    def link(self, target, record):
        """The id refers to the same stored record: modifications have to appear there, too"""
        key, (own_id, own_key) = self.views(target)
        entry = (self.ids or {}).get(own_id, {}).get(own_key)
        if entry is None or entry[1] is record:
            return
        oid = self.by_path.get((key[0], key[1], target[3]))
        if oid is None or oid != self.by_id.get((own_id, own_key[0], own_key[1])):
            return
        if id(record) not in self.modified and id(entry[1]) not in self.modified and not self.is_shared(entry[1]):
            entry[1] = record
        else:
            # modified since it was loaded
            self.loose.add((own_id, own_key))

    def is_shared(self, record):
        """Do several entries refer to the model record?"""
        uses = sum(r is record for e in self.tree.values() for r in e[1].values())
        uses += sum(e[1] is record for vl in self.ids.values() for e in vl.values())
        return uses > 1

    # ------------------------------------------------------------ operations
    def top(self, target, create):
        u, version, prefix, path, sub, sub_version = target
        return m.get_top_nodes_and_metadata_root_record(
            "git", self.realm, UUID(u), version, m.MP(prefix), m.MP(path),
            None if sub is None else UUID(sub), sub_version, *self.creation(create))

    def creation(self, create):
        """Nothing is created by default"""
        self.calls += 1
        return [create] if create or self.calls % 2 else []

    def from_top(self, target, create):
        u, version, prefix, path, sub, sub_version = target
        if sub is None:
            args = [UUID(u), version, m.MP(prefix), m.MP(path), None, None]
        else:
            args = [UUID(sub), sub_version, m.MP(prefix), m.MP(path), UUID(u), version]
        for tvl, us in ((None, self.us), (self.tvl, None), (None, None)):
            found = get_metadata_root_record_from_top_nodes(tvl, us, *args, False)
            check(found is None, f"lookup of {target} without top-level objects returned {found}")
        return get_metadata_root_record_from_top_nodes(self.tvl, self.us, *args, *self.creation(create))

    def check_record(self, record, expected, full, create, what):
        if expected is None:
            check(record is None, f"{what}: returned a record, which does not exist")
        elif record is None:
            check(not full and not create, f"{what}: existing record was not found")
        else:
            same(m.norm_record(m.dump_record(record)), m.norm_record(expected), what)

    def op_fresh(self, spec, create):
        """Lookup in the stored objects, nothing is saved"""
        target = self.target(spec)
        if target is None:
            return
        what = f"fresh lookup of {target} (create: {create})"
        tree = None if self.stored["tvl"] is None else edits.to_dict(json.loads(json.dumps(self.stored["tvl"])))
        ids = None if self.stored["uuid"] is None else {u: edits.to_dict(json.loads(json.dumps(vl))) for u, vl in self.stored["uuid"].items()}
        created = self.created
        if create:
            tree, ids = {} if tree is None else tree, {} if ids is None else ids
        expected, full = self.model_lookup(target, create, tree, ids)
        self.created = created
        before = snapshot(self.realm)
        tvl, us, record = self.top(target, create)
        self.check_record(record, expected, full, create, what)
        if not create and (self.stored["tvl"] is None or self.stored["uuid"] is None):
            check(tvl is None and us is None and record is None, f"{what}: {tvl}, {us}, {record}")
        check(snapshot(self.realm) == before, f"{what}: files of the repository changed")

    def op_lookup(self, spec, create, edit):
        target = self.target(spec)
        if target is None:
            return
        what = f"lookup of {target} (create: {create})"
        first = self.tvl is None
        if first and not create and (self.tree is None or self.ids is None):
            tvl, us, record = self.top(target, create)
            check(tvl is None and us is None and record is None, f"{what} without top-level objects: {tvl}, {us}, {record}")
            return
        if create:
            self.tree = {} if self.tree is None else self.tree
            self.ids = {} if self.ids is None else self.ids
        expected, full = self.model_lookup(target, create, self.tree, self.ids)
        if first:
            self.tvl, self.us, record = self.top(target, create)
            check(self.tvl is not None and self.us is not None, f"{what}: top-level objects {self.tvl}, {self.us}")
        else:
            record = self.from_top(target, create)
        if record is not None and expected is not None:
            self.link(target, expected)
        if record is not None or expected is None:
            # content is compared in a forked process, to keep parts unloaded
            session(self.check_record, record, expected, full, create, what, what=what)
        else:
            check(not full and not create, f"{what}: existing record was not found")
        self.verify("after " + what)
        if record is None or edit is None:
            return
        if edit[0] == "dm":
            if expected["dm"] is None:
                record.set_dataset_level_metadata(m.Metadata())
                expected["dm"] = {}
            m.add_run(record.get_dataset_level_metadata(), edit[1])
            m.model_add_run(expected["dm"], edit[1])
        else:
            if edit[1] not in (expected["ft"] or {}) and edits.conflicts(expected["ft"] or {}, edit[1]):
                return
            if record.file_tree is None:
                record.set_file_tree(m.FileTree())
            if expected["ft"] is None:
                expected["ft"] = {}
            run = edit[2]
            record.file_tree.add_extractor_run(m.MP(edit[1]), run[3], run[0], run[4], run[5], m.ExtractorConfiguration(run[1], run[2]), run[6])
            m.model_add_run(expected["ft"].setdefault(edit[1], {}), run)
        self.modified.add(id(expected))
        self.modifications += 1
        key, own = self.views(target)
        entry = self.ids.get(own[0], {}).get(own[1])
        if entry is not None and entry[1] is not expected:
            self.loose.add(own)
        self.verify(f"after modification of the record from {what}")

    def op_save(self, order):
        if order == "":
            return
        if self.tvl is None:
            return
        for c in order:
            (self.tvl if c == "t" else self.us).write_out(self.realm)
        m.flush_object_references(Path(self.realm))
        actual = store.read_store(self.realm)
        self.compare(actual, f"stored content after save {order}")
        self.stored = actual

    # ----------------------------------------------------------- comparison
    def compare(self, actual, what):
        """actual: canonical store"""
        def record(r):
            return m.norm_record(r)
        got = edits.to_dict(actual["tvl"] or [])
        same(sorted(got), sorted(self.tree), f"{what}: versions")
        for key, (ts, dt) in self.tree.items():
            if ts is None:
                check(is_now(got[key][0]), f"{what}: time stamp {got[key][0]!r} of created entry {key}")
                self.tree[key][0] = got[key][0]
            else:
                same(got[key][0], ts, f"{what}: time stamp of {key}")
            same({p: record(r) for p, r in got[key][1].items()}, {p: record(r) for p, r in dt.items()}, f"{what}: dataset tree {key}")
        got = {u: edits.to_dict(vl) for u, vl in (actual["uuid"] or {}).items()}
        same(sorted(got), sorted(self.ids), f"{what}: dataset ids")
        for u, vl in self.ids.items():
            same(sorted(got[u]), sorted(vl), f"{what}: entries of dataset {u}")
            for key, (ts, r) in vl.items():
                if ts is None:
                    check(is_now(got[u][key][0]), f"{what}: time stamp {got[u][key][0]!r} of created entry {u} {key}")
                    vl[key][0] = got[u][key][0]
                else:
                    same(got[u][key][0], ts, f"{what}: time stamp of {u} {key}")
                if (u, key) not in self.loose:
                    same(record(got[u][key][1]), record(r), f"{what}: record of dataset {u} {key}")

    def verify(self, what):
        def in_memory():
            self.compare({"tvl": m.dump_tree_version_list(self.tvl), "uuid": m.dump_uuid_set(self.us)}, what)
        session(in_memory, what=what)

    def apply(self, op):
        getattr(self, "op_" + op[0])(*op[1:])


def is_now(text):
    try:
        return abs(float(text) - time.time()) < 3600
    except (TypeError, ValueError):
        return False


def run_session(realm, stored, ops, final):
    lookups = Lookups(realm, stored)
    for op in ops:
        lookups.apply(op)
    lookups.op_save(final)
    return {"stored": lookups.stored, "created": lookups.created, "modifications": lookups.modifications, "loose": len(lookups.loose)}


def run_case(case):
    totals = {"created": 0, "modifications": 0, "loose": 0}
    with CaseDir() as d:
        realm = mkrepo(d + "/r")
        stored = complete(case["init"])
        store.Writer(realm).store(stored)
        for n, (ops, final) in enumerate(case["sessions"]):
            result = session(run_session, realm, stored, ops, final, what=f"session {n}")
            stored = result["stored"]
            same(m.norm("store", store.read_store(realm)), m.norm("store", stored), f"stored content after session {n}")
            same(m.norm("store", session(m.dump_store, realm, what="load")), m.norm("store", stored), f"content loaded after session {n}")
            for k in totals:
                totals[k] += result[k]
    return {"nontrivial": totals["modifications"] > 0, "tags": sorted(k for k, v in totals.items() if v) + [
        "start without " + "+".join(k for k in ("tvl", "uuid") if case["init"][k] is None) if None in case["init"].values() else "complete start"]}
