"""C21: access to one record needs only its own objects"""
import copy
import os
import shutil
from pathlib import Path
from uuid import UUID

from hypothesis import strategies as st

from .. import edits, gen, store
from .. import model as m
from ..core import CaseDir, check, same, session
from ..gitx import TVL_REF, UUID_REF, all_objects, loose_path, mkrepo, read_object, read_ref, read_tree, reachable, OBJ_REF

PROPERTY = "C21"
LEVEL = "exploration"
NOTE = ("Fault injection: all (or some) stored objects that are not on the path to the accessed entries, as determined by an independent walk of the "
        "stored objects, are taken away; accesses and changes are compared with a model, and after the objects are put back the complete repository "
        "is compared. Sampled; trusts the walk and the model.")
QUICK, THOROUGH = 720, 30000
RULE = ("Hypothesis generates a store, one or two selected records, 1-6 operations on them (list versions, test, look up record, dataset metadata, file, "
        "missing file; add or replace version, dataset, metadata, file, run; remove; write, drop), and which of the objects not needed by these "
        "operations are taken away. Non-trivial: at least one look-up or change below the level of a version and at least 3 objects taken away.")
ASSUMPTIONS = ["the trees of the object reference store are available"]


def strategy(tier):
    names = gen.weighted(*[gen.plain_name] * 4, gen.name)
    md = gen.small_metadata(1)
    rec = st.fixed_dictionaries({"id": gen.uuid, "ver": gen.hex_version, "dm": gen.weighted(md, md, md, st.none()),
                                 "ft": gen.weighted(*[gen.file_tree(md, names, 5, 1)] * 5, st.none())})
    init = st.fixed_dictionaries({"tvl": gen.version_list(gen.dataset_tree(rec, names, 4, 1), 3, 1), "uuid": gen.uuid_set(rec, 3, 1, 1)})
    index = st.integers(0, 6)
    target = st.tuples(st.sampled_from("tttu"), index, index).map(list)
    path = gen.path(names, 1, 3)
    # a path below, or beside an existing one
    near = gen.weighted(path, st.tuples(index, st.integers(0, 3), path).map(list))
    n = st.integers(0, 1)
    run = gen.small_run
    look = gen.weighted(
        st.tuples(st.just("find"), n).map(list), st.tuples(st.just("find"), n).map(list), st.tuples(st.just("record"), n).map(list), st.tuples(st.just("dm"), n).map(list),
        st.tuples(st.just("file"), n, index).map(list), st.tuples(st.just("file"), n, index).map(list),
        st.tuples(st.just("test file"), n, near).map(list), st.tuples(st.just("test dataset"), n, near).map(list))
    change = gen.weighted(
        st.tuples(st.just("set version"), gen.hex_version, gen.list_time_stamp, gen.dataset_tree(rec, names, 2)).map(list),
        st.tuples(st.just("set list"), gen.version_list(rec, 2)).map(list),
        st.tuples(st.just("set element"), n, gen.hex_version, gen.list_time_stamp, rec).map(list),
        st.tuples(st.just("add dataset"), n, near, rec).map(list),
        st.tuples(st.just("add dataset"), n, near, rec).map(list),
        st.tuples(st.just("delete dataset"), n).map(list),
        st.tuples(st.just("set dm"), n, gen.weighted(md, st.none())).map(list),
        st.tuples(st.just("dm run"), n, run).map(list),
        st.tuples(st.just("set ft"), n, gen.file_tree(md, names, 3)).map(list),
        *[st.tuples(st.just("add file"), n, near, md).map(list)] * 3,
        *[st.tuples(st.just("run"), n, index, run).map(list)] * 2,
        st.tuples(st.just("run auto"), n, near, run).map(list))
    keep = gen.weighted(st.just(["write"]), st.tuples(st.just("purge"), n, st.sampled_from(["record", "ft", "dt", "top"])).map(list))
    ops = gen.sized_list(gen.weighted(*[look] * 5, *[change] * 6, keep, st.just(["versions"])), 3, 7 if tier == "quick" else 14)
    return st.fixed_dictionaries({
        "init": init, "by project": st.booleans(),
        "targets": st.lists(target, min_size=1, max_size=2), "ops": ops,
        "taken": gen.weighted(st.just(None), st.just(None), st.just(None), st.integers(1, 1 << 16)),
        "final": st.sampled_from(["tu", "ut", "tu", ""]), "flush": st.booleans()})


# --------------------------------------------------------------- selection

def locate(stored, target):
    """-> location of the selected record"""
    side, i, j = target
    if side == "t":
        entries = sorted((v, p) for v, p, _, dt in stored["tvl"] if dt)
        if entries:
            key = edits.pick(entries, i)
            dt = edits.to_dict(stored["tvl"])[key][1]
            return "t", key, edits.pick(sorted(dt), j)
    ids = sorted(u for u, vl in stored["uuid"].items() if vl)
    u = edits.pick(ids, i)
    return "u", u, edits.pick(sorted((v, p) for v, p, _, _ in stored["uuid"][u]), j)


def record_at(stored, loc):
    if loc[0] == "t":
        return edits.to_dict(stored["tvl"])[loc[1]][1][loc[2]]
    return edits.to_dict(stored["uuid"][loc[1]])[loc[2]][1]


def near_path(known, where):
    if isinstance(where, str):
        return where
    base = edits.pick(sorted(known), where[0]).split("/") if known else []
    base = base[:max(0, len(base) - where[1])]
    return "/".join([b for b in base if b] + [where[2]])


# -------------------------------------------------- needed objects, by walk

class Walk:
    """Independent determination of the objects that are on a path"""
    def __init__(self, realm):
        self.realm = realm
        self.needed = set()

    def json(self, oid):
        self.needed.add(oid)
        return store.load_json(self.realm, oid, "walk")

    def top(self, name):
        oid = read_ref(self.realm, name)
        self.needed.add(oid)
        return oid

    def trees(self, oid, parts):
        """Trees along the path -> object id at the end of the path, or None"""
        for p in parts:
            entries = read_tree(self.realm, oid)
            if entries is None:
                return None
            self.needed.add(oid)
            oid = {name.decode(): sub for _, name, sub in entries}.get(p)
            if oid is None:
                return None
        return oid

    def metadata(self, oid):
        self.needed.add(store.read_reference(self.json(oid), ("Metadata",), "walk"))

    def dataset_tree(self, key):
        for e in self.json(self.top(TVL_REF)):
            if (e["primary_data_version"], e["path"]) == key:
                return e["dataset_tree"]["location"]

    def record(self, loc):
        if loc[0] == "t":
            tree = self.dataset_tree(loc[1])
            oid = self.trees(tree, [*loc[2].split("/"), store.ROOT_RECORD] if loc[2] else [store.ROOT_RECORD])
        else:
            for e in self.json(self.trees(self.top(UUID_REF), [loc[1]])):
                if (e["primary_data_version"], e["path"]) == loc[2]:
                    oid = e["dataset_tree"]["location"]
        return self.json(oid)

    def dm(self, loc):
        ref = self.record(loc)["dataset_level_metadata"]
        if store.read_reference(ref, ("Metadata",), "walk") is not None:
            self.metadata(ref["location"])

    def file(self, loc, path, content=True):
        ref = self.record(loc)["file_tree"]
        if store.read_reference(ref, ("MTreeNode", "FileTree"), "walk") is not None:
            oid = self.trees(ref["location"], path.split("/"))
            if oid is not None and read_tree(self.realm, oid) is not None:
                self.needed.add(oid)
            elif oid is not None and content:
                self.metadata(oid)


def needed_objects(realm, stored, case):
    walk = Walk(realm)
    walk.top(TVL_REF), walk.top(UUID_REF)
    oref = read_ref(realm, OBJ_REF)
    if oref is not None:
        seen = [(oref, 0)]
        while seen:
            oid, depth = seen.pop()
            walk.needed.add(oid)
            if depth < 3:
                seen.extend((sub, depth + 1) for _, _, sub in read_tree(realm, oid))
    locs = [locate(stored, t) for t in case["targets"]]
    for op in case["ops"]:
        name = op[0]
        loc = locs[op[1] % len(locs)] if len(op) > 1 and name not in ("set version", "set list") else None
        if name in ("record", "set dm", "set ft"):
            walk.record(loc)
        elif name == "find":
            record = record_at(stored, loc)
            walk.record(loc)
            if loc[0] == "t":
                root = edits.to_dict(stored["tvl"])[loc[1]][1].get("")
                if root is not None:
                    walk.record(("t", loc[1], ""))
                for u in {record["id"], root["id"] if root is not None else None}:
                    if u in stored["uuid"]:
                        walk.json(walk.trees(walk.top(UUID_REF), [u]))
        elif name in ("dm", "dm run"):
            walk.dm(loc)
        elif name in ("file", "run"):
            ft = record_at(stored, loc)["ft"]
            if ft:
                walk.file(loc, edits.pick(sorted(ft), op[2]))
            else:
                walk.record(loc)
        elif name in ("add file", "run auto", "test file"):
            walk.file(loc, near_path(record_at(stored, loc)["ft"] or {}, op[2]), content=name == "run auto")
        elif name in ("add dataset", "test dataset") and loc[0] == "t":
            dt = edits.to_dict(stored["tvl"])[loc[1]][1]
            path = near_path(dt, op[2])
            oid = walk.trees(walk.dataset_tree(loc[1]), path.split("/"))
            if oid is not None:
                walk.needed.add(oid)
        elif name == "delete dataset" and loc[0] == "t" and loc[2]:
            oid = walk.trees(walk.dataset_tree(loc[1]), loc[2].split("/"))
        elif name == "set element":
            if loc[0] == "u":
                walk.json(walk.trees(walk.top(UUID_REF), [loc[1]]))
        elif name == "purge":
            # The object has to be reached
            if op[2] in ("record", "ft"):
                walk.record(loc)
                if op[2] == "ft":
                    walk.file(loc, "")
            elif op[2] == "dt" and loc[0] == "t":
                walk.needed.add(walk.dataset_tree(loc[1]))
    return walk.needed


# ------------------------------------------------------------- the session

class Runner(edits.Editor):
    def __init__(self, realm, stored, locs):
        super().__init__(realm, stored)
        self.locs = locs
        self.gone = set()

    def dt(self, key, variant=0):
        # not by get_dataset_trees(), which loads all trees of a version
        return super().dt(key, variant % 3 % 2)

    def target(self, n):
        """-> (location, model record) or None"""
        loc = self.locs[n % len(self.locs)]
        if loc[0] == "t":
            found = self.mt.get(loc[1], [None, {}])[1].get(loc[2])
        else:
            found = self.mu.get(loc[1], {}).get(loc[2], [None, None])[1]
        return None if found is None else (loc, found)

    def do(self, op, first):
        name, args = op[0], op[1:]
        getattr(self, "do_" + name.replace(" ", "_"))(*args, first)

    # `first`: stored records before the first change, for the paths
    def do_versions(self, first):
        same(sorted((v, str(p)) for v, p in self.tvl.versions_and_prefix_paths()), sorted(self.mt), "versions")
        same(sorted(str(u) for u in self.us.uuids()), sorted(self.mu), "uuids")
        self.count("list")

    def do_record(self, n, first):
        found = self.target(n)
        if found is not None:
            record = self.record(found[0], n)
            same([str(record.dataset_identifier), record.dataset_version], [found[1]["id"], found[1]["ver"]], f"record {found[0]}")
            self.count("look up record")

    def do_find(self, n, first):
        found = self.target(n)
        if found is None or found[0][0] != "t":
            return
        (_, (version, prefix), path), model = found
        root = self.mt[(version, prefix)][1].get("")
        if root is None and path:
            return
        record = m.find_record(
            self.tvl, self.us, UUID(model["id"]), model["ver"] if path else version, m.MP(prefix), m.MP(path),
            UUID(root["id"]) if path else None, version if path else None, False)
        if model["id"] in self.mu and (not path or root["id"] in self.mu):
            check(record is not None, f"record {found[0]} not found")
            same([str(record.dataset_identifier), record.dataset_version], [model["id"], model["ver"]], f"record {found[0]}")
            self.count("find record")
        else:
            check(record is None, f"record {found[0]} found, although the UUID set does not contain it")

    def do_dm(self, n, first):
        found = self.target(n)
        if found is not None:
            md = self.record(found[0]).get_dataset_level_metadata()
            same(None if md is None else m.dump_metadata(md), found[1]["dm"], f"dataset metadata of {found[0]}")
            self.count("look up dataset metadata")

    def do_file(self, n, k, first):
        found = self.target(n)
        ft = first[n % len(self.locs)]["ft"]
        if found is None or not ft:
            return
        path = edits.pick(sorted(ft), k)
        tree = self.ft(found[0])
        expected = (found[1]["ft"] or {}).get(path)
        if tree is None:
            check(expected is None, f"no file tree at {found[0]}")
        elif expected is not None:
            md = tree.get_metadata(m.MP(path))
            same(None if md is None else m.dump_metadata(md), expected, f"file {path!r} of {found[0]}")
            self.count("look up file")

    def do_test_file(self, n, where, first):
        found = self.target(n)
        if found is None:
            return
        path = near_path(first[n % len(self.locs)]["ft"] or {}, where)
        tree = self.ft(found[0])
        model = found[1]["ft"] or {}
        if tree is not None and not any(p.startswith(path + "/") for p in model):
            check((m.MP(path) in tree) == (path in model), f"{path!r} in the file tree of {found[0]}")
            self.count("test file")

    def do_test_dataset(self, n, where, first):
        loc = self.locs[n % len(self.locs)]
        if loc[0] == "t" and loc[1] in self.mt:
            path = near_path(self.trees[loc[1]], where)
            if not any(path == p for _, p in self.leftovers):
                check((m.MP(path) in self.dt(loc[1])) == (path in self.mt[loc[1]][1]), f"{path!r} in the dataset tree {loc[1]}")
                self.count("test dataset")

    def do_set_version(self, version, ts, dt, first):
        if all(loc[0] != "t" or loc[1] != (version, "") for loc in self.locs):
            self.op_set_version(version, "", ts, dt)

    def do_set_list(self, vl, first):
        self.op_set_list("00000000-0000-0000-0000-0000000000ff", vl)

    def do_set_element(self, n, version, ts, record, first):
        loc = self.locs[n % len(self.locs)]
        if loc[0] == "u":
            self.vl(loc[1]).set_versioned_element(version, ts, m.MP("new"), m.build_record(record))
            self.mu[loc[1]][(version, "new")] = [ts, copy.deepcopy(record)]
            self.count("set element")

    def do_add_dataset(self, n, where, record, first):
        loc = self.locs[n % len(self.locs)]
        if loc[0] == "t" and loc[1] in self.mt:
            path = near_path(self.trees[loc[1]], where)
            self.op_add_dataset(sorted(self.mt).index(loc[1]), path, record)

    def do_delete_dataset(self, n, first):
        found = self.target(n)
        if found is not None and found[0][0] == "t" and found[0][2]:
            (_, key, path), _ = found
            i, j = sorted(self.mt_with_records()).index(key), sorted(self.mt[key][1]).index(path)
            self.dt(key).delete_subtree(m.MP(path))
            self.leftovers.append((key, path))
            dt = self.mt[key][1]
            for p in [p for p in dt if p == path or p.startswith(path + "/")]:
                del dt[p]
            self.count("delete dataset")

    def mt_with_records(self):
        return [k for k in self.mt if self.mt[k][1]]

    def do_set_dm(self, n, md, first):
        found = self.target(n)
        if found is not None:
            self.record(found[0]).set_dataset_level_metadata(None if md is None else m.build_metadata(md))
            found[1]["dm"] = copy.deepcopy(md)
            self.count("set dataset metadata")

    def do_dm_run(self, n, run, first):
        found = self.target(n)
        if found is not None and found[1]["dm"] is not None:
            m.add_run(self.record(found[0]).get_dataset_level_metadata(), run)
            m.model_add_run(found[1]["dm"], run)
            self.count("run on dataset metadata")

    def do_set_ft(self, n, ft, first):
        found = self.target(n)
        if found is not None:
            self.record(found[0]).set_file_tree(m.build_file_tree(ft))
            found[1]["ft"] = copy.deepcopy(ft)
            self.count("set file tree")

    def do_add_file(self, n, where, md, first):
        found = self.target(n)
        if found is None:
            return
        loc, model = found
        path = near_path(first[n % len(self.locs)]["ft"] or {}, where)
        if edits.conflicts(model["ft"] or {}, path):
            try:
                self._ensure_ft(loc, model).add_metadata(m.MP(path), m.build_metadata(md))
            except ValueError:
                self.count("rejected conflict")
                return
            check(False, f"metadata added at conflicting path {path!r}")
        self._ensure_ft(loc, model).add_metadata(m.MP(path), m.build_metadata(md))
        model["ft"][path] = copy.deepcopy(md)
        self.count("add file")

    def do_run(self, n, k, run, first):
        found = self.target(n)
        ft = first[n % len(self.locs)]["ft"]
        if found is None or not ft:
            return
        path = edits.pick(sorted(ft), k)
        if path in (found[1]["ft"] or {}):
            m.add_run(self.ft(found[0]).get_metadata(m.MP(path)), run)
            m.model_add_run(found[1]["ft"][path], run)
            self.count("run on file")

    def do_run_auto(self, n, where, run, first):
        found = self.target(n)
        if found is None:
            return
        loc, model = found
        path = near_path(first[n % len(self.locs)]["ft"] or {}, where)
        if path not in (model["ft"] or {}) and edits.conflicts(model["ft"] or {}, path):
            return
        ft = self._ensure_ft(loc, model)
        ext, ver, par, ts, an, ae, content = run
        ft.add_extractor_run(m.MP(path), ts, ext, an, ae, m.ExtractorConfiguration(ver, par), content)
        m.model_add_run(model["ft"].setdefault(path, {}), run)
        self.count("run on file (auto)")

    def do_write(self, first):
        self.op_write("tvl", "t", 0, 0, 0)
        self.op_write("us", "t", 0, 0, 0)

    def do_purge(self, n, level, first):
        found = self.target(n)
        if level == "top":
            objects = [self.tvl, self.us]
        elif level == "dt":
            loc = self.locs[n % len(self.locs)]
            objects = [self.dt(loc[1])] if loc[0] == "t" and loc[1] in self.mt else []
        elif found is None:
            return
        else:
            objects = [self.record(found[0]) if level == "record" else self.ft(found[0])]
        for obj in objects:
            if obj is None:
                continue
            try:
                obj.purge()
                self.count("dropped")
            except ValueError:
                self.count("drop refused")


def run(realm, stored, locs, ops, final, flush):
    runner = Runner(realm, stored, locs)
    runner.trees = {k: copy.deepcopy(v[1]) for k, v in runner.mt.items()}
    first = [copy.deepcopy(record_at(stored, loc)) for loc in locs]
    for op in ops:
        runner.do(op, first)
    for c in final:
        runner.op_write("tvl" if c == "t" else "us", "t", 0, 0, 0)
    if flush:
        m.flush_object_references(Path(realm))
    return {"stored": runner.stored, "stats": runner.stats}


def take_away(realm, oids, where):
    for oid in oids:
        shutil.move(loose_path(realm, oid), os.path.join(where, oid))


def put_back(realm, where):
    for oid in os.listdir(where):
        path = loose_path(realm, oid)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.exists(path):
            os.unlink(os.path.join(where, oid))
        else:
            shutil.move(os.path.join(where, oid), path)


def run_case(case):
    stored = case["init"]
    with CaseDir() as d:
        realm = mkrepo(d + "/r")
        stash = d + "/stash"
        os.mkdir(stash)
        if case["by project"]:
            session(m.write_store, realm, stored, what="write")
        else:
            store.Writer(realm).store(stored)
        needed = needed_objects(realm, stored, case)
        others = sorted(o for o in all_objects(realm) if o not in needed)
        if case["taken"] is not None:
            others = [o for n, o in enumerate(others) if case["taken"] >> (n % 16) & 1]
        take_away(realm, others, stash)
        locs = [locate(stored, t) for t in case["targets"]]
        result = session(run, realm, stored, locs, case["ops"], case["final"], case["flush"],
                         what=f"session without {len(others)} objects that are not on the path")
        put_back(realm, stash)
        expected = result["stored"]
        same(m.norm("store", store.read_store(realm)), m.norm("store", expected), "stored content after the objects were put back")
        same(m.norm("store", session(m.dump_store, realm, what="load")), m.norm("store", expected), "content loaded by a new process")
        stats = result["stats"]
    deep = [k for k in stats if k not in ("list", "set version", "set list", "dropped", "drop refused") and not k.startswith("write")]
    return {"nontrivial": bool(deep) and len(others) >= 3, "tags": sorted(stats) + (["removed some"] if case["taken"] is not None else ["removed all"])}
