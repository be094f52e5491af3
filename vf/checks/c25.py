"""C25: version lists and UUID sets behave like maps"""
import copy
from uuid import UUID

from hypothesis import strategies as st

from .. import edits, gen, store
from .. import model as m
from ..core import CaseDir, Violation, check, describe, is_resource_problem, same, session
from ..gitx import mkrepo

PROPERTY = "C25"
LEVEL = "exploration"
NOTE = ("Stateful generation for version lists, tree version lists and UUID sets against a dictionary model; the complete content is compared after "
        "every operation in a forked process, so that partly loaded states stay partly loaded. Sampled; trusts the model.")
QUICK, THOROUGH = 960, 30000
RULE = ("Hypothesis generates the kind of object, initial entries (given to the constructor, set one by one, or stored by an independent writer) and "
        "6-12 operations: set (new or existing version and prefix path, prefix paths in different spellings), get, get all of a version, get missing "
        "entries, modify an element, set an element again with another time stamp, give back, drop, write, reload; the same for version lists of UUID sets. Non-trivial: at least 2 entries, one "
        "replaced or modified entry and one drop, give-back or reload.")
ASSUMPTIONS = ["time stamps are texts", "the order of entries is not specified"]
KINDS = ["vl", "tvl", "us", "us"]


def strategy(tier):
    names = gen.plain_name
    rec = gen.small_record(names)
    versions = gen.weighted(gen.hex_version, gen.hex_version, gen.any_text)
    prefixes = gen.weighted(*[st.sampled_from(["", "", "p", "p/q", "q"])] * 3, gen.path(gen.name, 1, 2))
    spelling = st.integers(0, 3)
    near = edits.index
    key = gen.weighted(st.tuples(versions, prefixes).map(list), near, near)
    value = {"vl": rec, "tvl": gen.dataset_tree(rec, names, 2)}

    def list_op(kind):
        val = value[kind]
        setter = st.tuples(st.just("set"), key, gen.list_time_stamp, val, spelling).map(list)
        return gen.weighted(
            setter, setter, setter,
            st.tuples(st.just("get"), key, spelling).map(list), st.tuples(st.just("get"), near, spelling).map(list),
            st.tuples(st.just("all"), key).map(list),
            st.tuples(st.just("modify"), near, gen.small_run).map(list), st.tuples(st.just("modify"), near, gen.small_run).map(list),
            st.tuples(st.just("unget"), near, spelling).map(list), st.tuples(st.just("unget"), near, spelling).map(list),
            st.just(["list"]), st.just(["write"]), st.just(["purge"]), st.just(["settle"]), st.just(["reload"]),
            st.tuples(st.just("purge element"), near).map(list),
            st.tuples(st.just("set again"), near, gen.list_time_stamp, spelling).map(list))

    def case(kind):
        start = st.sampled_from(["set", "constructor", "stored", "stored"])
        if kind != "us":
            init = gen.version_list(value[kind], 3)
            ops = gen.sized_list(list_op(kind), 6, 12 if tier == "quick" else 40)
        else:
            init = gen.uuid_set(rec, 2)
            ids = gen.weighted(near, near, gen.uuid)
            inner = st.tuples(st.just("in"), near, list_op("vl")).map(list)
            ops = gen.sized_list(gen.weighted(
                inner, inner, inner, inner,
                st.tuples(st.just("set list"), ids, gen.version_list(rec, 2)).map(list), st.tuples(st.just("set list"), ids, gen.version_list(rec, 2)).map(list),
                st.tuples(st.just("set list again"), near).map(list),
                st.tuples(st.just("get list"), ids).map(list), st.tuples(st.just("unget list"), near).map(list),
                st.just(["list"]), st.just(["write"]), st.just(["purge"]), st.just(["settle"]), st.just(["reload"])),
                6, 12 if tier == "quick" else 40)
        return st.fixed_dictionaries({"kind": st.just(kind), "start": start, "init": init, "ops": ops})
    return gen.weighted(*[case(k) for k in KINDS])


def spell(prefix, how):
    """The same path in another spelling"""
    if how == 1:
        return m.MP("./" + prefix) if prefix else m.MP(".")
    if how == 2:
        return m.MP(prefix + "/") if prefix else m.MP("")
    if how == 3:
        return m.MP(*[m.MP(p) for p in prefix.split("/")]) if prefix else m.MP()
    return m.MP(prefix)


def raises(fn, what):
    try:
        value = fn()
    except Exception as e:
        if is_resource_problem(e) or not isinstance(e, (LookupError, ValueError)):
            raise Violation(f"{what}: wrong error {describe(e)}")
        return
    raise Violation(f"{what}: returned {value} instead of an error")


class ListModel:
    """Operations on a version list. `get` returns the project's object."""
    def __init__(self, kind, realm, get, entries):
        self.kind, self.realm, self.get = kind, realm, get
        self.entries = entries

    def key(self, where):
        """-> (version, prefix), or None"""
        if isinstance(where, int):
            return sorted(self.entries)[where % len(self.entries)] if self.entries else None
        return tuple(where)

    def build(self, value):
        return m.build_record(value) if self.kind == "vl" else m.build_dataset_tree(value)

    def dump(self, element):
        return m.norm_record(m.dump_record(element)) if self.kind == "vl" else m.norm("dt", m.dump_dataset_tree(element))

    def norm(self, value):
        return m.norm_record(value) if self.kind == "vl" else m.norm("dt", value)

    def apply(self, op, stats):
        name, obj = op[0], self.get()
        if name == "set":
            key = self.key(op[1]) or ("v", "")
            stats["replaced"] += key in self.entries
            if self.kind == "tvl" and op[4] % 2:
                obj.set_dataset_tree(key[0], op[2], spell(key[1], op[4]), self.build(op[3]))
            else:
                obj.set_versioned_element(key[0], op[2], spell(key[1], op[4]), self.build(op[3]))
            self.entries[key] = [op[2], op[3]]
        elif name == "get":
            key = self.key(op[1])
            if key is None:
                return
            getters = [obj.get_versioned_element]
            if self.kind == "tvl":
                getters.append(obj.get_dataset_tree)
            for getter in getters:
                if key not in self.entries:
                    raises(lambda: getter(key[0], spell(key[1], op[2])), f"get missing entry {key}")
                    continue
                ts, prefix, element = getter(key[0], spell(key[1], op[2]))
                check(ts == self.entries[key][0] and prefix == m.MP(key[1]), f"get {key}: time stamp {ts!r}, prefix {prefix}")
                if op[2] == 0:
                    same(self.dump(element), self.norm(self.entries[key][1]), f"get {key}")
        elif name == "all":
            key = self.key(op[1])
            if key is None:
                return
            expected = sorted([p, e[0]] for (v, p), e in self.entries.items() if v == key[0])
            getter = obj.get_dataset_trees if self.kind == "tvl" else obj.get_versioned_elements
            if not expected:
                # reported as missing or as empty
                try:
                    found = list(getter(key[0]))
                except LookupError:
                    return
                check(not found, f"elements of missing version {key[0]!r}: {found}")
                return
            found = sorted([str(p), ts] for ts, p, _ in getter(key[0]))
            same(found, expected, f"elements of version {key[0]!r}")
        elif name == "modify":
            key = self.key(op[1])
            if key is None:
                return
            _, _, element = obj.get_versioned_element(key[0], m.MP(key[1]))
            value = self.entries[key][1]
            if self.kind == "tvl":
                if not value:
                    return
                path = sorted(value)[0]
                element, value = element.get_metadata_root_record(m.MP(path)), value[path]
            if value["dm"] is None:
                element.set_dataset_level_metadata(m.Metadata())
                value["dm"] = {}
            m.add_run(element.get_dataset_level_metadata(), op[2])
            m.model_add_run(value["dm"], op[2])
            stats["replaced"] += 1
        elif name == "unget":
            key = self.key(op[1])
            if key is None:
                return
            if self.kind == "tvl":
                obj.unget_dataset_tree(key[0], spell(key[1], op[2]), self.realm)
            else:
                obj.unget_versioned_element(key[0], spell(key[1], op[2]), self.realm)
            stats["dropped"] += 1
        elif name == "purge element":
            key = self.key(op[1])
            if key is None:
                return
            _, _, element = obj.get_versioned_element(key[0], m.MP(key[1]))
            purge(element, stats)
        elif name == "set again":
            # the same element with another time stamp
            key = self.key(op[1])
            if key is None:
                return
            _, _, element = obj.get_versioned_element(key[0], m.MP(key[1]))
            setter = obj.set_dataset_tree if self.kind == "tvl" and op[3] % 2 else obj.set_versioned_element
            setter(key[0], op[2], spell(key[1], op[3]), element)
            self.entries[key][0] = op[2]
            stats["replaced"] += 1
        elif name == "list":
            self.compare("list")
        elif name == "write":
            obj.write_out(self.realm)
        elif name == "purge":
            purge(obj, stats)
        elif name == "settle":
            obj.write_out(self.realm)
            obj.purge()
            stats["dropped"] += 1
        else:
            return False
        return True

    def compare(self, what):
        compare_list(self.kind, self.get(), self.entries, what, self)


def purge(obj, stats):
    try:
        obj.purge()
        stats["dropped"] += 1
    except ValueError:
        stats["drop refused"] += 1


def compare_list(kind, obj, entries, what, model):
    check(len(obj) == len(entries), f"{what}: length {len(obj)} with {len(entries)} entries")
    same(sorted(set(obj.versions())), sorted({v for v, _ in entries}), f"{what}: versions")
    same(sorted([v, str(p)] for v, p in obj.versions_and_prefix_paths()), sorted([v, p] for v, p in entries), f"{what}: versions and prefix paths")
    listed = sorted(([v, str(p), ts, model.dump(e)] for v, (ts, p, e) in obj.versioned_elements), key=lambda e: (e[0], e[1]))
    same(listed, sorted(([v, p, ts, model.norm(e)] for (v, p), (ts, e) in entries.items()), key=lambda e: (e[0], e[1])), f"{what}: elements")
    for v, p in list(entries)[:3]:
        ts, prefix, element = obj.get_versioned_element(v, m.MP(p))
        check(ts == entries[(v, p)][0] and str(prefix) == p, f"{what}: entry {(v, p)}: time stamp {ts!r}, prefix {prefix}")
        same(model.dump(element), model.norm(entries[(v, p)][1]), f"{what}: entry {(v, p)}")
    raises(lambda: obj.get_versioned_element("no such version", m.MP("")), f"{what}: missing version")
    for v, _ in list(entries)[:1]:
        raises(lambda: obj.get_versioned_element(v, m.MP("no/such/prefix")), f"{what}: missing prefix path")


def initial_vl(kind, case_start, init, realm):
    build = m.build_version_list if kind == "vl" else m.build_tree_version_list
    if case_start == "constructor":
        from dataladmetadatamodel.versionlist import VersionRecord
        entries = {}
        for v, p, ts, e in init:
            element = m.build_record(e) if kind == "vl" else m.build_dataset_tree(e)
            entries.setdefault(v, {})[m.MP(p)] = VersionRecord(ts, m.MP(p), element)
        return m.CLASSES[kind](entries)
    if case_start == "set":
        return build(init)
    location = store.Writer(realm).version_list(init, kind == "tvl")
    return m.load(kind, realm, reference(kind, location))


def reference(kind, location):
    return {"@": store.tag("Reference"), "class_name": {"vl": "VersionList", "tvl": "TreeVersionList", "us": "UUIDSet"}[kind], "location": location}


class Runner:
    def __init__(self, kind, start, init, realm):
        self.kind, self.realm = kind, realm
        self.stats = {"replaced": 0, "dropped": 0, "drop refused": 0, "reloaded": 0}
        if kind != "us":
            self.obj = initial_vl(kind, start, init, realm)
            self.model = ListModel(kind, realm, lambda: self.obj, edits.to_dict(copy.deepcopy(init)))
        else:
            if start == "constructor":
                self.obj = m.UUIDSet({UUID(u): initial_vl("vl", "constructor", vl, realm) for u, vl in init.items()})
            elif start == "set":
                self.obj = m.build_uuid_set(init)
            else:
                self.obj = m.load("us", realm, reference("us", store.Writer(realm).uuid_set(init)))
            self.lists = {u: edits.to_dict(copy.deepcopy(vl)) for u, vl in init.items()}
            self.fresh = set() if start == "stored" else set(self.lists)       # lists that were never written

    def uuid(self, where):
        if isinstance(where, int):
            return sorted(self.lists)[where % len(self.lists)] if self.lists else None
        return where

    def list_model(self, u):
        return ListModel("vl", self.realm, lambda: self.obj.get_version_list(UUID(u)), self.lists[u])

    def compare(self, what):
        if self.kind != "us":
            self.model.compare(what)
            return
        same(sorted(str(u) for u in self.obj.uuids()), sorted(self.lists), f"{what}: dataset ids")
        for u in sorted(self.lists):
            self.list_model(u).compare(f"{what}: {u}")
        raises(lambda: self.obj.get_version_list(UUID(int=12345)), f"{what}: missing dataset id")

    def apply(self, op):
        name = op[0]
        if self.kind == "us" and name in ("reload", "write", "settle"):
            self.fresh = set()
        if name == "reload":
            ref = self.obj.write_out(self.realm)
            self.obj = m.load(self.kind, self.realm, ref.to_json_obj())
            self.stats["reloaded"] += 1
        elif self.kind != "us":
            self.model.apply(op, self.stats)
        elif name == "in":
            u = self.uuid(op[1])
            if u is not None:
                self.list_model(u).apply(op[2], self.stats)
        elif name == "set list":
            u = self.uuid(op[1]) or str(UUID(int=1))
            self.stats["replaced"] += u in self.lists
            self.obj.set_version_list(UUID(u), m.build_version_list(op[2]))
            self.lists[u] = edits.to_dict(copy.deepcopy(op[2]))
            self.fresh.add(u)
        elif name == "set list again":
            u = self.uuid(op[1])
            if u is not None:
                self.obj.set_version_list(UUID(u), self.obj.get_version_list(UUID(u)))
        elif name == "get list":
            u = self.uuid(op[1])
            if u is None:
                return
            if u in self.lists:
                check(len(self.obj.get_version_list(UUID(u))) == len(self.lists[u]), f"length of version list {u}")
            else:
                raises(lambda: self.obj.get_version_list(UUID(u)), f"get missing version list {u}")
        elif name == "unget list":
            u = self.uuid(op[1])
            if u is None:
                return
            if u in self.fresh:
                # without destination, only lists that have a realm can be given back
                self.obj.get_version_list(UUID(u)).write_out(self.realm)
            self.obj.unget_version_list(UUID(u))
            self.stats["dropped"] += 1
        elif name == "list":
            self.compare("list")
        elif name == "write":
            self.obj.write_out(self.realm)
        elif name == "purge":
            purge(self.obj, self.stats)
        elif name == "settle":
            self.obj.write_out(self.realm)
            self.obj.purge()
            self.stats["dropped"] += 1


def run(realm, case):
    runner = Runner(case["kind"], case["start"], case["init"], realm)
    session(runner.compare, "at the start", what="at the start")
    for n, op in enumerate(case["ops"]):
        runner.apply(op)
        what = f"after operation {n} {op[0] if op[0] != 'in' else op[2][0]}"
        session(runner.compare, what, what=what)
    reference_at_end = runner.obj.write_out(realm)
    expected = edits.to_list(runner.model.entries) if case["kind"] != "us" else {u: edits.to_list(e) for u, e in runner.lists.items()}
    return {"stats": runner.stats, "location": reference_at_end.location, "expected": expected}


def run_case(case):
    with CaseDir() as d:
        realm = mkrepo(d + "/r")
        result = session(run, realm, case, what=case["kind"])
        kind, stats = case["kind"], result["stats"]
        same(m.norm(kind, store.read_kind(realm, kind, result["location"])), m.norm(kind, result["expected"]), f"stored {kind}")
    entries = len(result["expected"]) if kind != "us" else sum(len(v) for v in result["expected"].values())
    return {"nontrivial": entries >= 2 and stats["replaced"] > 0 and stats["dropped"] + stats["reloaded"] > 0,
            "tags": [kind, "start " + case["start"]] + sorted(k for k, v in stats.items() if v)}
