"""C23: reading never changes a repository"""
from pathlib import Path
from uuid import UUID

from hypothesis import strategies as st

from .. import edits, gen, store
from .. import model as m
from ..core import CaseDir, check, same, session
from ..gitx import LEGACY_BLOBS, all_objects, git, mkrepo, read_object, snapshot

PROPERTY = "C23"
LEVEL = "exploration"
NOTE = ("Histories of reading operations; all files of the repository are compared by content before and after every operation, and dropping has to "
        "succeed at any time. Sampled; what is read is compared with the model as well.")
QUICK, THOROUGH = 720, 20000
RULE = ("Hypothesis generates a store (loose or packed, with or without object references of the current and the old layout, or empty), and 7-12 reading "
        "operations (load, look up with and without automatic creation, enumerate, compare, drop, copy objects of every level to another repository) and a "
        "flush in one process. Non-trivial: at least 3 different kinds of operations, one of them an enumeration of everything, a copy, or a look-up.")
ASSUMPTIONS = ["objects to which automatic creation added something count as modified, dropping them may be refused",
               "flushing converts object references of the old layout, it does not count as reading"]
LEVELS = ["tvl", "us", "dt", "dt", "vl", "record", "record", "dm", "ft", "ft", "node", "md", "md"]


def strategy(tier):
    names = gen.weighted(*[gen.plain_name] * 4, gen.name)
    index = st.integers(0, 5)
    side = st.sampled_from("ttu")
    where = [side, index, index, index]
    ids = st.integers(1, 5)
    op = gen.weighted(
        st.tuples(st.just("read"), st.sampled_from(["record", "file", "paths", "tree", "versions"]), *where),
        st.tuples(st.just("find"), index, index, st.booleans()),
        st.tuples(st.just("purge"), st.sampled_from(LEVELS), *where),
        st.tuples(st.just("purge"), st.sampled_from(LEVELS), *where),
        st.tuples(st.just("copy"), st.sampled_from(LEVELS), *where),
        st.tuples(st.just("copy"), st.sampled_from(LEVELS), *where),
        st.tuples(st.just("compare"), *where),
        st.tuples(st.just("enumerate"), st.sampled_from(["ft", "dt", "vl", "tvl", "us", "md"]), *where),
        st.tuples(st.just("enumerate"), st.sampled_from(["ft", "dt", "vl", "tvl", "us", "md"]), *where),
        st.just(("everything",)), st.just(("reload",)),
        st.tuples(st.just("find"), index, index, st.booleans()),
        st.tuples(st.just("create"), ids, gen.hex_version, st.sampled_from(["", "p"]), gen.weighted(st.just(""), gen.path(names, 1, 2)), ids, gen.hex_version),
    ).map(list)
    return st.fixed_dictionaries({
        "init": edits.initial_store(names, richer=True), "by": st.sampled_from(["project", "writer", "writer"]),
        "packed": gen.weighted(st.just(False), st.just(False), st.just(True)), "legacy": gen.weighted(st.just(False), st.just(False), st.just(True)),
        "ops": gen.sized_list(op, 7, 12 if tier == "quick" else 25)})


class Reader(edits.Editor):
    def __init__(self, realm, stored, other):
        super().__init__(realm, stored)
        self.other = other

    def op_purge(self, level, side, i, j, k):
        if level in ("tvl", "us") and self.stored[{"tvl": "tvl", "us": "uuid"}[level]] is None:
            return
        found = self.select(level, side, i, j, k)
        if found is not None:
            # Not only in the trivial way that nothing is loaded
            if k % 2:
                self.dump(found[0], found[1])
            found[0].purge()
            self.count("drop")

    def dump(self, obj, kind):
        if kind == "node":
            return None
        return m.DUMP[kind](obj)

    def op_copy(self, level, side, i, j, k):
        found = self.select(level, side, i, j, k)
        if found is None:
            return
        obj, kind, value = found
        if not value and kind in ("ft", "node"):
            return
        copied = obj.deepcopy(new_destination=self.other)
        if copied.reference is not None and not copied.reference.is_none_reference():
            same(m.norm(kind, store.read_kind(self.other, kind, copied.reference.location)), m.norm(kind, value), f"copied {kind}")
        self.count("copy")

    def op_compare(self, side, i, j, k):
        found = self.select("md", side, i, j, k)
        if found is not None:
            check(found[0] == m.build_metadata(found[2]), "metadata differs from equal metadata")
            self.count("compare")

    def op_enumerate(self, level, side, i, j, k):
        found = self.select(level, side, i, j, k)
        if found is None:
            return
        obj, kind, value = found
        if kind == "ft":
            same(sorted(str(p) for p, _ in obj.get_paths_recursive(False)), sorted(value), "paths")
            list(obj.get_paths_recursive(True))
        elif kind == "dt":
            same(sorted(str(p) for p, _ in obj.dataset_paths), sorted(value), "dataset paths")
        elif kind in ("vl", "tvl"):
            same(sorted((v, str(p)) for v, p in obj.versions_and_prefix_paths()), sorted((e[0], e[1]) for e in value), "versions")
            same(sorted(obj.versions()), sorted(e[0] for e in value), "versions")
            same(sorted((v, str(p)) for v, (_, p, _) in obj.versioned_elements), sorted((e[0], e[1]) for e in value), "elements")
            for version in {e[0] for e in value}:
                same(sorted(str(p) for _, p, _ in obj.get_versioned_elements(version)), sorted(e[1] for e in value if e[0] == version), "elements")
            check(len(obj) == len(value), "length")
        elif kind == "us":
            same(sorted(str(u) for u in obj.uuids()), sorted(value), "uuids")
        else:
            same(sorted(e for e, _ in obj.extractor_runs), sorted(value), "extractors")
        self.count("enumerate")

    def op_everything(self):
        self.compare_memory("while reading")
        self.count("everything")

    def op_reload(self):
        self.tvl, self.us = m.load_top(self.realm)
        self.tvl = m.TreeVersionList() if self.tvl is None else self.tvl
        self.us = m.UUIDSet() if self.us is None else self.us

    def op_find(self, i, j, memory):
        """Look up without automatic creation"""
        found = self.model_record("t", i, j)
        if found is None:
            return
        (_, (version, prefix), path), model = found
        root = self.mt[(version, prefix)][1].get("")
        if root is None:
            return
        if memory:
            record = m.find_record(self.tvl, self.us, UUID(model["id"]), model["ver"] if path else version, m.MP(prefix), m.MP(path),
                                   UUID(root["id"]) if path else None, version if path else None, False)
        else:
            record = m.get_top_nodes_and_metadata_root_record(
                "git", self.realm, UUID(root["id"]), version, m.MP(prefix), m.MP(path),
                UUID(model["id"]) if path else None, model["ver"] if path else None, False)[2]
        if record is not None:
            same(m.dump_record(record), m.norm_record(model), "record")
            self.count("look up")
        else:
            self.count("look up nothing")

    def op_create(self, u, version, prefix, path, sub, sub_version):
        top = m.get_top_nodes_and_metadata_root_record(
            "git", self.realm, UUID(int=u), version, m.MP(prefix), m.MP(path),
            UUID(int=sub) if path else None, sub_version if path else None, True)
        check(top[2] is not None, "no record created")
        m.dump_record(top[2])
        self.count("create")


def run(realm, stored, other, ops, flush):
    before = snapshot(realm)
    reader = Reader(realm, stored, other)
    same(changes(before, snapshot(realm)), {}, "files changed by loading")
    for n, op in enumerate(ops):
        reader.apply(op)
        same(changes(before, snapshot(realm)), {}, f"files changed by {op} (operation {n})")
    for obj, there in ((reader.us, stored["uuid"]), (reader.tvl, stored["tvl"])):
        if there is not None:
            obj.purge()
    same(changes(before, snapshot(realm)), {}, "files changed by dropping")
    m.flush_object_references(Path(other))
    if flush:
        # nothing was changed, there is nothing to flush
        m.flush_object_references(Path(realm))
    same(changes(before, snapshot(realm)), {}, "files changed by flushing, although nothing was changed")
    return reader.stats


def changes(before, after):
    return {p: f"{before.get(p)} -> {after.get(p)}" for p in {*before, *after} if before.get(p) != after.get(p)}


def run_case(case):
    stored = case["init"]
    with CaseDir() as d:
        realm, other = mkrepo(d + "/r"), mkrepo(d + "/other")
        if case["by"] == "project":
            session(m.write_store, realm, stored, what="write")
        else:
            store.Writer(realm).store(stored)
        if case["legacy"]:
            store.write_legacy_reference_tree(realm, LEGACY_BLOBS, legacy(realm))
        if case["packed"]:
            git(realm, "repack", "-adkq")
            git(realm, "pack-refs", "--all")
        before = snapshot(realm)
        stats = session(run, realm, stored, other, case["ops"], not case["legacy"], what="reading")
        same(changes(before, snapshot(realm)), {}, "files changed at the end of the process")
        same(m.norm("store", store.read_store(realm)), m.norm("store", stored), "stored content")
    return {"nontrivial": len(stats) >= 3 and any(k in stats for k in ("everything", "copy", "look up", "create")),
            "tags": sorted(stats) + (["packed"] if case["packed"] else [])}


def legacy(realm):
    return {o: "100644" for o in sorted(all_objects(realm)) if read_object(realm, o)[0] == "blob"}
