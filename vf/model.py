"""Bridge between canonical forms (see store.py) and objects of the project

Only the public interface of the project is used. The functions of this module
are meant to run in session processes.
"""
import json
from pathlib import Path
from uuid import UUID

from . import env  # noqa: F401  (sys.path)
from .core import Violation, canon, check

from dataladmetadatamodel.common import (                       # noqa: E402
    get_metadata_root_record_from_top_nodes as find_record,
    get_top_level_metadata_objects,
    get_top_nodes_and_metadata_root_record,
)
from dataladmetadatamodel.datasettree import DatasetTree        # noqa: E402
from dataladmetadatamodel.filetree import FileTree              # noqa: E402
from dataladmetadatamodel.mapper.reference import Reference     # noqa: E402
from dataladmetadatamodel.metadata import (                     # noqa: E402
    ExtractorConfiguration, Metadata, MetadataInstance, MetadataInstanceSet)
from dataladmetadatamodel.metadatapath import MetadataPath      # noqa: E402
from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord  # noqa: E402
from dataladmetadatamodel.mtreenode import MTreeNode            # noqa: E402
from dataladmetadatamodel.text import Text                      # noqa: E402
from dataladmetadatamodel.uuidset import UUIDSet                # noqa: E402
from dataladmetadatamodel.versionlist import TreeVersionList, VersionList  # noqa: E402
from dataladmetadatamodel.mapper.gitmapper.objectreference import flush_object_references  # noqa: E402

MP = MetadataPath
CLASSES = {"md": Metadata, "ft": FileTree, "mrr": MetadataRootRecord, "dt": DatasetTree, "vl": VersionList,
           "tvl": TreeVersionList, "us": UUIDSet, "text": Text, "mtree": MTreeNode}


# ------------------------------------------------------- model of metadata

def model_add_run(md: dict, run):
    """run: [extractor, version, parameter, time_stamp, author, email, content]"""
    ext, ver, par = run[0], run[1], run[2]
    entries = md.setdefault(ext, [])
    entry = [ver, par, *run[3:]]
    for i, e in enumerate(entries):
        if e[0] == ver and canon(e[1]) == canon(par):
            entries[i] = entry
            return
    entries.append(entry)


def model_metadata(runs):
    md = {}
    for run in runs:
        model_add_run(md, run)
    return md


def norm_record(r):
    return {"id": r["id"], "ver": r["ver"], "dm": r["dm"], "ft": r["ft"] or None}


# ------------------------------------------------------- building objects

def add_run(md: Metadata, run):
    ext, ver, par, ts, an, ae, content = run
    md.add_extractor_run(ts, ext, an, ae, ExtractorConfiguration(ver, json.loads(json.dumps(par))),
                         json.loads(json.dumps(content)))


def build_metadata(md) -> Metadata:
    result = Metadata()
    for ext, entries in md.items():
        for e in entries:
            add_run(result, [ext, *e])
    return result


def build_file_tree(ft) -> FileTree:
    result = FileTree()
    for path, md in ft.items():
        result.add_metadata(MP(path), build_metadata(md))
    return result


def build_record(r) -> MetadataRootRecord:
    return MetadataRootRecord(
        None if r["id"] is None else UUID(r["id"]), r["ver"],
        None if r["dm"] is None else build_metadata(r["dm"]),
        None if r["ft"] is None else build_file_tree(r["ft"]))


def build_dataset_tree(dt) -> DatasetTree:
    result = DatasetTree()
    for path, r in dt.items():
        result.add_dataset(MP(path), build_record(r))
    return result


def build_version_list(vl) -> VersionList:
    result = VersionList()
    for ver, prefix, ts, r in vl:
        result.set_versioned_element(ver, ts, MP(prefix), build_record(r))
    return result


def build_tree_version_list(vl) -> TreeVersionList:
    result = TreeVersionList()
    for ver, prefix, ts, dt in vl:
        result.set_dataset_tree(ver, ts, MP(prefix), build_dataset_tree(dt))
    return result


def build_uuid_set(us) -> UUIDSet:
    result = UUIDSet()
    for u, vl in us.items():
        result.set_version_list(UUID(u), build_version_list(vl))
    return result


BUILD = {"md": build_metadata, "ft": build_file_tree, "mrr": build_record, "dt": build_dataset_tree,
         "vl": build_version_list, "tvl": build_tree_version_list, "us": build_uuid_set, "text": Text}


# ------------------------------------------------------- reading objects

def dump_instance_set(iset):
    entries = []
    for conf in iset.configurations:
        inst = iset.get_instance_for_configuration(conf)
        check(inst.configuration == conf, f"instance for configuration {conf.version} has another configuration")
        entries.append([conf.version, dict(conf.parameter), inst.time_stamp, inst.author_name,
                        inst.author_email, inst.metadata_content])
    listed = list(iset)
    check(len(listed) == len(entries), f"{len(listed)} instances for {len(entries)} configurations")
    return entries


def dump_metadata(md: Metadata):
    check(isinstance(md, Metadata), f"expected metadata, got {type(md).__name__}")
    return {ext: dump_instance_set(iset) for ext, iset in md.extractor_runs}


def dump_file_tree(ft: FileTree):
    if ft is None:
        return None
    result = {}
    for path in [str(p) for p, _ in list(ft.get_paths_recursive())]:
        check(path not in result, f"path {path!r} listed twice")
        md = ft.get_metadata(MP(path))
        check(md is not None, f"no metadata at listed path {path!r}")
        result[path] = dump_metadata(md)
    return result or None


def dump_record(r: MetadataRootRecord):
    check(isinstance(r, MetadataRootRecord), f"expected record, got {type(r).__name__}")
    dm = r.get_dataset_level_metadata()
    ft = r.file_tree
    return {"id": None if r.dataset_identifier is None else str(r.dataset_identifier), "ver": r.dataset_version,
            "dm": None if dm is None else dump_metadata(dm),
            "ft": dump_file_tree(ft)}


def dump_dataset_tree(dt: DatasetTree):
    result = {}
    for path in [str(p) for p, _ in dt.dataset_paths]:
        check(path not in result, f"dataset path {path!r} listed twice")
        check(MP(path) in dt, f"listed dataset path {path!r} is not contained")
        record = dt.get_metadata_root_record(MP(path))
        check(record is not None, f"no record at listed dataset path {path!r}")
        result[path] = dump_record(record)
    return result


def _dump_vl(vl, dump_element):
    result = []
    keys = [(v, p) for v, p in vl.versions_and_prefix_paths()]
    check(len(keys) == len(vl), f"length {len(vl)}, but {len(keys)} entries")
    for ver, prefix in keys:
        ts, p, element = vl.get_versioned_element(ver, prefix)
        check(p == prefix, f"prefix path {p} returned for {prefix}")
        result.append([ver, str(prefix), ts, dump_element(element)])
    return result


def dump_version_list(vl: VersionList):
    return _dump_vl(vl, dump_record)


def dump_tree_version_list(tvl: TreeVersionList):
    check(isinstance(tvl, TreeVersionList), f"expected tree version list, got {type(tvl).__name__}")
    return _dump_vl(tvl, dump_dataset_tree)


def dump_uuid_set(us: UUIDSet):
    return {str(u): dump_version_list(us.get_version_list(u)) for u in list(us.uuids())}


def dump_text(t: Text):
    t.ensure_mapped()
    return t.content


DUMP = {"md": dump_metadata, "ft": dump_file_tree, "mrr": dump_record, "dt": dump_dataset_tree,
        "vl": dump_version_list, "tvl": dump_tree_version_list, "us": dump_uuid_set, "text": dump_text}


def load(kind, realm, ref_json):
    """Create an unmapped object from a realm and a serialized reference"""
    ref = Reference.from_json_obj(ref_json)
    if kind == "mrr":
        return MetadataRootRecord.get_empty_instance(realm, ref)
    if kind == "mtree":
        return MTreeNode(Text, realm, ref)
    return CLASSES[kind](realm=realm, reference=ref)


def top_reference(kind):
    return {"tvl": Reference("TreeVersionList", "refs/datalad/dataset-tree-version-list"),
            "us": Reference("UUIDSet", "refs/datalad/dataset-uuid-set")}[kind].to_json_obj()


def load_top(realm):
    return get_top_level_metadata_objects("git", realm)


def dump_store(realm):
    tvl, us = load_top(realm)
    return {"tvl": None if tvl is None else dump_tree_version_list(tvl),
            "uuid": None if us is None else dump_uuid_set(us)}


def build_store(store):
    """-> (tvl, uuid set) objects"""
    return (None if store["tvl"] is None else build_tree_version_list(store["tvl"]),
            None if store["uuid"] is None else build_uuid_set(store["uuid"]))


def write_store(realm, store, flush=True):
    tvl, us = build_store(store)
    if tvl is not None:
        tvl.write_out(realm)
    if us is not None:
        us.write_out(realm)
    if flush:
        flush_object_references(Path(realm))


# -------------------------------------------- normal form for comparisons

def norm(kind, obj):
    """
    Canonical form as it is expected after storing: empty trees vanish; the
    order of version lists is not significant
    """
    if kind in ("ft", "node"):
        return obj or None
    if kind == "mrr":
        return norm_record(obj)
    if kind == "dt":
        return {p: norm_record(r) for p, r in obj.items()}
    if kind == "vl":
        return sorted(([v, p, t, norm_record(r)] for v, p, t, r in obj), key=lambda e: (e[0], e[1]))
    if kind == "tvl":
        return sorted(([v, p, t, norm("dt", d)] for v, p, t, d in obj), key=lambda e: (e[0], e[1]))
    if kind == "us":
        return {u: norm("vl", vl) for u, vl in obj.items()}
    if kind == "store":
        return {"tvl": None if obj["tvl"] is None else norm("tvl", obj["tvl"]),
                "uuid": None if obj["uuid"] is None else norm("us", obj["uuid"])}
    return obj
