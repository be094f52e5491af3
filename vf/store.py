"""Independent implementation of storage format 2.0

`read_*` parse git objects strictly and return the canonical form, `write_*`
create git objects from the canonical form. No code of the project is used.

Canonical forms
  metadata      {extractor: [[version, parameter, time_stamp, author, email, content], ...]}
  file tree     {path: metadata}, an empty one is None
  record        {"id":, "ver":, "dm": metadata or None, "ft": file tree or None}
  dataset tree  {path: record}, an empty one is {}
  version list  [[version, prefix, time_stamp, element], ...]  (in order)
  uuid set      {id: version list of records}
  store         {"tvl": version list of dataset trees or None, "uuid": uuid set or None}
"""
import json

from .core import Violation
from .gitx import (TVL_REF, UUID_REF, git, read_object, read_ref, read_tree, tree_entries,
                   write_object, write_ref, write_tree)

VERSION = "2.0"
NONE = "*None*"
ROOT_RECORD = ".datalad_metadata_root_record"


# Accept what older versions of the format contain: additional attributes and
# other class names of references
LENIENT = False


class Missing(Violation):
    pass


def expect(cond, what):
    if not cond:
        raise Violation("format: " + what)


def load_json(repo, oid, what):
    obj = read_object(repo, oid)
    if obj is None:
        raise Missing(f"{what}: object {oid} is not in the repository")
    kind, data = obj
    expect(kind == "blob", f"{what}: {oid} is a {kind}, not a blob")
    try:
        return json.loads(data.decode())
    except ValueError:
        raise Violation(f"format: {what}: {oid} is not JSON")


def check_tag(obj, type_name, what, keys=None):
    expect(isinstance(obj, dict), f"{what}: not a JSON object")
    expect(obj.get("@") == {"type": type_name, "version": VERSION}, f"{what}: tag {obj.get('@')}")
    if keys is not None:
        expect(set(obj) == {"@", *keys}, f"{what}: keys {sorted(obj)}")


def read_reference(obj, class_names, what):
    check_tag(obj, "Reference", what, None if LENIENT else ("class_name", "location"))
    if LENIENT and "MTreeNode" in class_names:
        class_names = (*class_names, "FileTree", "DatasetTree")
    expect(obj["class_name"] in class_names, f"{what}: reference to {obj['class_name']}")
    loc = obj["location"]
    expect(isinstance(loc, str), f"{what}: location {loc}")
    if loc != NONE:
        expect(len(loc) == 40 and all(c in "0123456789abcdef" for c in loc), f"{what}: location {loc}")
    return None if loc == NONE else loc


def parse_metadata(obj):
    check_tag(obj, "Metadata", "metadata", ("instance_sets",))
    result = {}
    for ext, iset in obj["instance_sets"].items():
        check_tag(iset, "MetadataInstanceSet", "instance set", ("parameter_set", "instance_set"))
        entries = []
        confs = iset["parameter_set"]
        expect(sorted(iset["instance_set"], key=int) == [str(i) for i in range(len(confs))],
               f"instance set keys {list(iset['instance_set'])}")
        for i, conf in enumerate(confs):
            check_tag(conf, "ExtractorConfiguration", "configuration", ("version", "parameter"))
            inst = iset["instance_set"][str(i)]
            check_tag(inst, "MetadataInstance", "instance",
                      ("time_stamp", "author", "author_email", "configuration", "metadata_content"))
            check_tag(inst["configuration"], "ExtractorConfiguration", "configuration", ("version", "parameter"))
            expect(inst["configuration"] == conf, f"configuration {inst['configuration']} of instance differs from {conf}")
            entries.append([conf["version"], conf["parameter"], inst["time_stamp"], inst["author"],
                            inst["author_email"], inst["metadata_content"]])
        result[ext] = entries
    return result


def read_metadata(repo, oid):
    """oid: the reference blob"""
    ref = load_json(repo, oid, "metadata reference")
    loc = read_reference(ref, ("Metadata",), "metadata reference")
    return parse_metadata(load_json(repo, loc, "metadata"))


def read_nodes(repo, oid, leaf, prefix=""):
    entries = read_tree(repo, oid)
    if entries is None:
        if read_object(repo, oid) is None:
            raise Missing(f"tree {oid} is not in the repository")
        raise Violation(f"format: {oid} is not a tree")
    result = {}
    expect(entries, f"empty tree {oid} at {prefix!r}")
    for mode, name, sub in entries:
        try:
            path = prefix + name.decode()
        except UnicodeDecodeError:
            raise Violation(f"format: undecodable name {name!r}")
        if mode == "40000":
            result.update(read_nodes(repo, sub, leaf, path + "/"))
        else:
            expect(mode == "100644", f"mode {mode} of {path!r}")
            result[path] = leaf(repo, sub)
    return result


def read_file_tree(repo, oid):
    return read_nodes(repo, oid, read_metadata)


def read_record(repo, oid):
    obj = load_json(repo, oid, "record")
    expect(set(obj) == {"dataset_identifier", "dataset_version", "dataset_level_metadata", "file_tree"},
           f"record keys {sorted(obj)}")
    dm = read_reference(obj["dataset_level_metadata"], ("Metadata",), "dataset level metadata")
    ft = read_reference(obj["file_tree"], ("MTreeNode", "FileTree"), "file tree")
    return {"id": obj["dataset_identifier"], "ver": obj["dataset_version"],
            "dm": None if dm is None else read_metadata(repo, dm),
            "ft": None if ft is None else read_file_tree(repo, ft)}


def read_dataset_tree(repo, oid):
    result = {}
    for path, record in read_nodes(repo, oid, read_record).items():
        parts = path.split("/")
        expect(parts[-1] == ROOT_RECORD, f"leaf {path!r} in dataset tree")
        result["/".join(parts[:-1])] = record
    return result


def read_version_list(repo, oid, trees: bool):
    obj = load_json(repo, oid, "version list")
    expect(isinstance(obj, list), "version list is not a list")
    result = []
    for e in obj:
        expect(set(e) == {"primary_data_version", "time_stamp", "path", "dataset_tree"}, f"version record keys {sorted(e)}")
        if trees:
            loc = read_reference(e["dataset_tree"], ("MTreeNode",), "version record")
            element = {} if loc is None else read_dataset_tree(repo, loc)
        else:
            loc = read_reference(e["dataset_tree"], ("MetadataRootRecord",), "version record")
            element = read_record(repo, loc)
        result.append([e["primary_data_version"], e["path"], e["time_stamp"], element])
    return result


def read_uuid_set(repo, oid):
    entries = read_tree(repo, oid)
    if entries is None:
        raise Missing(f"uuid set {oid} is not a tree in the repository")
    result = {}
    for mode, name, sub in entries:
        expect(mode == "100644", f"mode {mode} in uuid set")
        result[name.decode()] = read_version_list(repo, sub, False)
    return result


def read_store(repo):
    tvl, uuid = read_ref(repo, TVL_REF), read_ref(repo, UUID_REF)
    return {"tvl": None if tvl is None else read_version_list(repo, tvl, True),
            "uuid": None if uuid is None else read_uuid_set(repo, uuid)}


def resolve(repo, location):
    if location.startswith("refs/"):
        oid = read_ref(repo, location)
        if oid is None:
            raise Missing(f"reference {location} is not in the repository")
        return oid
    return location


def read_kind(repo, kind, oid):
    """Read the object of the given kind that is stored under oid (or under the given git reference)"""
    oid = resolve(repo, oid)
    if kind == "text":
        obj = read_object(repo, oid)
        if obj is None:
            raise Missing(f"text {oid} is not in the repository")
        return obj[1].decode()
    return {"md": read_metadata, "ft": read_file_tree, "node": read_file_tree, "mrr": read_record, "dt": read_dataset_tree,
            "vl": lambda r, o: read_version_list(r, o, False), "tvl": lambda r, o: read_version_list(r, o, True),
            "us": read_uuid_set}[kind](repo, oid)


# ------------------------------------------------------------------ writing

def tag(type_name):
    return {"type": type_name, "version": VERSION}


class Writer:
    """Writes canonical structures; options select legal variations of the format"""
    def __init__(self, repo, old_names=False, extra_keys=False, json_style=None, none_style=0):
        self.repo = repo
        self.old_names = old_names
        self.extra_keys = extra_keys
        self.json_style = json_style or {}
        self.none_style = none_style

    def blob(self, obj):
        return write_object(self.repo, "blob", json.dumps(obj, **self.json_style).encode())

    def reference(self, class_name, location):
        result = {"@": tag("Reference"), "class_name": class_name, "location": location}
        if self.extra_keys:
            result = {"@": tag("Reference"), "mapper_family": "git", "realm": "/no/such/place",
                      "class_name": class_name, "location": location}
        return result

    def metadata_json(self, md):
        sets = {}
        for ext, entries in md.items():
            confs = [{"@": tag("ExtractorConfiguration"), "version": e[0], "parameter": e[1]} for e in entries]
            sets[ext] = {"@": tag("MetadataInstanceSet"), "parameter_set": confs,
                         "instance_set": {str(i): {
                             "@": tag("MetadataInstance"), "time_stamp": e[2], "author": e[3], "author_email": e[4],
                             "configuration": confs[i], "metadata_content": e[5]} for i, e in enumerate(entries)}}
        return {"@": tag("Metadata"), "instance_sets": sets}

    def metadata(self, md):
        return self.blob(self.reference("Metadata", self.blob(self.metadata_json(md))))

    def nodes(self, flat, leaf):
        """flat: {path: value}"""
        tree = {}
        for path, value in flat.items():
            node = tree
            parts = path.split("/")
            for part in parts[:-1]:
                node = node.setdefault(part, {})
            node[parts[-1]] = ("leaf", value)

        def write(node):
            entries = []
            for name, sub in node.items():
                if isinstance(sub, tuple):
                    entries.append(("100644", name.encode(), leaf(sub[1])))
                else:
                    entries.append(("40000", name.encode(), write(sub)))
            return write_tree(self.repo, entries)
        return write(tree)

    def file_tree(self, ft):
        return self.nodes(ft, self.metadata)

    def record(self, r):
        tree_class = "FileTree" if self.old_names else "MTreeNode"
        return self.blob({
            "dataset_identifier": r["id"],
            "dataset_version": r["ver"],
            "dataset_level_metadata": self.reference("Metadata", NONE if r["dm"] is None else self.metadata(r["dm"])),
            "file_tree": self.reference("FileTree" if not r["ft"] else tree_class,
                                        self.file_tree(r["ft"]) if r["ft"] else NONE)})

    def dataset_tree(self, dt):
        return self.nodes({(p + "/" if p else "") + ROOT_RECORD: r for p, r in dt.items()}, self.record)

    def version_list(self, vl, trees):
        result = []
        for ver, prefix, ts, element in vl:
            if trees:
                name = "DatasetTree" if self.old_names and element else "MTreeNode"
                ref = self.reference(name, self.dataset_tree(element) if element else NONE)
            else:
                ref = self.reference("MetadataRootRecord", self.record(element))
            result.append({"primary_data_version": ver, "time_stamp": ts, "path": prefix, "dataset_tree": ref})
        return self.blob(result)

    def uuid_set(self, us):
        return write_tree(self.repo, [("100644", u.encode(), self.version_list(vl, False)) for u, vl in us.items()])

    def store(self, store):
        if store["tvl"] is not None:
            write_ref(self.repo, TVL_REF, self.version_list(store["tvl"], True))
        if store["uuid"] is not None:
            write_ref(self.repo, UUID_REF, self.uuid_set(store["uuid"]))


def write_reference_tree(repo, ref, entries):
    """Object reference store in the current layout. entries: {oid: mode}"""
    tree = {}
    for oid, mode in entries.items():
        tree.setdefault(oid[:3], {}).setdefault(oid[3:6], {}).setdefault(oid[6:9], {})[oid[9:]] = (mode, oid)

    def write(node):
        return write_tree(repo, [
            (v[0], k.encode(), v[1]) if isinstance(v, tuple) else ("40000", k.encode(), write(v))
            for k, v in node.items()])
    write_ref(repo, ref, write(tree))


def write_legacy_reference_tree(repo, ref, entries):
    write_ref(repo, ref, write_tree(repo, [
        (mode, b"object_reference:" + oid.encode(), oid) for oid, mode in entries.items()]))
