"""C15: unsupported serialized data is rejected"""
import json
from pathlib import Path

from hypothesis import strategies as st

from .. import gen, store
from .. import model as m
from ..core import CaseDir, canon, check, describe, is_resource_problem, same, session
from ..gitx import all_objects, mkrepo, read_object

from dataladmetadatamodel.metadata import ExtractorConfiguration, Metadata, MetadataInstance, MetadataInstanceSet  # noqa: E402
from dataladmetadatamodel.metadatasource import (  # noqa: E402
    ImmediateMetadataSource, LocalGitMetadataSource, MetadataSource)

PROPERTY = "C15"
LEVEL = "exploration"
NOTE = ("Every version and type tag (at every nesting level) of generated serialized objects is mutated, one at a time, and has to be rejected by the "
        "respective loader; in stores, a sampled set of tags of every kind of stored object is mutated. Objects and mutations are sampled; "
        "trusts the independent writer to place the tags where format 2.0 has them.")
QUICK, THOROUGH = 2000, 60000
RULE = ("Hypothesis generates metadata, references, sources (serialized by the project) and stored structures of all kinds (serialized by an "
        "independent writer), and wrong values for version and type tags (other versions, other types, absent tags, other JSON types). For serialized "
        "objects all tags are mutated one after the other, for stores up to 3 tags. Loading has to fail, twice; the unmutated form has to load. "
        "All tags that the project itself writes are checked. Non-trivial: at least 3 tags are mutated, or a tag of a stored structure.")
ASSUMPTIONS = ["Python assertions are enabled", "tags inside metadata contents and parameters are data, not tags"]

KINDS = ["md", "ft", "mrr", "dt", "vl", "tvl", "us", "top"]
bad_version = st.sampled_from(["1.0", "1.9", "2", "2.0.0", "2.1", "3.0", "20", " 2.0", "2.0 ", "", "None", None, 2, 2.0, 3, True, [], ["2.0"], {"2.0": 1}])
TYPES = ["Reference", "ExtractorConfiguration", "MetadataInstance", "MetadataInstanceSet", "Metadata", "LocalGitMetadataSource",
         "ImmediateMetadataSource", "MetadataSource", "UUIDSet", "VersionList", "MetadataRootRecord", "FileTree", "metadata", "reference", "", None, 2, []]
bad_type = st.sampled_from(TYPES)
absent = st.just("<absent>")


def strategy(tier):
    mutation = gen.weighted(st.tuples(st.just("version"), gen.weighted(bad_version, bad_version, bad_version, absent)).map(list),
                            st.tuples(st.just("type"), gen.weighted(bad_type, bad_type, bad_type, absent)).map(list),
                            st.just(["@", "<absent>"]))
    md = gen.metadata(gen.run, 4, 1)
    rec = gen.record(gen.small_metadata(1), gen.file_tree(gen.small_metadata(1), gen.plain_name, 3))
    dt = gen.dataset_tree(rec, gen.plain_name, 3, 1)
    values = {"md": md, "ft": gen.file_tree(gen.small_metadata(1), gen.plain_name, 3, 1), "mrr": rec, "dt": dt,
              "vl": gen.version_list(rec, 3, 1), "tvl": gen.version_list(dt, 2, 1), "us": gen.uuid_set(rec, 2, 1, 1),
              "top": st.fixed_dictionaries({"tvl": gen.version_list(dt, 2, 1), "uuid": gen.uuid_set(rec, 2, 1, 1)})}
    json_case = st.fixed_dictionaries({"what": st.sampled_from(["Reference", "ExtractorConfiguration", "MetadataInstance", "MetadataInstanceSet",
                                                               "Metadata", "Metadata", "LocalGitMetadataSource", "ImmediateMetadataSource"]),
                                       "md": md, "text": gen.any_text, "content": gen.content, "string": st.booleans(),
                                       "mutation": mutation})
    stored = st.sampled_from(KINDS).flatmap(lambda kind: st.fixed_dictionaries({
        "what": st.just("stored"), "kind": st.just(kind), "value": values[kind], "mutation": mutation,
        "positions": st.lists(st.integers(0, 200), min_size=1, max_size=3 if tier == "quick" else 10)}))
    return gen.weighted(json_case, json_case, json_case, json_case, stored)


# ------------------------------------------------------------------ tags

def tagged(obj, kind):
    """All tagged objects in the serialized object of the given kind, with the type they have to have"""
    result = [(obj, kind)]
    if kind == "Metadata":
        for s in obj["instance_sets"].values():
            result += tagged(s, "MetadataInstanceSet")
    elif kind == "MetadataInstanceSet":
        for c in obj["parameter_set"]:
            result += tagged(c, "ExtractorConfiguration")
        for i in obj["instance_set"].values():
            result += tagged(i, "MetadataInstance")
    elif kind == "MetadataInstance":
        result += tagged(obj["configuration"], "ExtractorConfiguration")
    return result


def stored_tags(obj):
    """All tagged objects in a parsed stored blob (recognized by its form)"""
    if isinstance(obj, list):
        return [t for e in obj for t in tagged(e["dataset_tree"], "Reference")]
    if "dataset_identifier" in obj:
        return tagged(obj["dataset_level_metadata"], "Reference") + tagged(obj["file_tree"], "Reference")
    if "class_name" in obj:
        return tagged(obj, "Reference")
    return tagged(obj, "Metadata")


def mutate(obj, mutation):
    """-> True if the tag is now unsupported"""
    key, value = mutation
    before = canon(obj["@"])
    if key == "@":
        del obj["@"]
        return True
    if value == "<absent>":
        del obj["@"][key]
    else:
        obj["@"][key] = value
    return canon(obj["@"]) != before


def check_tags(tags, what):
    for obj, kind in tags:
        check(obj.get("@") == {"type": kind, "version": "2.0"}, f"{what}: {kind} is serialized with the tag {obj.get('@')}")


# ------------------------------------------------------------ serialized objects

def build(case):
    """-> (object, class)"""
    kind = case["what"]
    md = m.build_metadata(case["md"])
    iset = list(md.extractor_runs)[0][1]
    inst = list(iset)[0]
    return {
        "Reference": lambda: m.Reference(case["text"], case["text"] + "x"),
        "ExtractorConfiguration": lambda: inst.configuration,
        "MetadataInstance": lambda: inst,
        "MetadataInstanceSet": lambda: iset,
        "Metadata": lambda: md,
        "LocalGitMetadataSource": lambda: LocalGitMetadataSource(Path("/x") / case["text"].replace("\0", ""), "0" * 40),
        "ImmediateMetadataSource": lambda: ImmediateMetadataSource(case["content"]),
    }[kind]()


def loaders(kind, string):
    """Functions that load a parsed object"""
    if kind == "Metadata":
        def fill(obj):
            # an object that is filled with serialized content
            md = Metadata()
            md.init_from_json(json.dumps(obj))
            return md
        return [lambda obj: Metadata.from_json(json.dumps(obj)), fill]
    if kind.endswith("Source"):
        cls = {"LocalGitMetadataSource": LocalGitMetadataSource, "ImmediateMetadataSource": ImmediateMetadataSource}[kind]
        return [cls.from_json_obj, lambda obj: MetadataSource.from_json_str(json.dumps(obj)) if string else MetadataSource.from_json_obj(obj)]
    cls = {"Reference": m.Reference, "ExtractorConfiguration": ExtractorConfiguration, "MetadataInstance": MetadataInstance,
           "MetadataInstanceSet": MetadataInstanceSet}[kind]
    return [lambda obj: cls.from_json_str(json.dumps(obj)) if string else cls.from_json_obj(obj)]


def run_json(case):
    kind = case["what"]
    obj = build(case)
    text = obj.to_json() if kind == "Metadata" else obj.to_json_str()
    positions = len(tagged(json.loads(text), kind))
    check_tags(tagged(json.loads(text), kind), "serialized by the project")
    if kind != "Metadata":
        check_tags(tagged(json.loads(json.dumps(obj.to_json_obj())), kind), "serialized by the project")
    for load in loaders(kind, case["string"]):
        loaded = load(json.loads(text))
        check(loaded is not None and loaded == obj, f"serialized {kind} is not accepted: {text[:300]}")
    mutated = 0
    for position in range(positions):
        for n, load in enumerate(loaders(kind, case["string"])):
            changed = json.loads(text)
            target, target_kind = tagged(changed, kind)[position]
            if not mutate(target, case["mutation"]):
                continue
            mutated += 1
            try:
                result = load(changed)
            except Exception as e:
                if is_resource_problem(e):
                    raise
                continue
            check(result is None and kind.endswith("Source"),
                  f"{kind} was loaded (loader {n}), although tag {position} (a {target_kind}) was changed to {case['mutation']}")
    return {"nontrivial": mutated >= 3 or kind.endswith("Source"), "tags": [kind, f"mutated {case['mutation'][0]}"]}


# -------------------------------------------------------------- stored objects

class Mutator(store.Writer):
    """Writes structures, with the tag at one position changed"""
    def __init__(self, repo, position=None, mutation=None):
        super().__init__(repo)
        self.position, self.mutation = position, mutation
        self.count = 0
        self.effective = False
        self.where = None

    def blob(self, obj):
        obj = json.loads(json.dumps(obj))
        for tagged_obj, kind in stored_tags(obj):
            if self.count == self.position:
                self.effective = mutate(tagged_obj, self.mutation)
                self.where = f"{kind} in {canon(obj)[:200]}"
            self.count += 1
        return super().blob(obj)


def write(writer, kind, value):
    """-> location"""
    if kind == "top":
        writer.store(value)
        return None
    return {"md": writer.metadata, "ft": writer.file_tree, "mrr": writer.record, "dt": writer.dataset_tree,
            "vl": lambda v: writer.version_list(v, False), "tvl": lambda v: writer.version_list(v, True), "us": writer.uuid_set}[kind](value)


CLASS_NAMES = {"md": "Metadata", "ft": "MTreeNode", "mrr": "MetadataRootRecord", "dt": "MTreeNode", "vl": "VersionList",
               "tvl": "TreeVersionList", "us": "UUIDSet"}


def load_twice(realm, kind, location):
    """-> content, or list of errors"""
    errors = []
    value = None
    objects = {}
    for _ in range(2):
        try:
            if kind == "top":
                if not objects:
                    objects["tvl"], objects["us"] = m.load_top(realm)
                value = {"tvl": m.dump_tree_version_list(objects["tvl"]), "uuid": m.dump_uuid_set(objects["us"])}
            else:
                if not objects:
                    objects["o"] = m.load(kind, realm, {"@": store.tag("Reference"), "class_name": CLASS_NAMES[kind], "location": location})
                value = m.DUMP[kind](objects["o"])
        except Exception as e:
            if is_resource_problem(e):
                raise
            errors.append(describe(e))
    return {"errors": errors, "value": value}


def project_output(realm, kind, value):
    """The project writes the structure, all tags have to be right"""
    if kind == "top":
        m.write_store(realm, value)
    else:
        m.BUILD[kind](value).write_out(realm)


def check_project_output(realm):
    tags = 0
    for oid in sorted(all_objects(realm)):
        obj_kind, data = read_object(realm, oid)
        if obj_kind == "blob":
            found = stored_tags(json.loads(data.decode()))
            check_tags(found, "stored by the project")
            tags += len(found)
    return tags


def run_stored(case):
    kind, value = case["kind"], case["value"]
    form = "store" if kind == "top" else kind
    with CaseDir() as d:
        good = mkrepo(d + "/good")
        writer = Mutator(good)
        location = write(writer, kind, value)
        loaded = session(load_twice, good, kind, location)
        check(not loaded["errors"], f"stored {kind} is not accepted: {loaded['errors'][:1]}")
        same(m.norm(form, loaded["value"]), m.norm(form, value), f"stored {kind}")
        own = mkrepo(d + "/own")
        session(project_output, own, kind, value)
        check_project_output(own)
        effective = 0
        for n, position in enumerate(case["positions"]):
            bad = mkrepo(f"{d}/bad{n}")
            mutator = Mutator(bad, position % writer.count, case["mutation"])
            location = write(mutator, kind, value)
            if not mutator.effective:
                continue
            effective += 1
            result = session(load_twice, bad, kind, location)
            check(len(result["errors"]) == 2,
                  f"{kind} was loaded ({len(result['errors'])} errors in two attempts), although a tag was changed to {case['mutation']} "
                  f"({mutator.where})")
    return {"nontrivial": effective > 0, "tags": ["stored " + kind, f"mutated {case['mutation'][0]}"]}


def run_case(case):
    return run_stored(case) if case["what"] == "stored" else run_json(case)
