"""C05: deep copies are complete and independent"""
import copy
import os

from hypothesis import strategies as st

from .. import edits, gen, store
from .. import model as m
from ..core import CaseDir, Violation, check, same, session
from ..gitx import mkrepo, read_ref, snapshot, TVL_REF, UUID_REF
from ..multi import content_at

PROPERTY = "C05"
LEVEL = "exploration"
NOTE = ("Deep copies of objects of every kind and loading state, compared with a model through an independent reader of the destination "
        "and through the copy while the original repository is out of reach. Sampled; trusts git and the model.")
QUICK, THOROUGH = 800, 24000
RULE = ("Hypothesis generates a stored start state, a session of edits, writes and drops, an object (any level) and a path prefix; the "
        "object is deep-copied to another (empty or used) or the same repository. The copy has to have the content of the model in the "
        "destination alone, the original, its saved status and its repository have to be unchanged, and later edits of either side "
        "must not appear in the other. Non-trivial: the copied object contains metadata.")
ASSUMPTIONS = ["a destination repository is given"]

NODE_KINDS = ["record", "ft", "dt", "us", "tvl", "vl", "us", "tvl", "dt", "ft", "record", "dm", "md", "tvl", "us"]


def with_twins(case):
    """Lets the first version appear twice"""
    case = edits.copied(case)
    if case.pop("twin"):
        init = case["init"]
        for versions in [init["tvl"], *(init["uuid"] or {}).values()]:
            if versions:
                _, prefix, time_stamp, element = versions[0]
                versions.append(["4" * 40, prefix, time_stamp, edits.copied(element)])
    if case.pop("equal"):
        # siblings with equal content
        records = [r for _, _, _, dt in init_lists(case, "tvl") for r in dt.values()]
        records += [r for vl in (case["init"]["uuid"] or {}).values() for _, _, _, r in vl]
        for record in records:
            for path in sorted(record["ft"] or {})[:1]:
                directory = path.rpartition("/")[0]
                twin = (directory + "/" if directory else "") + "twin"
                if not edits.conflicts(record["ft"], twin):
                    record["ft"][twin] = edits.copied(record["ft"][path])
    return case


def init_lists(case, key):
    return case["init"][key] or []


def strategy(tier):
    op = edits.operations(weights="edit")
    # a change at one of several places with the same stored content
    one = gen.weighted(
        st.tuples(st.just("dm_run"), edits.side, edits.index, edits.index, gen.small_run),
        st.tuples(st.just("ft_run"), edits.side, edits.index, edits.index, edits.index, gen.small_run),
        st.tuples(st.just("ft_add"), edits.side, edits.index, edits.index, gen.path(gen.plain_name, 1, 2), gen.small_metadata())).map(list)
    return st.fixed_dictionaries({
        "init": edits.initial_store(richer=True),
        "twin": st.booleans(), "equal": st.booleans(),
        "last": gen.weighted(st.none(), st.none(), one),
        "ops": st.lists(op, max_size=5 if tier == "quick" else 15),
        "level": st.sampled_from(NODE_KINDS),
        "pick": st.tuples(edits.side, edits.index, edits.index, edits.index).map(list),
        "prefix": gen.weighted(st.just(""), edits.index, edits.index, st.sampled_from(["p", "p", "p/q", "q"]), gen.prefix),
        "dest": st.sampled_from([1, 1, 1, 0]),
        "used": st.one_of(st.none(), gen.file_tree(gen.small_metadata(), max_files=2)),
        "run": gen.small_run,
        "text": st.one_of(st.none(), st.none(), st.none(), st.text(max_size=10)),
    }).map(with_twins)


def change(obj, kind, run):
    """Modify something in the object; -> False if there is nothing to modify"""
    if kind == "md":
        m.add_run(obj, run)
    elif kind == "ft":
        for path in [str(p) for p, _ in obj.get_paths_recursive()]:
            m.add_run(obj.get_metadata(m.MP(path)), run)
        if m.MP("zz new/file") not in obj:          # the tree might be used at several places
            obj.add_metadata(m.MP("zz new/file"), m.Metadata())
    elif kind == "mrr":
        dm = obj.get_dataset_level_metadata()
        if dm is not None:
            m.add_run(dm, run)
        ft = obj.file_tree
        if ft is not None:
            change(ft, "ft", run)
        else:
            obj.set_file_tree(m.FileTree())
            change(obj.file_tree, "ft", run)
    elif kind == "dt":
        for path in [str(p) for p, _ in obj.dataset_paths]:
            change(obj.get_metadata_root_record(m.MP(path)), "mrr", run)
        if m.MP("zz new/dataset") not in obj:
            obj.add_dataset(m.MP("zz new/dataset"), m.MetadataRootRecord(None, "x", None, None))
    elif kind in ("vl", "tvl"):
        for version, prefix in list(obj.versions_and_prefix_paths()):
            change(obj.get_versioned_element(version, prefix)[2], "dt" if kind == "tvl" else "mrr", run)
        element = m.DatasetTree() if kind == "tvl" else m.MetadataRootRecord(None, "x", None, None)
        obj.set_versioned_element("new version", "0", m.MP("zz"), element)
    elif kind == "us":
        for u in list(obj.uuids()):
            change(obj.get_version_list(u), "vl", run)
        obj.set_version_list(m.UUID("99999999-0000-0000-0000-000000000009"), m.VersionList())
    elif kind == "text":
        obj.content = "changed " + obj.content
        obj.touch()
    else:
        raise AssertionError(kind)


def with_prefix(prefix, expected):
    return [[v, "/".join(x for x in (prefix, p) if x), t, e] for v, p, t, e in expected]


def run_copy(case, realms):
    editor = edits.Editor(realms[0], case["init"])
    for op in case["ops"] + ([case["last"]] if case["last"] else []):
        editor.apply(op)
    if case["text"] is not None:
        obj, kind, model = m.Text(case["text"]), "text", case["text"]
        if case["dest"] == 1:
            obj.write_out(realms[0])
    else:
        found = None
        for level in (case["level"], *(("us", "tvl") if case["pick"][3] % 2 else ("tvl", "us"))):
            found = found or editor.select(level, *case["pick"])
        obj, kind, model = found
    dest = realms[case["dest"]]
    same_realm = case["dest"] == 0
    expected = copy.deepcopy(m.norm(kind, model))
    kwargs = {}
    prefix = case["prefix"]
    if kind in ("vl", "tvl") and isinstance(prefix, int):
        # the beginning of a prefix path of the list
        paths = [p for p in sorted({p for _, p, _, _ in expected}) if p]
        parts = paths[prefix % len(paths)].split("/") if paths else ["own"]
        prefix = "/".join(parts[:1 + prefix % 2])
    if kind in ("vl", "tvl") and prefix:
        kwargs["path_prefix"] = m.MP(prefix)
        expected = with_prefix(prefix, expected)
        expected = m.norm(kind, expected)

    def saved():
        return [obj.is_saved_on(r) for r in realms]
    before_saved, before = saved(), snapshot(realms[0])
    copied = obj.deepcopy(new_destination=dest, **kwargs)

    # The original
    check(saved() == before_saved, f"saved status of the original changed from {before_saved} to {saved()}")
    after = snapshot(realms[0])
    if not same_realm:
        check(after == before, f"repository of the original changed: {sorted(set(after.items()) ^ set(before.items()))[:4]}")
    elif kind not in ("tvl", "us"):
        changed = [p for p in before if after.get(p) != before[p]]
        check(not changed, f"files in the repository of the original changed: {changed[:4]}")
    editor.verify("original after deep copy")

    # The copy
    check(type(copied) is type(obj), f"copy has type {type(copied).__name__}")
    reference = copied.write_out(dest)
    same(content_at(dest, kind, reference.location), expected, f"copy of {kind} in the destination")
    if kind in ("tvl", "us"):
        top = store.read_store(dest)["tvl" if kind == "tvl" else "uuid"]
        same(None if top is None else m.norm(kind, top), expected, f"top-level {kind} of the destination")

    def dump_copy():
        return m.norm(kind, m.DUMP[kind](copied))
    if not same_realm:
        os.rename(realms[0], realms[0] + ".away")
    same(session(dump_copy, what="read the copy without the original repository"), expected, f"content of the copy of {kind}")
    if not same_realm:
        os.rename(realms[0] + ".away", realms[0])

    # Independence in both directions
    def change_copy():
        if kind == "text":
            copied.read_in()
        change(copied, kind, case["run"])
        same(m.norm(kind, m.DUMP[kind](obj)), m.norm(kind, model), "original after a change of the copy")
        if not kwargs and kind != "text":
            editor.compare_memory("original after a change of the copy")

    def change_original():
        change(obj, kind, case["run"])
        same(m.norm(kind, m.DUMP[kind](copied)), expected, "copy after a change of the original")
    session(change_copy, what="change the copy")
    session(change_original, what="change the original")
    return {"content": '"c"' in str(expected).replace("'", '"') or bool(case["text"]),
            "tags": sorted({f"copy {kind}", "with prefix" if kwargs else "no prefix", "same repository" if same_realm else "other repository",
                            *(["unsaved original"] if not before_saved[0] else ["saved original"])})}


def run_case(case):
    with CaseDir() as d:
        realms = [mkrepo(d + "/r0"), mkrepo(d + "/r1")]
        store.Writer(realms[0]).store(case["init"])
        if case["used"]:
            store.Writer(realms[1]).file_tree(case["used"])
        result = session(run_copy, case, realms)
    return {"nontrivial": result["content"], "tags": result["tags"]}
