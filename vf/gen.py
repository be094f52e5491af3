"""Hypothesis strategies for canonical structures. All cases are JSON values."""
import json

from hypothesis import strategies as st

from .model import model_metadata

FORBIDDEN = {"", ".", "..", ".git", ".datalad_metadata_root_record"}

PLAIN = ["a", "b", "c", "d", "sub", "x.txt", "data", "A"]
SPECIAL = ['a"b', '"', '"a"', "a\\b", "\\", "a\\", 'a\\"b', "a\nb", "\n", "a\\nb", "a\tb", "\t", "\r", "a\rb", " ", " a ", "a b",
           "\x01", "\x7f", "\x85", "a\u2028b", "\u2029", "\x0b", "\x0c", "\x1c", "ä", "é", "é", "日本", "😀", "-x", "--", "*None*",
           "refs", "HEAD", "0" * 40, "deadbeef" * 5, "a" * 200, "#", "%41", "$HOME", "`x`", ";", "|", "&", "*", "?", "[a]", "{a}",
           "~", "^", ":", "a:b", "'", "''", "!", "@", "@{0}", ".a", "a.", "...", "..a", "con", "é".encode("utf-8").decode("latin-1"),
           "\\303\\244", "\\\"", "\\t", "tree", "blob", "100644 blob", "\ufeff", "\u200b", "\u202e", "nul\\0", "a=b", "a,b", ".gitattributes",
           ".datalad", ".datalad_metadata_root_record2", "x.datalad_metadata_root_record", ".datalad_metadata_root_record.bak"]


def weighted(*choices):
    """Like st.one_of(), but a strategy that is given several times is chosen more often"""
    return st.integers(0, len(choices) - 1).flatmap(choices.__getitem__)


def _name_ok(s):
    return s not in FORBIDDEN and "/" not in s and "\0" not in s and s.lower() != ".git" and len(s.encode()) < 250


arbitrary_name = st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="/\0"), min_size=1, max_size=8).filter(_name_ok)
ascii_name = st.text(st.sampled_from('ab"\\\n\t\r \'.-x\x7f\x0b'), min_size=1, max_size=5).filter(_name_ok)
plain_name = st.sampled_from(PLAIN)
# Names that are related to special names of the format or to each other
related_name = st.sampled_from([".datalad_metadata_root_record2", "x.datalad_metadata_root_record", ".datalad_metadata_root_record.bak",
                                "datalad_metadata_root_record", ".datalad_metadata_root_recor", "a ", " a", "a", "A", "a.", "a-", "a0", "aa", "ab"])
name = weighted(plain_name, plain_name, plain_name, st.sampled_from(SPECIAL), ascii_name, arbitrary_name, related_name)


def repeated(values, mode):
    """Sometimes let all, or the last, of a list of values be equal to the first one"""
    if mode == 0:
        return [json.loads(json.dumps(values[0])) for _ in values]
    if mode == 1 and values:
        return values[:-1] + [json.loads(json.dumps(values[0]))]
    return values


repetition = st.integers(0, 7)


def path(names=name, min_size=1, max_size=4):
    return st.lists(names, min_size=min_size, max_size=max_size).map("/".join)


def prefix_free(paths):
    """Drop paths that conflict with an earlier path"""
    kept = []
    for p in paths:
        parts = p.split("/")
        if not any(parts[:len(q)] == q or q[:len(parts)] == parts for q in kept):
            kept.append(parts)
    return ["/".join(p) for p in kept]


def prefix_free_paths(names=name, min_size=0, max_size=5, max_depth=4):
    return st.lists(path(names, 1, max_depth), min_size=min_size, max_size=max_size).map(prefix_free)


any_text = weighted(st.sampled_from(["", "a", "b", "core", "v1", "ä\n\"\\", "\u2028", "\x00", "😀", "*None*", "@", "None", "null"]),
                     st.text(max_size=12))

json_scalar = weighted(st.none(), st.booleans(), st.integers(-5, 5), st.integers(), st.floats(allow_nan=False, allow_infinity=False),
                        any_text, st.sampled_from(["\ud800", "\udfff x", 10 ** 30, -0.0, 1e-300, 1e300, 0.1]))
json_value = st.recursive(json_scalar, lambda c: weighted(
    st.lists(c, max_size=3), st.dictionaries(any_text, c, max_size=3)), max_leaves=6)
content = weighted(st.integers(0, 9).map(lambda n: {"c": n}), json_value,
                    st.dictionaries(any_text, json_value, max_size=3),
                    st.sampled_from([{"@": {"type": "Metadata", "version": "1.0"}}, {"@": {"type": "x", "version": "2.0"}},
                                     {"instance_sets": {}}, [], {}, "", None]))
small_content = st.integers(0, 99).map(lambda n: {"c": n})

# Parameters: no booleans and floats, because 1 == True == 1.0 in Python
param_scalar = weighted(st.none(), st.integers(2, 5), any_text)
param_value = st.recursive(param_scalar, lambda c: weighted(
    st.lists(c, max_size=2), st.dictionaries(any_text, c, max_size=2)), max_leaves=3)
parameter = weighted(st.just({}), st.sampled_from([{"p": "1"}, {"p": "2"}, {"p": "1", "q": "2"}, {"q": "2", "p": "1"}]),
                      st.dictionaries(any_text, param_value, max_size=2))
time_stamp = weighted(st.sampled_from([0.0, 1.0, 1.5, 1e9, 0, 17]), st.floats(0, 2e9, allow_nan=False), st.integers(0, 2 ** 40))
extractor = weighted(st.sampled_from(["core", "ex1", "ex2"]), any_text)
conf_version = weighted(st.sampled_from(["1", "2"]), any_text)

run = st.tuples(extractor, conf_version, parameter, time_stamp, any_text, any_text, content).map(list)
small_run = st.tuples(st.sampled_from(["core", "ex1", "ex2"]), st.sampled_from(["1", "2"]),
                      st.sampled_from([{}, {"p": "1"}, {"p": "2"}]), st.sampled_from([1.0, 2.5]),
                      st.sampled_from(["n", "m"]), st.just("e@x"), small_content).map(list)


def metadata(runs=run, max_runs=3, min_runs=0):
    return st.lists(runs, min_size=min_runs, max_size=max_runs).map(model_metadata)


def small_metadata(min_runs=0):
    return metadata(small_run, 2, min_runs)


def filled(paths, value):
    """Dictionaries with the given keys; values may repeat"""
    if len(paths) < 2:
        return st.fixed_dictionaries({p: value for p in paths})
    return st.tuples(st.tuples(*[value for _ in paths]), repetition).map(
        lambda t: dict(zip(paths, repeated(list(t[0]), t[1]))))


def file_tree(md=None, names=name, max_files=4, min_files=0):
    md = metadata() if md is None else md
    return prefix_free_paths(names, min_files, max_files).flatmap(
        lambda paths: filled(paths, md))


uuid = weighted(st.integers(1, 4).map(lambda n: f"00000000-0000-0000-0000-{n:012d}"), st.uuids().map(str))
hex_version = st.sampled_from(["1" * 40, "2" * 40, "3" * 40])
version = weighted(hex_version, hex_version, any_text)
list_time_stamp = weighted(st.integers(0, 10 ** 9).map(str), st.sampled_from(["0.5", "1234567890.25", "", "now"]), any_text)


def record(md=None, ft=None, ids=uuid, versions=version):
    md = metadata() if md is None else md
    ft = file_tree(md) if ft is None else ft
    return st.fixed_dictionaries({
        "id": ids, "ver": versions,
        "dm": weighted(md, md, st.none()), "ft": weighted(ft, ft, ft, st.none())})


def optional_identity(rec):
    """Records that sometimes have no id or no version, or a version that looks like none"""
    return weighted(rec, rec, rec, rec, st.tuples(rec, st.sampled_from(["id", "ver", "both", "None", "null"])).map(
        lambda t: {**t[0], **{"id": {"id": None}, "ver": {"ver": None}, "both": {"id": None, "ver": None},
                              "None": {"ver": "None"}, "null": {"ver": "null"}}[t[1]]}))


def dataset_tree(rec=None, names=name, max_datasets=3, min_datasets=0):
    """Dataset paths may be prefixes of each other (nested datasets)"""
    rec = record() if rec is None else rec
    paths = st.lists(weighted(st.just(""), path(names, 1, 3)), min_size=min_datasets, max_size=max_datasets,
                     unique=True)
    return paths.flatmap(lambda ps: filled(ps, rec))


prefix = weighted(st.just(""), st.just(""), path(name, 1, 3))


def version_list(element, max_entries=3, min_entries=0):
    keys = st.lists(st.tuples(version, prefix), min_size=min_entries, max_size=max_entries, unique=True)
    def entries(ks):
        return st.tuples(st.tuples(*[list_time_stamp for _ in ks]), st.tuples(*[element for _ in ks]), repetition).map(
            lambda t: [[v, p, ts, e] for (v, p), ts, e in zip(ks, t[0], repeated(list(t[1]), t[2]))])
    def same_version(keys):
        return list(dict.fromkeys((keys[0][0], p) for _, p in keys)) if keys else keys
    keys = weighted(keys, keys, keys.map(same_version))
    return keys.flatmap(entries)


def uuid_set(rec=None, max_ids=3, min_ids=0, min_entries=0):
    rec = record() if rec is None else rec
    return st.lists(uuid, min_size=min_ids, max_size=max_ids, unique=True).flatmap(
        lambda us: filled(us, version_list(rec, 2, min_entries)))


def sized_list(element, low, high):
    """Mostly long lists, but shrinks to short ones"""
    return weighted(st.lists(element, min_size=1, max_size=max(1, low - 1)), *[st.lists(element, min_size=low, max_size=high)] * 3)


def small_record(names=name):
    md = small_metadata()
    return record(md, file_tree(md, names, 3))


def small_store(names=name, max_versions=2):
    rec = small_record(names)
    return st.fixed_dictionaries({
        "tvl": version_list(dataset_tree(rec, names, 3), max_versions),
        "uuid": uuid_set(rec, 2)})


# ------------------------------------------------------------- measurements

def record_size(r):
    return 1 + (r["dm"] is not None) + len(r["ft"] or {})


def store_size(store):
    n = 0
    for _, _, _, dt in store["tvl"] or []:
        n += 1 + sum(record_size(r) for r in dt.values())
    for vl in (store["uuid"] or {}).values():
        n += 1 + sum(record_size(r) for _, _, _, r in vl)
    return n


def is_special(path_or_name):
    return any(not (c.isascii() and (c.isalnum() or c in "/._-")) for c in path_or_name)
