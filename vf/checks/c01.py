"""C01: what is stored is what is read back"""
from hypothesis import strategies as st

from .. import gen
from ..core import CaseDir, canon, same, session
from ..gitx import mkrepo
from .. import model as m
from .. import store

PROPERTY = "C01"
LEVEL = "exploration"
NOTE = "Round trip between processes for generated structures of every class; sampled, no exhaustive guarantee. Trusts git and the harness model."
QUICK, THOROUGH = 1600, 40000
RULE = ("Hypothesis generates a structure of one of the 9 classes (names from plain, special and arbitrary unicode sets, "
        "arbitrary JSON contents, absent parts, empty parts), one process writes it, another one loads it by the serialized "
        "reference or through the top-level references; the content has to be equal to the generated structure. Non-trivial: "
        "at least one metadata object with a run inside a container, or a name or text with special characters.")
ASSUMPTIONS = ["names are those git can store in a tree (no slash, NUL, '.', '..', '.git'), valid UTF-8",
               "contents are JSON values without NaN and infinities",
               "parameters avoid booleans and floats, which Python cannot tell from integers in comparisons"]


def strategy(tier):
    rec = gen.optional_identity(gen.record())
    big = tier == "thorough"
    return gen.weighted(
        st.tuples(st.just("md"), gen.metadata(max_runs=6)),
        st.tuples(st.just("text"), st.one_of(st.text(), st.text("a\r\n\t \x0b\x85\u2028\x00", max_size=12))),
        st.tuples(st.just("ft"), gen.file_tree(max_files=12 if big else 8)),
        st.tuples(st.just("mrr"), rec),
        st.tuples(st.just("dt"), gen.dataset_tree(rec, max_datasets=4)),
        st.tuples(st.just("vl"), gen.version_list(rec)),
        st.tuples(st.just("tvl"), gen.version_list(gen.dataset_tree(rec))),
        st.tuples(st.just("us"), gen.uuid_set(rec)),
        st.tuples(st.just("store"), st.fixed_dictionaries({
            "tvl": gen.version_list(gen.dataset_tree(gen.small_record())), "uuid": gen.uuid_set(gen.small_record())})),
    ).map(list)


def explicit(tier):
    """File trees around the size of the write cache (two blobs per file), long lists, large contents"""
    sizes = [999, 1000, 1001] if tier == "quick" else [1, 999, 1000, 1001, 1999, 2000, 2001, 2500]
    return [["bigft", n, shared] for n in sizes for shared in ((False,) if tier == "quick" else (False, True))] + \
        [["deep", n] for n in ([40] if tier == "quick" else [40, 150])] + \
        [["many", n, kind] for n in ([12] if tier == "quick" else [9, 10, 11, 12, 40, 101]) for kind in ("md", "vl", "tvl", "us", "dt", "ft", "text", "content")]


def many(n, kind):
    """-> (kind, structure with many entries)"""
    def md(i):
        return {"core": [["1", {}, 1.0, "n", "e", {"c": i}]]}

    def record(i):
        return {"id": f"00000000-0000-0000-0000-{i:012d}", "ver": str(i), "dm": md(i), "ft": {"f": md(i)}}
    if kind == "md":
        return kind, {f"ex{i}" if i else "core": [["1", {"p": j}, float(j), "n", "e", {"c": j}] for j in range(1 if i else n)] for i in range(n)}
    if kind in ("vl", "tvl"):
        return kind, [[f"v{i % 5}", f"p{i // 5}" if i >= 5 else "", str(i), record(i) if kind == "vl" else {"": record(i)}] for i in range(n)]
    if kind == "us":
        return kind, {f"00000000-0000-0000-0000-{i:012d}": [["v", "", str(i), record(i)]] for i in range(n)}
    if kind == "dt":
        return kind, {f"d{i}" if i % 2 else f"d{i - 1}/e{i}" if i else "": record(i) for i in range(n)}
    if kind == "ft":
        return kind, {f"f{i}" if i % 2 else f"d{i}/f": md(i) for i in range(n)}
    if kind == "text":
        return kind, "ä\n" * 10000 * n
    return "md", {"core": [["1", {}, 1.0, "n", "e", {"c": ["x" * 1000] * 30 * n}]]}


def write(kind, realm, obj):
    if kind == "store":
        m.write_store(realm, obj)
        return None
    return m.BUILD[kind](obj).write_out(realm).to_json_obj()


def read(kind, realm, ref):
    if kind == "store":
        return m.norm("store", m.dump_store(realm))
    return m.norm(kind, m.DUMP[kind](m.load(kind, realm, ref).read_in()))


def read_text(realm, ref):
    return m.dump_text(m.load("text", realm, ref))


def big_tree(n, shared):
    return {f"d{i % 7}/e{i % 3}/f{i}": {"core": [["1", {}, 1.0, "n", "e", {"c": 0 if shared else i}]]} for i in range(n)}


def write_spec(realm, kind, *args):
    return m.build_file_tree(big_tree(*args)).write_out(realm).to_json_obj()


def run_case(case):
    kind, obj = case[0], case[1]
    with CaseDir() as d:
        realm = mkrepo(d + "/r")
        if kind == "bigft":
            ref = session(write_spec, realm, *case)
            same(store.read_file_tree(realm, ref["location"]), big_tree(*case[1:]), "large file tree in the repository")
            return {"nontrivial": True, "tags": ["large file tree"]}
        if kind == "deep":
            path = "/".join(f"d{i}" for i in range(obj))
            kind, obj = "ft", {path: {"core": [["1", {}, 1.0, "n", "e", 1]]}, "x": {}}
        if kind == "many":
            kind, obj = many(*case[1:])
        ref = session(write, kind, realm, obj, what=f"write {kind}")
        expected = m.norm(kind, obj)
        if ref is not None and ref["location"] == store.NONE:
            same(expected or None, None, f"None reference returned for {kind}")
        elif kind == "text":
            same(session(read_text, realm, ref, what="read text"), expected, "text read back")
        else:
            same(session(read, kind, realm, ref, what=f"read {kind}"), expected, f"{kind} read back")
        if kind in ("tvl", "us"):
            # The same through the top-level references
            same(session(read, kind, realm, m.top_reference(kind), what=f"read top-level {kind}"), expected,
                 f"{kind} read back through top-level reference")
        text = canon(obj)
        special = gen.is_special(text.replace('"', "").replace("{", "").replace("}", "").replace(" ", "").replace(",", "")
                                 .replace(":", "").replace("[", "").replace("]", ""))
        return {"nontrivial": ("core" in text or '"c"' in text or special) and len(text) > 20,
                "tags": [kind] + (["special characters"] if special else []) + (["empty"] if len(text) < 5 else [])}
