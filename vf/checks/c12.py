"""C12: metadata paths are relative and normalized"""
import copy
import pickle

from hypothesis import strategies as st

from .. import gen
from ..core import check, same

from dataladmetadatamodel.metadatapath import MetadataPath  # noqa: E402

PROPERTY = "C12"
LEVEL = "exploration"
NOTE = "Generated texts against a reference implementation (splitting at slashes); the algebra of paths is checked on all pairs. Sampled."
QUICK, THOROUGH = 16000, 400000
RULE = ("Hypothesis generates 2-5 texts from slashes, dots, names and arbitrary characters (absolute, doubled and trailing slashes, NUL, line "
        "separators, surrogates, blanks, backslashes), and the expected components are computed by splitting. All pairs are joined and compared. "
        "Non-trivial: at least one text is not in normal form and two different texts give equal paths or a component is special.")
ASSUMPTIONS = []

component = gen.weighted(st.sampled_from(["", "", ".", ".", "..", "...", "a", "b", "a.b", ".a", "a."]), st.sampled_from(gen.SPECIAL),
                         st.text(max_size=4), st.sampled_from(["\0", "\ud800", "\\", "C:", "c:\\x", "~", "a\\b", "//"]))
text = gen.weighted(st.lists(component, max_size=6).map("/".join), st.lists(component, max_size=6).map("/".join),
                    st.text(st.sampled_from("/.ab \\"), max_size=8), st.text(max_size=10))


def strategy(tier):
    several = st.lists(text, min_size=2, max_size=5)
    # variations of one text
    variants = st.tuples(st.lists(st.sampled_from(["a", "b", "..", "\n"]), max_size=3),
                         st.lists(st.sampled_from(["/", "//", "./", "/.", "/./"]), min_size=5, max_size=5)).map(
        lambda t: ["/".join(t[0]), t[1][0] + t[1][1].join(t[0]), t[1][2].join(t[0]) + t[1][3], t[1][4].join(t[0])])
    return gen.weighted(several, several, st.tuples(several, variants).map(lambda t: (t[0] + t[1])[-6:]))


def components(text):
    return [c for c in text.split("/") if c not in ("", ".")]


def run_case(case):
    paths = []
    for text in case:
        expected = components(text)
        p = MetadataPath(text)
        what = f"MetadataPath({text!r})"
        check(not p.is_absolute(), f"{what} is absolute")
        same(list(p.parts), expected, f"components of {what}")
        check(str(p) == "/".join(expected), f"text of {what}: {str(p)!r}")
        check(len(p) == len(expected), f"length of {what}: {len(p)}")
        again = MetadataPath(str(p))
        check(again == p and hash(again) == hash(p) and list(again.parts) == expected, f"{what} is not equal to the path of its text form")
        check(MetadataPath(p) == p and type(MetadataPath(p)) is MetadataPath, f"MetadataPath({what}) differs")
        check(MetadataPath(*expected) == p, f"{what} is not equal to a path with the same components")
        for q in (copy.copy(p), copy.deepcopy(p), pickle.loads(pickle.dumps(p))):
            check(q == p and list(q.parts) == expected and str(q) == str(p), f"copy of {what}")
        paths.append((p, expected, text))
    check(MetadataPath() == MetadataPath("") and str(MetadataPath()) == "" and len(MetadataPath()) == 0, "empty path")
    equal_pairs = 0
    for p, cp, tp in paths:
        for q, cq, tq in paths:
            what = f"{tp!r}, {tq!r}"
            joined = p / q
            check(type(joined) is MetadataPath, f"joined path is a {type(joined).__name__}")
            same(list(joined.parts), cp + cq, f"components of the joined path of {what}")
            check(str(joined) == "/".join(cp + cq) and len(joined) == len(cp + cq), f"text of the joined path of {what}: {str(joined)!r}")
            check(joined == MetadataPath("/".join(cp + cq)), f"joined path of {what}")
            check(MetadataPath(p, q) == joined and p.joinpath(q) == joined, f"ways to join {what}")
            check((p == q) == (cp == cq), f"equality of {what}")
            check((p != q) == (cp != cq), f"inequality of {what}")
            if cp == cq:
                check(hash(p) == hash(q), f"hash of {what}")
                equal_pairs += tp != tq
            check((p < q) == (cp < cq) and (p > q) == (cp > cq) and (p <= q) == (cp <= cq) and (p >= q) == (cp >= cq), f"order of {what}")
    check(len({p for p, _, _ in paths}) == len({tuple(c) for _, c, _ in paths}), "set of paths")
    same([list(p.parts) for p in sorted(p for p, _, _ in paths)], sorted(c for _, c, _ in paths), "sorted paths")
    odd = any("/".join(c) != t for _, c, t in paths)
    return {"nontrivial": odd and (equal_pairs > 0 or any(gen.is_special(t) for t in case)),
            "tags": (["equal paths"] if equal_pairs else []) + (["not normalized"] if odd else []) +
                    (["absolute"] if any(t.startswith("/") for t in case) else [])}
