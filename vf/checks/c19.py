"""C19: every cached blob reaches the repository"""
import base64
import os
import tempfile

from hypothesis import strategies as st

from .. import faults, gen, store
from .. import model as m
from ..core import CaseDir, check, describe, is_resource_problem, same, session
from ..gitx import all_objects, git, mkrepo, object_id, read_object
from .c18 import settings

from dataladmetadatamodel.mapper.gitmapper.gitblobcache import GitBlobCache  # noqa: E402

PROPERTY = "C19"
LEVEL = "exploration"
NOTE = ("Stateful generation of additions and flushes (also with failing git commands) of one or two caches with generated sizes against a list "
        "model; ids against an independent computation and against git. Sampled; large file trees exceed the size of the cache in explicit cases.")
QUICK, THOROUGH = 1600, 60000
RULE = ("Hypothesis generates cache sizes, blobs (text and bytes, repeated ones, empty ones, line endings, non-UTF-8 bytes), sequences of additions "
        "and flushes, failing git commands, odd locations of repository and temporary directory, and line ending settings of the repository. After "
        "every flush the repository is compared with the model. Explicit cases write file trees with more entries than the cache. Non-trivial: "
        "more blobs than the cache size, or a flush after a failure, or at least 3 flushed blobs.")
ASSUMPTIONS = ["texts are encodable as UTF-8"]

LOCATIONS = ["plain", "plain", "plain", "a b", "a'b", 'a"b', '"a"', "ä", "$x", "-x", "a\\b", "a\tb", " a ", "#a", "~"]


def strategy(tier):
    text = gen.weighted(st.text(st.characters(blacklist_categories=("Cs",)), max_size=20),
                        st.sampled_from(["", "\n", "a\r\nb", "a\rb", "ä", "日本\u2028", "\0", "{}", "null", "blob 3\0abc", "\ufeff", "x" * 3000]))
    raw = gen.weighted(st.binary(max_size=20), st.sampled_from([b"", b"\r\n", b"\xff", b"\0", b"\xef\xbb\xbf", b"$Id$\n"]))
    blob = gen.weighted(text.map(lambda t: ["s", t]), raw.map(lambda b: ["b", base64.b64encode(b).decode()]), st.sampled_from([["s", "same"], ["s", ""]]))
    which = gen.weighted(st.just(0), st.just(0), st.just(1))
    add = st.tuples(st.just("add"), which, gen.weighted(st.lists(blob, min_size=1, max_size=3), st.lists(blob, min_size=1, max_size=12)),
                    gen.weighted(st.none(), st.none(), st.sampled_from(["fail", "late", "signal", "torn"]))).map(list)
    flush = st.tuples(st.just("flush"), which, gen.weighted(st.none(), st.none(), st.sampled_from(["fail", "late", "signal", "torn"]))).map(list)
    size = gen.weighted(st.integers(1, 4), st.sampled_from([0, 1, 2, 3, 5, 8, 13, 2000, None]))
    return st.fixed_dictionaries({
        "sizes": st.tuples(size, size).map(list), "ops": gen.sized_list(gen.weighted(add, add, flush), 3, 8 if tier == "quick" else 25),
        "location": gen.weighted(st.just("plain"), st.sampled_from(LOCATIONS)), "tmp": gen.weighted(st.just("plain"), st.sampled_from(LOCATIONS)),
        "settings": st.booleans(), "verify": gen.weighted(st.just(False), st.just(False), st.just(False), st.just(True))})


def explicit(tier):
    sizes = [(1003, 0)] if tier == "quick" else [(999, 0), (1000, 0), (1001, 0), (2003, 7), (3001, 50)]
    return [{"files": n, "pad": pad} for n, pad in sizes]


def content_of(blob):
    return blob[1] if blob[0] == "s" else base64.b64decode(blob[1])


def as_bytes(content):
    return content.encode() if isinstance(content, str) else content


def run_ops(d, case):
    tempfile.tempdir = d + "/" + case["tmp"]
    os.environ["TMPDIR"] = tempfile.tempdir
    realms, caches, pending, stored = [], [], [[], []], [dict(), dict()]
    stats = {"flushed": 0, "overflow": 0, "failed": 0}
    for n, size in enumerate(case["sizes"]):
        realm = f"{d}/repos/{case['location']}{n}"
        realms.append(realm)
        caches.append(GitBlobCache(realm) if size is None else GitBlobCache(realm, size))

    def verify(n, what):
        for oid, content in stored[n].items():
            obj = read_object(realms[n], oid)
            check(obj is not None, f"{what}: blob {content[:60]!r} ({oid}) is not in the repository")
            check(obj == ("blob", content), f"{what}: {oid} is {obj[0]} {obj[1][:60]!r}, expected {content[:60]!r}")

    def flush(n, fault=None):
        plan = faults.install({0: fault} if fault else None)
        error = None
        try:
            caches[n].flush()
        except Exception as e:
            if is_resource_problem(e):
                raise
            error = describe(e)
        finally:
            faults.install(None)
        if error is not None:
            check(plan.hit, f"flush failed without a failing git command: {error}")
            stats["failed"] += 1
            return flush(n)
        stats["flushed"] += len(pending[n])
        for oid, content in pending[n]:
            stored[n][oid] = content
        pending[n].clear()
        verify(n, "after flush")

    for op in case["ops"]:
        if op[0] == "add":
            n = op[1]
            for blob in op[2]:
                content = content_of(blob)
                plan = faults.install({0: op[3]} if op[3] else None)
                try:
                    oid = caches[n].cache_blob(realms[n], content)
                except Exception as e:
                    if is_resource_problem(e):
                        raise
                    check(plan.hit, f"adding a blob failed without a failing git command: {describe(e)}")
                    stats["failed"] += 1
                    faults.install(None)
                    oid = caches[n].cache_blob(realms[n], content)
                finally:
                    faults.install(None)
                data = as_bytes(content)
                check(oid == object_id("blob", data), f"id {oid} was returned for {data[:60]!r}")
                pending[n].append((oid, data))
                if case["sizes"][n] is not None and len(pending[n]) > case["sizes"][n]:
                    stats["overflow"] += 1
        else:
            flush(op[1], op[2])
    for n in (0, 1):
        flush(n)
        # nothing is left
        flush(n)
        extra = all_objects(realms[n]) - set(stored[n])
        check(not extra, f"objects that were never added: {sorted(extra)[:3]}")
    if case["verify"]:
        for n in (0, 1):
            for oid, content in stored[n].items():
                check(git(realms[n], "cat-file", "blob", oid).stdout == content, f"git reads {oid} differently")
                out = git(realms[n], "hash-object", "--stdin", "--no-filters", input=content).stdout.decode().strip()
                check(out == oid, f"git computes {out} for {content[:60]!r}, the cache returned {oid}")
    return stats


def write_files(realm, files, pad):
    ft = m.build_file_tree(expected_files(files, pad))
    ft.write_out(realm)
    return ft.reference.to_json_obj()


def expected_files(files, pad):
    return {f"d{n % 7}/f{n}": {"core": [["1", {}, 1.0, "n", "e", {"c": n, "p": "x" * pad}]]} for n in range(files)}


def run_case(case):
    with CaseDir() as d:
        if "files" in case:
            realm = mkrepo(d + "/r")
            reference = session(write_files, realm, case["files"], case["pad"], what="write large file tree")
            same(store.read_file_tree(realm, reference["location"]), expected_files(case["files"], case["pad"]), "large file tree")
            return {"nontrivial": True, "tags": ["large file tree"]}
        os.makedirs(d + "/" + case["tmp"], exist_ok=True)
        for n in (0, 1):
            realm = mkrepo(f"{d}/repos/{case['location']}{n}")
            if case["settings"]:
                settings(realm)
        stats = session(run_ops, d, case, what="cache")
    return {"nontrivial": stats["overflow"] > 0 or stats["failed"] > 0 or stats["flushed"] >= 3, "tags": sorted(k for k, v in stats.items() if v)}
