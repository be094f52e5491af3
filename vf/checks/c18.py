"""C18: metadata sources deliver exactly the referenced content"""
import base64
import json
import os
from pathlib import Path

from hypothesis import strategies as st

from .. import faults, gen
from ..core import CaseDir, canon, check, describe, is_resource_problem, session
from ..gitx import all_objects, git, loose_path, mkrepo, object_id, read_object, snapshot, write_object

from dataladmetadatamodel.metadatasource import (  # noqa: E402
    ImmediateMetadataSource, LocalGitMetadataSource, MetadataSource)

PROPERTY = "C18"
LEVEL = "exploration"
NOTE = ("Round trips and differential against git: generated blobs (arbitrary bytes and sizes) in repositories at generated locations are streamed "
        "and copied by sources and by their deserialized forms; missing, damaged and mistyped objects, missing repositories, and failing git "
        "commands. Sampled; trusts git.")
QUICK, THOROUGH = 4000, 60000
RULE = ("Hypothesis generates contents (all bytes, line endings, empty, up to 1 MB), repository locations (odd characters, relative paths, symbolic "
        "links, gitfiles, packed objects, attributes and line ending settings in the repository), a form of the object reference (also short ids, references, tags, paths in a tree), and an optional "
        "problem. Non-trivial: a git-based source with non-empty content, or an immediate source with nested content.")
ASSUMPTIONS = ["object references are object ids (or, for streaming, other names of a blob), optionally surrounded by white space",
               "the file that content is written to has a file descriptor"]

DIR_NAMES = ["repo", "a b", "a'b", 'a"b', "$HOME", "$(touch x)", "`touch x`", ";touch x", "a;b", "-x", "--git-dir", "a\nb", "ä", "日本", "a\\b", "a\tb",
             "*", "~", "a=b", "%20", "#", "&", "|", ">x", "a ", " a", "\udcff", "x" * 200, "a:b", "http:", "https:x", "c.git", "\x01"]


def strategy(tier):
    raw = gen.weighted(
        st.binary(max_size=40), st.binary(max_size=40),
        st.sampled_from([b"", b"\n", b"\r\n", b"a\r\nb\n\rc\r", b"\0", b"\xff\xfe", b"\xef\xbb\xbfx", b"$Id$", b"a\n\n\n", b" x ", b"\x1b[31m",
                         "ä\u2028".encode(), b"blob 3\0abc", b"\x80" * 5]),
        gen.json_value.map(lambda v: json.dumps(v).encode()))
    blob = st.tuples(raw, gen.weighted(st.just(1), st.just(1), st.just(1), st.sampled_from([2, 1000, 30000]))).map(
        lambda t: [base64.b64encode(t[0]).decode(), t[1]])
    place = st.fixed_dictionaries({
        "name": gen.weighted(st.just("repo"), st.sampled_from(DIR_NAMES), st.sampled_from(DIR_NAMES), gen.name),
        "form": gen.weighted(st.just("absolute"), st.sampled_from(["absolute", "relative", "plain", "symlink", "gitfile", "dot", "up"])),
        "packed": gen.weighted(st.just(False), st.just(False), st.just(False), st.just(True)), "settings": st.booleans()})
    problem = gen.weighted(*[st.none()] * 2, st.sampled_from([
        "missing object", "missing repository", "missing destination", "not a repository", "not a blob", "damaged", "source fails",
        "destination fails", "no hex"]))
    local = st.fixed_dictionaries({
        "what": st.just("git"), "blob": blob, "other": blob, "place": place, "destination": place, "nested": gen.weighted(*[st.just("no")] * 4, st.just("inside"), st.just("around")), "same": gen.weighted(st.just(False), st.just(False), st.just(False), st.just(True)),
        "named": gen.weighted(*[st.just("id")] * 3, st.sampled_from(["short", "reference", "tag", "path", "path"])),
        "pad": st.sampled_from(["", "", " ", "\n", " \n"]), "json": st.sampled_from(["no", "str", "obj", "class"]), "problem": problem, "failure": st.sampled_from(["fail", "signal", "torn"]),
        "order": st.sampled_from(["wc", "cw"])})
    immediate = st.fixed_dictionaries({"what": st.just("immediate"), "content": gen.content, "other": gen.content,
                                       "json": st.sampled_from(["no", "str", "obj", "class"])})
    return gen.weighted(local, local, local, immediate)


def decode(blob):
    return base64.b64decode(blob[0]) * blob[1]


def make_repo(base, place, enter=False):
    """-> (path for the source, path of the repository for the harness)"""
    os.makedirs(base)
    real = os.path.join(base, place["name"])
    if place["form"] == "gitfile":
        mkrepo(os.path.join(base, "store"))
        os.makedirs(real)
        with open(os.path.join(real, ".git"), "w") as f:
            f.write(f"gitdir: {base}/store/.git\n")
        return real, os.path.join(base, "store")
    if place["form"] == "up":
        # the parent directory of what the link refers to is not the directory that contains the link
        real = os.path.join(base, "other", place["name"])
        mkrepo(real)
        os.makedirs(os.path.join(base, "other", "inner"))
        os.symlink(os.path.join(base, "other", "inner"), os.path.join(base, "link"))
        return os.path.join(base, "link", "..", place["name"]), real
    mkrepo(real)
    if place["form"] == "symlink":
        os.symlink(real, os.path.join(base, "link"))
        return os.path.join(base, "link"), real
    if place["form"] == "plain" and enter:
        # the path starts with the name
        os.chdir(base)
        return place["name"], real
    if place["form"] in ("relative", "plain"):
        return os.path.relpath(real), real
    if place["form"] == "dot":
        return os.path.join(base, ".", place["name"]) + "/", real
    return real, real


def settings(repo):
    with open(os.path.join(repo, ".git", "config"), "a") as f:
        f.write('\tautocrlf = true\n[core]\n\tautocrlf = true\n\teol = crlf\n[filter "x"]\n\tclean = tr a-z A-Z\n\tsmudge = tr A-Z a-z\n[diff "x"]\n\ttextconv = wc -c\n')
    with open(os.path.join(repo, ".git", "info", "attributes"), "w") as f:
        f.write("* text eol=crlf filter=x ident diff=x\n")


def pack(repo):
    ids = "".join(f"{o}\n" for o in sorted(all_objects(repo)))
    git(repo, "pack-objects", "-q", repo + "/.git/objects/pack/pack", input=ids.encode())
    git(repo, "prune-packed", "-q")


def named(repo, oid, how):
    """Another name of the blob"""
    if how == "short":
        return git(repo, "rev-parse", "--short=7", oid).stdout.decode().strip()
    if how == "reference":
        git(repo, "update-ref", "refs/datalad/blob", oid)
        return "refs/datalad/blob"
    if how == "tag":
        return write_object(repo, "tag", f"object {oid}\ntype blob\ntag t\ntagger a <b> 1 +0000\n\ntext\n".encode())
    tree = git(repo, "mktree", input=f"100644 blob {oid}\tf.txt\n".encode()).stdout.decode().strip()
    git(repo, "update-ref", "refs/datalad/tree", tree)
    return "refs/datalad/tree:f.txt"


def reread(source, how):
    if how == "no":
        return source
    if how == "str":
        return MetadataSource.from_json_str(source.to_json_str())
    obj = json.loads(json.dumps(source.to_json_obj()))
    if how == "obj":
        return MetadataSource.from_json_obj(obj)
    return type(source).from_json_obj(obj)


def guarded(fn):
    """-> (value, error)"""
    try:
        return fn(), None
    except Exception as e:
        if is_resource_problem(e):
            raise
        return None, describe(e)


def run_git(d, case):
    os.chdir(d)
    content = decode(case["blob"])
    path, repo = make_repo(d + "/s", case["place"], True)
    oid = write_object(repo, "blob", content)
    write_object(repo, "blob", decode(case["other"]))
    problem = case["problem"]
    if problem == "missing object":
        oid = object_id("blob", content + b"missing")
    elif problem == "not a blob":
        oid = write_object(repo, "tree", b"")
    elif problem == "no hex":
        oid = "x" * 40
    if case["place"]["packed"]:
        pack(repo)
    if case["place"]["settings"]:
        settings(repo)
    if problem == "damaged":
        file = loose_path(repo, oid)
        if os.path.exists(file):
            os.chmod(file, 0o600)
            with open(file, "rb+") as f:
                f.truncate(os.path.getsize(file) // 2)
        else:
            problem = None
    if problem == "missing repository":
        path = path.rstrip("/") + "-missing"
    elif problem == "not a repository":
        path = d + "/s"
    if case["same"] and problem not in ("missing destination", "missing object", "missing repository", "not a repository"):
        destination, destination_repo = path, repo
    elif case["nested"] == "around" and problem is None:
        # the source is located in the destination repository
        destination = destination_repo = mkrepo(d + "/s")
    else:
        destination, destination_repo = make_repo((repo if case["nested"] == "inside" else d) + "/d", case["destination"])
        if case["destination"]["settings"]:
            settings(destination_repo)
    if problem == "missing destination":
        destination = destination.rstrip("/") + "-missing"

    target = oid
    if problem is None and case["named"] != "id":
        target = named(repo, oid, case["named"])
    source = LocalGitMetadataSource(Path(path), case["pad"] + target + case["pad"])
    original = source
    source = reread(source, case["json"])
    check(source is not None, f"source could not be read back from {original.to_json_str()[:300]}")
    check(source == original and original == source, f"source differs after reading back: {source.to_json_str()[:300]}")
    check(source.object_reference == target and str(source.git_repository_path) == str(Path(path)),
          f"attributes of the source: {source.git_repository_path!r} {source.object_reference!r}")
    expected = git(repo, "cat-file", "blob", oid).stdout if problem in (None, "missing destination", "source fails", "destination fails") else None
    check(expected is None or expected == content, "HARNESS: git delivers other content")

    # copying is only claimed for object ids
    for action in case["order"] if target == oid else "w":
        before = snapshot(d)
        if action == "w":
            out = d + "/out"
            with open(out, "wb") as f:
                f.write(b"before")
                f.flush()
                plan = faults.install({0: case["failure"]} if problem == "source fails" else None)
                try:
                    _, error = guarded(lambda: source.write_object_to(f))
                finally:
                    faults.install(None)
                f.write(b"after")
            with open(out, "rb") as f:
                written = f.read()
            os.unlink(out)
            if problem in (None, "missing destination", "destination fails"):
                check(error is None, f"content could not be written: {error}")
                check(written in (b"before" + content + b"after", ), f"content {content[:60]!r} ({len(content)}) was written as {written[:80]!r} ({len(written)})")
            else:
                check(error is not None, f"{problem}: no error, {written[:80]!r} was written")
                if problem != "damaged" and not (problem == "source fails" and case["failure"] == "torn"):
                    check(written == b"beforeafter", f"{problem}: {written[:80]!r} was written")
        else:
            injected = {"source fails": {0: case["failure"]}, "destination fails": {1: "fail" if case["failure"] == "fail" else "signal"}}.get(problem)
            plan = faults.install(injected)
            try:
                result, error = guarded(lambda: source.copy_object_to(Path(destination)))
            finally:
                faults.install(None)
            if injected and not plan.hit:
                # the implementation needs fewer git commands
                continue
            if problem is None:
                check(error is None, f"content could not be copied: {error}")
                check(result == oid, f"copy returned {result!r} instead of {oid}")
                copied = read_object(destination_repo, oid)
                check(copied == ("blob", content), f"copy of {content[:60]!r} ({len(content)}) is {copied and copied[1][:60]!r}")
                copy = LocalGitMetadataSource(Path(destination), result)
                with open(d + "/out", "wb+") as f:
                    copy.write_object_to(f)
                    f.seek(0)
                    check(f.read() == content, "the copy has other content")
                os.unlink(d + "/out")
                continue
            check(error is not None, f"{problem}: no error, copied as {result!r}")
        if problem == "source fails" and case["failure"] == "torn":
            continue
        after = snapshot(d)
        changed = sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))
        check(not changed, f"{problem}: {action} changed files {changed[:4]}")
    return {"nontrivial": bool(content), "tags": ["git", str(problem), "place " + case["place"]["form"], "size " + str(len(str(len(content))))]}


def run_immediate(d, case):
    content = case["content"]
    text = canon(content)
    source = ImmediateMetadataSource(json.loads(text))
    original = source
    source = reread(source, case["json"])
    check(source is not None, "immediate source could not be read back")
    check(source == original and canon(source.content) == text, f"content {text[:200]} was read back as {canon(source.content)[:200]}")
    with open(d + "/out", "w+") as f:
        f.write("x")
        source.write_object_to(f)
        f.write("y")
        f.seek(0)
        written = f.read()
    check(written[0] == "x" and written[-1] == "y", f"content was not written at its place: {written[:100]}")
    check(canon(json.loads(written[1:-1])) == text, f"content {text[:200]} was written as {written[:200]}")
    duplicate = source.deepcopy()
    check(duplicate == source and canon(duplicate.content) == text, "copy differs")
    for value, change in ((duplicate.content, True),):
        if isinstance(value, dict):
            value["added by the harness"] = 1
        elif isinstance(value, list):
            value.append("added by the harness")
    check(canon(source.content) == text, "a change of the copy appears in the original")
    if canon(case["other"]) != text and case["other"] != content:
        check(source != ImmediateMetadataSource(case["other"]), f"sources with different contents are equal: {text[:100]} {canon(case['other'])[:100]}")
    return {"nontrivial": isinstance(content, (dict, list)) and len(content) > 0, "tags": ["immediate", "json " + case["json"]]}


def run_case(case):
    with CaseDir() as d:
        return session(run_git if case["what"] == "git" else run_immediate, d, case, what=case["what"])
