#!/usr/bin/env python3
"""Author and validate planted bugs

plant.py make SPEC.py...      write seeded/<id>/ from the BUGS list of each spec file
plant.py test ID... | all     validate: patch applies, builds, stable tests pass, demo 0/nonzero
plant.py run [-s SEED] ID...  additionally run the check of the property on the patched copy (VF_REPO)
plant.py cross ID CHECK...    run other checks on the patched copy
plant.py table                write the results of "run" and "cross" to DESIGN.md

A BUGS entry: dict(id, property, edits=[(file, old, new)...], needs, breaks, demo)
`file` is relative to dataladmetadatamodel/, `old` must occur exactly once.
"""
import concurrent.futures
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDED = os.path.join(VERIF, "seeded")

DEMO_SH = """#!/bin/bash
# Run with cwd = the repository: exit 0 if the property holds, nonzero if it is violated.
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)" || exit 99
trap 'rm -rf "$scratch"' EXIT
export HOME="$scratch" XDG_CACHE_HOME="$scratch/cache" TMPDIR="$scratch" PYTHONDONTWRITEBYTECODE=1
export GIT_CONFIG_GLOBAL=/dev/null GIT_CONFIG_NOSYSTEM=1 GIT_TERMINAL_PROMPT=0
/opt/venv/bin/python "$here/demo.py" "$scratch" "$PWD"
"""

PREAMBLE = '''import json
import logging
import os
import subprocess
import sys
from pathlib import Path
from uuid import UUID

SCRATCH, REPO = Path(sys.argv[1]), sys.argv[2]
sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)

from dataladmetadatamodel.common import (
    get_top_level_metadata_objects, get_top_nodes_and_metadata_root_record)
from dataladmetadatamodel.datasettree import DatasetTree
from dataladmetadatamodel.filetree import FileTree
from dataladmetadatamodel.metadata import (
    ExtractorConfiguration, Metadata, MetadataInstance, MetadataInstanceSet)
from dataladmetadatamodel.metadatapath import MetadataPath
from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord
from dataladmetadatamodel.metadatasource import (
    ImmediateMetadataSource, LocalGitMetadataSource, MetadataSource)
from dataladmetadatamodel.mtreenode import MTreeNode
from dataladmetadatamodel.text import Text
from dataladmetadatamodel.uuidset import UUIDSet
from dataladmetadatamodel.versionlist import TreeVersionList, VersionList
from dataladmetadatamodel.mapper.reference import Reference
from dataladmetadatamodel.mapper.gitmapper.objectreference import (
    add_tree_reference, add_blob_reference, flush_object_references, GitReference)

ID = [UUID(int=i + 1) for i in range(9)]


def P(text=""):
    return MetadataPath(text)


def repo(name):
    path = SCRATCH / name
    subprocess.run(["git", "init", "-q", str(path)], check=True)
    return str(path)


def git(path, *args, check=True, input=None):
    return subprocess.run(["git", "--git-dir", str(path) + "/.git", *args],
                          check=check, input=input, stdout=subprocess.PIPE).stdout


def meta(*contents, name="ex"):
    m = Metadata()
    for i, content in enumerate(contents):
        m.add_extractor_run(1.5, name, "a", "a@b", ExtractorConfiguration(str(i), {}), content)
    return m


def contents(m):
    m.ensure_mapped()
    return {name: [i.metadata_content for i in s] for name, s in m.instance_sets.items()}


def record(dataset_id=None, version="v1", **files):
    ft = FileTree()
    for path, content in files.items():
        ft.add_metadata(P(path), meta(content))
    return MetadataRootRecord(dataset_id or ID[0], version, meta("dataset"), ft)


def need(condition, message):
    if not condition:
        print("VIOLATED:", message)
        sys.exit(1)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def make(spec):
    for bug in runpy.run_path(spec)["BUGS"]:
        target = os.path.join(SEEDED, bug["id"])
        work = tempfile.mkdtemp(prefix="plant-")
        try:
            copy = os.path.join(work, "repo")
            sh(["git", "clone", "-q", REPO, copy], check=True)
            base = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"],
                                  stdout=subprocess.PIPE, text=True).stdout.strip()
            ok = True
            for name, old, new in bug["edits"]:
                path = os.path.join(copy, "dataladmetadatamodel", name)
                text = open(path).read()
                if text.count(old) != 1:
                    print(bug["id"], "old text occurs", text.count(old), "times in", name)
                    ok = False
                    continue
                open(path, "w").write(text.replace(old, new))
            if not ok:
                continue
            patch = subprocess.run(["git", "-C", copy, "diff"], stdout=subprocess.PIPE, text=True).stdout
            # every removed line must be an original one
            for name in {e[0] for e in bug["edits"]}:
                rel = "dataladmetadatamodel/" + name
                blame = sh(["git", "-C", REPO, "blame", "-s", "-l", rel]).stdout.splitlines()
                hunk = subprocess.run(["git", "-C", copy, "diff", "-U0", rel], stdout=subprocess.PIPE, text=True).stdout
                removed = 0
                for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", hunk, re.M):
                    for n in range(int(m[1]), int(m[1]) + int(m[2] or 1)):
                        removed += 1
                        if base[:30] not in blame[n - 1][:45]:
                            print(bug["id"], "WARNING: changes a line of a fix:", blame[n - 1][40:140])
                if not removed:
                    print(bug["id"], "WARNING: changes no original line of", name)
            os.makedirs(target, exist_ok=True)
            open(os.path.join(target, "patch.diff"), "w").write(patch)
            with open(os.path.join(target, "demo.sh"), "w") as f:
                f.write(DEMO_SH)
            os.chmod(os.path.join(target, "demo.sh"), 0o755)
            with open(os.path.join(target, "demo.py"), "w") as f:
                f.write(PREAMBLE + bug["demo"].strip("\n") + "\n")
            with open(os.path.join(target, "meta.json"), "w") as f:
                json.dump({"property": bug["property"], "needs": bug["needs"],
                           "what_it_breaks": bug["breaks"]}, f, indent=1)
                f.write("\n")
        finally:
            shutil.rmtree(work)


RESULTS = os.path.join(VERIF, "tools", "results.json")
LOCK = threading.Lock()


def note(bug, check, seed, caught):
    with LOCK:
        results = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
        results.setdefault(bug, {}).setdefault(check, {})[seed] = caught
        with open(RESULTS, "w") as f:
            json.dump({b: results[b] for b in sorted(results)}, f, indent=1)
            f.write("\n")


def table():
    results = json.load(open(RESULTS))
    lines = ["| bug | property | what it breaks | caught by | missed by |", "|---|---|---|---|---|"]
    for bug in sorted(os.listdir(SEEDED)):
        meta = json.load(open(os.path.join(SEEDED, bug, "meta.json")))
        caught = [c for c, s in results.get(bug, {}).items() if any(s.values())]
        missed = [f"{c} (seed {k})" for c, s in results.get(bug, {}).items() for k, v in s.items() if not v]
        lines.append("| {} | {} | {} | {} | {} |".format(bug, meta["property"], meta["what_it_breaks"].replace("|", "/").replace("\n", " "),
                                                      ", ".join(sorted(caught)) or "-", ", ".join(sorted(missed)) or "-"))
    path = os.path.join(VERIF, "DESIGN.md")
    text = open(path).read()
    head, rest = text.split("<!-- bugs -->\n")
    tail = rest.split("<!-- end of bugs -->\n")[1]
    open(path, "w").write(head + "<!-- bugs -->\n" + "\n".join(lines) + "\n<!-- end of bugs -->\n" + tail)


def validate(bug, checks=(), seed="1", stages=("test",)):
    folder = os.path.join(SEEDED, bug)
    prop = json.load(open(os.path.join(folder, "meta.json")))["property"]
    work = tempfile.mkdtemp(prefix="plant-")
    out = []
    try:
        copy = os.path.join(work, "repo")
        shutil.copytree(REPO, copy, symlinks=True)
        # versioneer would use it as version
        sh(["git", "-C", copy, "tag", "-d", "vcheck-pass"])
        r = sh(["git", "-C", copy, "apply", os.path.join(folder, "patch.diff")])
        if r.returncode:
            return bug, prop, "PATCH FAILS " + r.stdout
        if "test" in stages:
            for name in ("build.sh", "test.sh"):
                text = open("/opt/vp/" + name).read().replace("cd /repo", "cd " + copy)
                open(os.path.join(work, name), "w").write(text)
            r = sh(["bash", os.path.join(work, "build.sh")])
            out.append("build ok" if r.returncode == 0 else "BUILD FAILS " + r.stdout[-500:])
            result = os.path.join(work, "out.json")
            r = sh(["bash", os.path.join(work, "test.sh"), result])
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["tests"]) if False else None
            tail = [l for l in r.stdout.splitlines() if "passed" in l or "failed" in l or "FAILED" in l]
            out.append("tests: " + " | ".join(tail)[-300:])
            d = sh(["bash", os.path.join(folder, "demo.sh")], cwd=REPO)
            out.append("demo clean: %d%s" % (d.returncode, "" if d.returncode == 0 else " !!! " + d.stdout[-800:]))
            d = sh(["bash", os.path.join(folder, "demo.sh")], cwd=copy)
            out.append("demo patched: %d%s" % (d.returncode, " !!!" if d.returncode == 0 else " " + d.stdout.strip()[-160:]))
        for check in checks or ([prop] if "run" in stages else []):
            t = time.time()
            env = dict(os.environ, VF_REPO=copy, VERIF_SEED=seed)
            r = sh([os.path.join(VERIF, "check.py"), check, "--seed", seed], env=env, cwd=VERIF)
            lines = [l for l in r.stdout.splitlines() if l.strip()]
            v = [l for l in lines if l.startswith("VIOLATION")]
            note(bug, check, seed, r.returncode == 1 and bool(v))
            out.append("%s: rc %d %.0fs %s" % (check, r.returncode, time.time() - t,
                                               "CAUGHT" if r.returncode == 1 and v else "MISSED !!!"))
            out.append("   " + " / ".join(lines[-6:])[:700])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return bug, prop, "\n   ".join(out)


def main():
    cmd, *args = sys.argv[1:]
    if cmd == "make":
        for spec in args:
            make(spec)
        return
    if cmd == "table":
        table()
        return
    seed = "1"
    if args and args[0] == "-s":
        seed = args[1]
        args = args[2:]
    if cmd == "cross":
        print(*validate(args[0], args[1:], seed, ()))
        return
    ids = sorted(os.listdir(SEEDED)) if args == ["all"] else args
    workers = 8 if cmd == "test" else 2
    stages = ("test",) if cmd == "test" else ("run",)
    with concurrent.futures.ThreadPoolExecutor(workers) as pool:
        for r in pool.map(lambda b: validate(b, (), seed, stages), ids):
            print(*r, flush=True)


main()
