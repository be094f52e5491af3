#!/usr/bin/env python3
"""Revert each repaired defect in a scratch copy and run the check of its property

reverted.py [-s SEED] [COMMIT | COMMIT:CHECK]...

The defects are the "fixed:" lines of known-findings.txt. A revert that
conflicts with later changes is reported and skipped.
"""
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def run(entry, seed):
    check, commit, text = entry
    work = tempfile.mkdtemp(prefix="reverted-")
    try:
        copy = os.path.join(work, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        r = sh(["git", "-C", copy, "-c", "user.name=a", "-c", "user.email=a@b", "revert", "--no-commit", commit])
        if r.returncode:
            return f"{check} {commit} CONFLICT  {text}"
        r = sh([os.path.join(VERIF, "check.py"), check, "--seed", seed], cwd=VERIF, env=dict(os.environ, VF_REPO=copy))
        caught = r.returncode == 1 and any(l.startswith("VIOLATION") for l in r.stdout.splitlines())
        return f"{check} {commit} {'CAUGHT' if caught else 'MISSED rc %d' % r.returncode}  {text}"
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = sys.argv[1:]
    seed = "1"
    if args and args[0] == "-s":
        seed, args = args[1], args[2:]
    entries = []
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
        for arg in args or ([m[2]] if m else []):
            commit, _, check = arg.partition(":")
            if m and commit == m[2]:
                entries.append((check or m[1], m[2], m[3][:100]))
    with concurrent.futures.ThreadPoolExecutor(2) as pool:
        for result in pool.map(lambda e: run(e, seed), entries):
            print(result, flush=True)


main()
