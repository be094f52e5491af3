"""Independent access to git repositories: creation, objects, refs

Loose objects are read and written directly (zlib, sha1), everything else goes
through the git command line. Nothing of the code under test is used here.
"""
import hashlib
import os
import shutil
import subprocess
import zlib

from .core import HarnessError

TVL_REF = "refs/datalad/dataset-tree-version-list"
UUID_REF = "refs/datalad/dataset-uuid-set"
OBJ_REF = "refs/datalad/object-references-2.0"
LEGACY_TREES = "refs/datalad/object-references/trees"
LEGACY_BLOBS = "refs/datalad/object-references/blobs"


def mkrepo(path: str) -> str:
    git = os.path.join(path, ".git")
    for d in ("objects/info", "objects/pack", "refs/heads", "refs/tags", "info", "hooks"):
        os.makedirs(os.path.join(git, d))
    with open(os.path.join(git, "HEAD"), "w") as f:
        f.write("ref: refs/heads/main\n")
    with open(os.path.join(git, "config"), "w") as f:
        f.write("[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n"
                "[gc]\n\tauto = 0\n")
    return path


def git(repo, *args, input=None, check=True, env=None):
    result = subprocess.run(["git", "--git-dir", os.path.join(repo, ".git"), *args],
                            input=input, stdin=subprocess.DEVNULL if input is None else None,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                            env=None if env is None else {**os.environ, **env})
    if check and result.returncode != 0:
        raise HarnessError(f"git {args} failed in harness: {result.stderr.decode(errors='replace')[:500]}")
    return result


# ---------------------------------------------------------------- objects

def loose_path(repo, oid):
    return os.path.join(repo, ".git", "objects", oid[:2], oid[2:])


def object_id(kind: str, data: bytes) -> str:
    return hashlib.sha1(f"{kind} {len(data)}".encode() + b"\0" + data).hexdigest()


def write_object(repo, kind: str, data: bytes) -> str:
    oid = object_id(kind, data)
    path = loose_path(repo, oid)
    if not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(zlib.compress(f"{kind} {len(data)}".encode() + b"\0" + data, 1))
    return oid


def read_object(repo, oid):
    """-> (kind, data) or None if the object does not exist"""
    try:
        with open(loose_path(repo, oid), "rb") as f:
            raw = zlib.decompress(f.read())
        header, data = raw.split(b"\0", 1)
        return header.split(b" ")[0].decode(), data
    except FileNotFoundError:
        pass
    pack = os.path.join(repo, ".git", "objects", "pack")
    if not any(n.endswith(".pack") for n in os.listdir(pack)):
        return None
    t = git(repo, "cat-file", "-t", oid, check=False)
    if t.returncode != 0:
        return None
    kind = t.stdout.decode().strip()
    return kind, git(repo, "cat-file", kind, oid).stdout


def tree_entries(data: bytes):
    """-> list of (mode, name bytes, oid)"""
    result, pos = [], 0
    while pos < len(data):
        space = data.index(b" ", pos)
        zero = data.index(b"\0", space)
        result.append((data[pos:space].decode(), data[space + 1:zero], data[zero + 1:zero + 21].hex()))
        pos = zero + 21
    return result


def tree_data(entries) -> bytes:
    """entries: (mode, name bytes, oid); sorted like git sorts"""
    key = lambda e: e[1] + (b"/" if e[0] in ("40000", "040000") else b"")
    return b"".join(
        mode.lstrip("0").encode() + b" " + name + b"\0" + bytes.fromhex(oid)
        for mode, name, oid in sorted(entries, key=key))


def write_tree(repo, entries) -> str:
    return write_object(repo, "tree", tree_data(entries))


def read_tree(repo, oid):
    obj = read_object(repo, oid)
    if obj is None:
        return None
    kind, data = obj
    return tree_entries(data) if kind == "tree" else None


def all_objects(repo):
    """ids of all loose objects and of all packed objects"""
    base = os.path.join(repo, ".git", "objects")
    result = set()
    packed = False
    for d in os.listdir(base):
        if len(d) == 2:
            for n in os.listdir(os.path.join(base, d)):
                if len(n) == 38:
                    result.add(d + n)
        elif d == "pack":
            packed = any(n.endswith(".pack") for n in os.listdir(os.path.join(base, d)))
    if packed:
        out = git(repo, "cat-file", "--batch-all-objects", "--batch-check=%(objectname)").stdout.decode()
        result.update(out.split())
    return result


# ---------------------------------------------------------------- refs

def read_ref(repo, name):
    """-> object id or None"""
    path = os.path.join(repo, ".git", name)
    if os.path.isfile(path):
        with open(path) as f:
            return f.read().strip()
    packed = os.path.join(repo, ".git", "packed-refs")
    if os.path.isfile(packed):
        with open(packed) as f:
            for line in f:
                parts = line.split()
                if len(parts) == 2 and parts[1] == name:
                    return parts[0]
    return None


def write_ref(repo, name, oid):
    path = os.path.join(repo, ".git", name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(oid + "\n")


def all_refs(repo):
    result = {}
    packed = os.path.join(repo, ".git", "packed-refs")
    if os.path.isfile(packed):
        with open(packed) as f:
            for line in f:
                parts = line.split()
                if len(parts) == 2 and not line.startswith("#"):
                    result[parts[1]] = parts[0]
    base = os.path.join(repo, ".git", "refs")
    for root, _, files in os.walk(base):
        for n in files:
            p = os.path.join(root, n)
            with open(p) as f:
                result[os.path.relpath(p, os.path.join(repo, ".git"))] = f.read().strip()
    return result


def reachable(repo, roots):
    """-> (set of reachable ids incl. roots, set of missing ids)"""
    seen, missing, todo = set(), set(), list(roots)
    while todo:
        oid = todo.pop()
        if oid in seen:
            continue
        seen.add(oid)
        obj = read_object(repo, oid)
        if obj is None:
            missing.add(oid)
            continue
        kind, data = obj
        if kind == "tree":
            todo.extend(o for mode, _, o in tree_entries(data) if mode != "160000")
    return seen, missing


def object_reference_entries(repo, ref=OBJ_REF):
    """Content of an object reference store: {object id: entry mode}; checks the layout"""
    root = read_ref(repo, ref)
    if root is None:
        return {}
    result = {}

    def walk(oid, prefix, depth):
        entries = read_tree(repo, oid)
        if entries is None:
            result[f"missing store tree {oid}"] = "?"
            return
        for mode, name, sub in entries:
            full = prefix + name.decode()
            if depth < 3:
                walk(sub, full, depth + 1)
            else:
                if full != sub:
                    result[f"bad entry {full} -> {sub}"] = "?"
                result[sub] = mode
    walk(root, "", 0)
    return result


def snapshot(repo):
    """All files below the repository with their content hash"""
    result = {}
    for root, dirs, files in os.walk(repo):
        for n in files:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                result[os.path.relpath(p, repo)] = hashlib.sha1(f.read()).hexdigest()
    return result


def clone_dir(src, dst):
    shutil.copytree(src, dst)
    return dst
