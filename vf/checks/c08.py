"""C08: the tree updater overlays paths and rejects conflicts"""
import random
import subprocess
from contextlib import contextmanager
from pathlib import Path

from hypothesis import strategies as st

from .. import gen
from ..core import CaseDir, Violation, check, describe, is_resource_problem, same
from ..gitx import mkrepo, object_id, read_tree, tree_data, write_tree

from dataladmetadatamodel.mapper.gitmapper.treeupdater import DirEntry, EntryType, PathInfo, add_paths  # noqa: E402

PROPERTY = "C08"
LEVEL = "exploration"
NOTE = ("Generated trees and path sets against an overlay model whose tree hash is computed independently; several orders of the same input; "
        "contradictory input has to raise; the number of started git processes is bounded by one read and one write per affected directory. Sampled; trusts the overlay model.")
QUICK, THOROUGH = 2400, 60000
RULE = ("Hypothesis generates an existing tree (nested, with special names and with subtrees whose objects are not in the repository) and 1-3 "
        "consecutive sets of paths, made from new names and from names and paths of the existing tree, including conflicting ones. The result "
        "is read by an independent reader and compared with a nested-dictionary overlay; another order has to give the same tree. "
        "Non-trivial: at least 2 paths, a non-empty tree and an overlapping directory or a conflict.")
ASSUMPTIONS = ["trees consist of plain files and directories, the only kinds that the tree updater knows"]

NAMES = gen.weighted(st.sampled_from("abcd"), st.sampled_from("abcd"), st.sampled_from("abcd"), gen.name)
PATH = gen.path(NAMES, 1, 4)
HASH = gen.weighted(st.sampled_from(["1" * 40, "2" * 40, "a" * 40]), st.binary(min_size=20, max_size=20).map(bytes.hex))
KIND = st.sampled_from("ffd")
BAD_HASHES = ["", "1" * 39, "1" * 41, "g" * 40, "1" * 39 + " ", "*None*"]
entry = st.tuples(PATH, KIND, HASH).map(list)


def strategy(tier):
    # (path or index into the existing paths, suffix)
    near = st.tuples(st.integers(0, 20), st.integers(0, 4), gen.weighted(st.just(""), st.just(""), PATH)).map(list)
    info = st.tuples(gen.weighted(PATH, PATH, near), KIND, HASH).map(list)
    bad = st.tuples(PATH, KIND, st.sampled_from(BAD_HASHES)).map(list)
    size = 6 if tier == "quick" else 14
    clean = gen.sized_list(info, 2, size)
    infos = gen.weighted(clean, clean, clean, clean, clean,
                         st.tuples(clean, bad).map(lambda t: t[0] + [t[1]]),
                         clean.map(lambda l: l + [l[0]]))
    return st.fixed_dictionaries({
        "tree": gen.sized_list(entry, 2, 8),
        "clean": st.booleans(),
        "batches": st.lists(infos, min_size=1, max_size=3),
        "order": st.integers(0, 2 ** 32)})


# A tree is a dictionary: name -> dictionary (subtree) | ["f" or "d", hash] (leaf)

class Conflict(Exception):
    pass


def put(tree, parts, kind, oid):
    name = parts[0]
    if len(parts) == 1:
        old = tree.get(name)
        if old is not None:
            old_kind = "d" if isinstance(old, dict) else old[0]
            if old_kind != kind:
                raise Conflict("type changed")
        tree[name] = [kind, oid]
        return
    sub = tree.get(name)
    if sub is None:
        sub = tree[name] = {}
    if not isinstance(sub, dict):
        raise Conflict("path through a leaf")
    put(sub, parts[1:], kind, oid)


def overlay(tree, infos):
    leaves = set()
    for parts, kind, oid in infos:
        if len(oid) != 40 or set(oid) - set("0123456789abcdef"):
            raise Conflict("malformed object id")
        if tuple(parts) in leaves:
            raise Conflict("duplicate leaf")
        leaves.add(tuple(parts))
    for leaf in leaves:
        if any(leaf[:n] in leaves for n in range(1, len(leaf))):
            raise Conflict("leaf and directory")

    def copy(node):
        return {k: copy(v) if isinstance(v, dict) else v for k, v in node.items()}
    result = copy(tree)
    for parts, kind, oid in infos:
        put(result, parts, kind, oid)
    return result


def entries_of(tree, save):
    return [("40000" if isinstance(v, dict) or v[0] == "d" else "100644", k.encode(), save(v) if isinstance(v, dict) else v[1])
            for k, v in tree.items()]


def tree_hash(tree):
    return object_id("tree", tree_data(entries_of(tree, tree_hash)))


def save_tree(repo, tree):
    return write_tree(repo, entries_of(tree, lambda t: save_tree(repo, t)))


def read_back(repo, oid, model):
    """Nested dictionary of a stored tree; leaf directories of the model are not followed"""
    entries = read_tree(repo, oid)
    check(entries is not None, f"tree {oid} is not in the repository")
    result = {}
    for mode, name, sub in entries:
        name = name.decode()
        check(name not in result, f"name {name!r} appears twice in a tree")
        expected = model.get(name) if isinstance(model, dict) else None
        if mode == "40000" and isinstance(expected, dict):
            result[name] = read_back(repo, sub, expected)
        else:
            result[name] = [{"40000": "d", "100644": "f"}.get(mode, mode), sub]
    return result


def all_paths(tree, prefix=()):
    result = []
    for name in sorted(tree):
        result.append(prefix + (name,))
        if isinstance(tree[name], dict):
            result += all_paths(tree[name], prefix + (name,))
    return result


def root_entries(tree):
    return [DirEntry(EntryType.Directory if mode == "40000" else EntryType.File, oid, name.decode())
            for mode, name, oid in entries_of(tree, tree_hash)]


@contextmanager
def counted_processes():
    """-> list with one entry per process that is started"""
    started = []

    class Popen(original := subprocess.Popen):
        def __init__(self, *args, **kwargs):
            started.append(args[0] if args else kwargs.get("args"))
            super().__init__(*args, **kwargs)
    subprocess.Popen = Popen
    try:
        yield started
    finally:
        subprocess.Popen = original


def minimal_operations(tree, infos):
    """One read per existing directory below the root, one write per directory, on the added paths"""
    directories = {tuple(parts[:n]) for parts, _, _ in infos for n in range(len(parts))} | {()}

    def exists(parts):
        node = tree
        for p in parts:
            node = node.get(p) if isinstance(node, dict) else None
        return isinstance(node, dict)
    return sum(parts != () and exists(parts) for parts in directories) + len(directories)


TYPES = {"f": EntryType.File, "d": EntryType.Directory}


def run_case(case):
    rng = random.Random(case["order"])
    overlaps, conflicts, paths = 0, 0, 0
    with CaseDir() as d:
        repo = mkrepo(d + "/r")
        tree = {}
        for path, kind, oid in case["tree"]:
            try:
                put(tree, path.split("/"), kind, oid)
            except Conflict:
                pass
        save_tree(repo, tree)
        initial_size = len(tree)
        for infos in case["batches"]:
            resolved = []
            existing = all_paths(tree)
            for where, kind, oid in infos:
                if isinstance(where, str):
                    parts = where.split("/")
                elif existing:
                    base = existing[where[0] % len(existing)]
                    base = base[:max(1, len(base) - where[1] // 2)]
                    parts = [*base, *(where[2].split("/") if where[2] else [])]
                else:
                    parts = ["x"]
                resolved.append([parts, kind, oid])
            if case["clean"]:
                # drop what conflicts, to get a useful result
                kept = []
                for info in resolved:
                    try:
                        overlay(tree, kept + [info])
                        kept.append(info)
                    except Conflict:
                        pass
                resolved = kept or resolved
            try:
                expected = overlay(tree, resolved)
            except Conflict as e:
                expected, reason = None, str(e)
                conflicts += 1
            overlaps += any(parts[0] in tree and len(parts) > 1 for parts, _, _ in resolved)
            paths += len(resolved)
            orders = [resolved, list(reversed(resolved)), rng.sample(resolved, len(resolved))]
            for n, order in enumerate(orders):
                roots = root_entries(tree)
                if n == 2:
                    rng.shuffle(roots)
                try:
                    given = [PathInfo(list(parts), oid, TYPES[kind]) for parts, kind, oid in order]
                    with counted_processes() as started:
                        result = add_paths(Path(repo), given, roots)
                except Exception as e:
                    if is_resource_problem(e):
                        raise
                    if expected is not None:
                        raise Violation(f"consistent input rejected: {describe(e)}; tree {all_paths(tree)}, input {order}")
                    continue
                if expected is None:
                    raise Violation(f"contradictory input accepted ({reason}): {order} on {all_paths(tree)}")
                if result != tree_hash(expected) or n == 0:
                    same(read_back(repo, result, expected), expected, f"result of adding {order} (order {n})")
                check(len(started) <= minimal_operations(tree, resolved),
                      f"{len(started)} instead of {minimal_operations(tree, resolved)} read and write operations to add {order} to {all_paths(tree)}")
                check(result == tree_hash(expected), f"order {n}: tree {result} differs from expected tree")
            if expected is not None:
                tree = expected
    return {"nontrivial": paths >= 2 and initial_size > 0 and (overlaps > 0 or conflicts > 0),
            "tags": (["conflict"] if conflicts else ["no conflict"]) + (["overlapping directory"] if overlaps else [])}
