"""C13: trees behave like maps from paths to records"""
import copy

from hypothesis import strategies as st

from .. import gen, store
from .. import model as m
from ..core import CaseDir, Violation, check, describe, is_resource_problem, same, session
from ..gitx import mkrepo, read_object

PROPERTY = "C13"
LEVEL = "exploration"
NOTE = ("Stateful generation for dataset trees, file trees and general trees against a nested-dictionary model; the complete content is compared "
        "after every operation in a forked process, so that partly loaded states stay partly loaded. Sampled; trusts the model.")
QUICK, THOROUGH = 1000, 30000
RULE = ("Hypothesis generates the kind of tree, 8-17 operations (add, attach a subtree, remove, look up, test, enumerate, write, drop the tree or "
        "a node from memory, reload) with paths made from a small alphabet and from existing paths (equal, above, below). Rejected operations must "
        "leave the tree unchanged. Non-trivial: at least 3 records added and one removal, rejection, drop or reload.")
ASSUMPTIONS = ["empty directories exist in memory until the tree is dropped or reloaded, git cannot store them",
               "whether a directory of a file tree is reported by `in` is not specified"]
ROOT = store.ROOT_RECORD
KINDS = ["dt", "dt", "ft", "mt"]


def strategy(tier):
    names = gen.weighted(*[st.sampled_from("abc")] * 5, gen.name)
    path = gen.weighted(gen.path(names, 1, 4), gen.path(names, 1, 2), st.just(""))
    # an existing path, shortened by the second number, extended by the third
    near = st.tuples(st.integers(0, 12), st.integers(0, 3), gen.weighted(st.just(""), st.just(""), gen.path(names, 1, 2))).map(list)
    where = gen.weighted(path, path, near)

    def ops(kind):
        value = {"dt": gen.small_record(gen.plain_name), "ft": gen.small_metadata(), "mt": gen.any_text}[kind]
        sub = st.lists(st.tuples(gen.path(names, 1, 2), value).map(list), max_size=3)
        add = st.tuples(st.just("add"), where, value).map(list)
        op = gen.weighted(
            add, add, add, add,
            st.tuples(st.just("attach"), where, sub).map(list),
            st.tuples(st.just("remove"), near).map(list), st.tuples(st.just("remove"), where).map(list),
            st.tuples(st.just("get"), near).map(list), st.tuples(st.just("get"), where).map(list),
            st.just(["list"]), st.just(["write"]), st.just(["write"]), st.just(["purge"]), st.just(["settle"]), st.just(["hollow"]),
            st.tuples(st.just("purge node"), near).map(list), st.just(["reload"]))
        first = st.lists(st.tuples(st.just("add"), gen.path(st.sampled_from("abcd"), 1, 4), value).map(list), min_size=2, max_size=5)
        rest = gen.sized_list(op, 6, 12 if tier == "quick" else 40)
        return st.tuples(st.just(kind), st.tuples(first, rest).map(lambda t: t[0] + t[1]))
    return gen.weighted(*[ops(k) for k in KINDS]).map(list)


# Model: a directory is a dictionary, a record is a list with one value

class Rejected(Exception):
    pass


def find(tree, parts):
    for p in parts:
        if not isinstance(tree, dict) or p not in tree:
            return None
        tree = tree[p]
    return tree


def put(tree, parts, value):
    if not parts:
        raise Rejected("no name")
    for i, p in enumerate(parts[:-1]):
        sub = tree.get(p)
        if sub is None:
            sub = tree[p] = {}
        if not isinstance(sub, dict):
            raise Rejected("below a record")
        tree = sub
    if parts[-1] in tree:
        raise Rejected("exists")
    tree[parts[-1]] = value


def without_empty(tree):
    result = {}
    for k, v in tree.items():
        if isinstance(v, dict):
            v = without_empty(v)
            if not v:
                continue
        result[k] = v
    return result


def leaves(tree, prefix=()):
    for k, v in tree.items():
        if isinstance(v, dict):
            yield from leaves(v, prefix + (k,))
        else:
            yield prefix + (k,), v[0]


def directories(tree, prefix=()):
    yield prefix
    for k, v in tree.items():
        if isinstance(v, dict):
            yield from directories(v, prefix + (k,))


class Runner:
    def __init__(self, kind, realm):
        self.kind, self.realm = kind, realm
        self.tree = {}
        self.obj = {"dt": m.DatasetTree, "ft": m.FileTree, "mt": lambda: m.MTreeNode(m.Text)}[kind]()
        self.stats = {"added": 0, "rejected": 0, "removed": 0, "dropped": 0, "reloaded": 0, "attached": 0, "drop refused": 0}

    # ---------------------------------------------------------- paths
    def known(self):
        """Known record and directory paths, as the user gives them"""
        if self.kind == "dt":
            return sorted({d for d in directories(self.tree) if d})
        return sorted([p for p, _ in leaves(self.tree)] + [d for d in directories(self.tree) if d])

    def resolve(self, where):
        if isinstance(where, str):
            return tuple(where.split("/")) if where else ()
        known = self.known()
        base = known[where[0] % len(known)] if known else ()
        base = base[:max(0, len(base) - where[1] // 2)]
        return (*base, *(where[2].split("/") if where[2] else ()))

    def leaf_path(self, parts):
        return (*parts, ROOT) if self.kind == "dt" else tuple(parts)

    def build(self, value):
        return {"dt": m.build_record, "ft": m.build_metadata, "mt": m.Text}[self.kind](value)

    def dump(self, leaf):
        return {"dt": m.dump_record, "ft": m.dump_metadata, "mt": m.dump_text}[self.kind](leaf)

    def norm(self, value):
        return m.norm_record(value) if self.kind == "dt" else value

    # ------------------------------------------------------- operations
    def attempt(self, what, real, model):
        """Both have to succeed or to reject"""
        new = copy.deepcopy(self.tree)
        try:
            model(new)
        except Rejected as e:
            reason, new = str(e), None
        try:
            real()
        except Exception as e:
            if is_resource_problem(e):
                raise
            if new is not None:
                raise Violation(f"{what} failed: {describe(e)}")
            self.stats["rejected"] += 1
            return False
        if new is None:
            raise Violation(f"{what} was not rejected ({reason})")
        self.tree = new
        return True

    def op_add(self, where, value):
        parts = self.resolve(where)
        path = m.MP("/".join(parts))
        record = self.build(value)
        real = {"dt": lambda: self.obj.add_dataset(path, record), "ft": lambda: self.obj.add_metadata(path, record),
                "mt": lambda: self.obj.add_child_at(record, path)}[self.kind]
        self.stats["added"] += self.attempt(f"add at {parts}", real, lambda t: put(t, self.leaf_path(parts), [value]))

    def op_attach(self, where, sub):
        parts = self.resolve(where)
        model = {}
        if self.kind == "dt":
            subtree = m.DatasetTree()
        else:
            subtree = m.MTreeNode(m.Text if self.kind == "mt" else m.Metadata)
        for p, value in sub:
            try:
                put(model, self.leaf_path(p.split("/")), [value])
            except Rejected:
                continue
            if self.kind == "dt":
                subtree.add_dataset(m.MP(p), self.build(value))
            else:
                subtree.add_child_at(self.build(value), m.MP(p))
        path = m.MP("/".join(parts))
        target = self.obj.mtree if self.kind == "ft" else self.obj
        real = (lambda: target.add_subtree(subtree, path)) if self.kind == "dt" else (lambda: target.add_child_at(subtree, path))
        self.stats["attached"] += self.attempt(f"attach at {parts}", real, lambda t: put(t, parts, model))

    def op_remove(self, where):
        parts = self.resolve(where)
        path = m.MP("/".join(parts))

        def model(tree):
            if not parts:
                raise Rejected("no name")
            parent = find(tree, parts[:-1])
            if not isinstance(parent, dict) or parts[-1] not in parent:
                raise Rejected("missing")
            del parent[parts[-1]]
        target = self.obj.mtree if self.kind == "ft" else self.obj
        real = (lambda: target.delete_subtree(path)) if self.kind == "dt" else (lambda: target.remove_child_at(path))
        self.stats["removed"] += self.attempt(f"remove {parts}", real, model)

    def op_hollow(self):
        """Remove all records, keep the directories"""
        for parts, _ in list(leaves(self.tree)):
            (self.obj if self.kind == "mt" else self.obj.mtree).remove_child_at(m.MP("/".join(parts)))
            del find(self.tree, parts[:-1])[parts[-1]]
            self.stats["removed"] += 1

    def op_get(self, where):
        parts = self.resolve(where)
        self.look_up(parts)

    def look_up(self, parts):
        path = m.MP("/".join(parts))
        expected = find(self.tree, self.leaf_path(parts))
        what = f"look up {parts}"
        if isinstance(expected, list):
            leaf = {"dt": lambda: self.obj.get_metadata_root_record(path), "ft": lambda: self.obj.get_metadata(path),
                    "mt": lambda: self.obj.get_object_at_path(path)}[self.kind]()
            check(leaf is not None, f"{what}: not found")
            same(self.dump(leaf), self.norm(expected[0]), what)
        elif self.kind == "dt":
            check(self.obj.get_metadata_root_record(path) is None, f"{what}: found a record")
        elif self.kind == "ft":
            try:
                check(self.obj.get_metadata(path) is None, f"{what}: found a record")
            except AssertionError:
                check(expected is not None, f"{what}: assertion failed")
        else:
            found = self.obj.get_object_at_path(path)
            check((found is None) == (expected is None) and not isinstance(found, m.Text), f"{what}: found {found}")
        if self.kind == "mt":
            if len(parts) == 1:
                check(self.obj.contains_child(parts[0]) == (expected is not None), f"{what}: contains_child")
        elif self.kind == "dt" or expected is None or isinstance(expected, list):
            check((path in self.obj) == (expected is not None), f"{what}: `in` is {path in self.obj}")

    def op_list(self):
        self.enumerate()

    def op_write(self):
        ref = self.obj.write_out(self.realm)
        self.check_stored(ref)
        return ref

    def op_purge(self):
        try:
            self.obj.purge()
        except ValueError:
            self.stats["drop refused"] += 1
            return
        self.tree = without_empty(self.tree)
        self.stats["dropped"] += 1

    def op_settle(self):
        """Write and drop: must be accepted, also after the next access"""
        self.op_write()
        for what in ("written", "dropped and read"):
            refused = self.stats["drop refused"]
            self.op_purge()
            check(self.stats["drop refused"] == refused, f"dropping the tree was refused after it was {what}")
            self.obj.ensure_mapped()

    def op_purge_node(self, where):
        parts = self.resolve(where)
        if self.kind == "dt" and isinstance(find(self.tree, self.leaf_path(parts)), list) and where[1] == 0:
            parts = self.leaf_path(parts)
        node = find(self.tree, parts)
        if node is None:
            return
        target = self.obj if self.kind == "mt" else self.obj.mtree
        found = target.get_object_at_path(m.MP("/".join(parts)))
        check(found is not None, f"object at {parts} not found")
        try:
            found.purge()
        except ValueError:
            self.stats["drop refused"] += 1
            return
        self.stats["dropped"] += 1
        if isinstance(node, dict):
            kept = without_empty(node)
            node.clear()
            node.update(kept)

    def op_reload(self):
        ref = self.op_write()
        self.tree = without_empty(self.tree)
        if ref.is_none_reference():
            self.obj = {"dt": m.DatasetTree, "ft": m.FileTree, "mt": lambda: m.MTreeNode(m.Text)}[self.kind]()
        else:
            kind = {"dt": "dt", "ft": "ft", "mt": "mtree"}[self.kind]
            self.obj = m.load(kind, self.realm, ref.to_json_obj())
        self.stats["reloaded"] += 1

    def check_stored(self, ref):
        expected = {"/".join(p): self.norm(v) for p, v in leaves(self.tree)}
        if ref.is_none_reference():
            actual = {}
        else:
            def leaf(repo, oid):
                if self.kind == "dt":
                    return store.read_record(repo, oid)
                return store.read_metadata(repo, oid) if self.kind == "ft" else read_object(repo, oid)[1].decode()
            actual = store.read_nodes(self.realm, ref.location, leaf)
        same(actual, expected, "stored tree")

    # ----------------------------------------------------- verification
    def enumerate(self):
        target = self.obj
        expected = {p: v for p, v in leaves(self.tree)}
        listed = [tuple(p.parts) for p, _ in list(target.get_paths_recursive())]
        same(sorted(listed), sorted(expected), "enumerated paths")
        shown = [tuple(p.parts) for p, _ in list(target.get_paths_recursive(True))]
        same(sorted(shown), sorted([*expected, *directories(self.tree)]), "enumerated paths with directories")
        if self.kind == "dt":
            datasets = [tuple(p.parts) for p, _ in self.obj.dataset_paths]
            same(sorted(datasets), sorted(p[:-1] for p in expected if p[-1] == ROOT), "dataset paths")

    def verify(self, what):
        def compare():
            self.enumerate()
            for p, _ in leaves(self.tree):
                self.look_up(p[:-1] if self.kind == "dt" else p)
            for d in directories(self.tree):
                self.look_up(d)
                self.look_up((*d, "not here"))
        session(compare, what=what)

    def apply(self, op):
        getattr(self, "op_" + op[0].replace(" ", "_"))(*op[1:])


def run_ops(kind, ops, realm):
    runner = Runner(kind, realm)
    for n, op in enumerate(ops):
        runner.apply(op)
        runner.verify(f"after operation {n} ({op[0]})")
    runner.op_reload()
    runner.verify("after the final reload")
    return runner.stats


def run_case(case):
    kind, ops = case
    with CaseDir() as d:
        stats = session(run_ops, kind, ops, mkrepo(d + "/r"), what="tree operations")
    other = sum(stats[k] for k in ("rejected", "removed", "dropped")) + max(0, stats["reloaded"] - 1)
    return {"nontrivial": stats["added"] >= 3 and other > 0, "tags": [kind] + sorted(k for k, v in stats.items() if v)}
