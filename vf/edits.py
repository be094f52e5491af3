"""Model-based editing of a store: every operation is applied to the objects of
the project and to a canonical model (see store.py).

An `Editor` lives in a session process. Objects are always reached by navigation
from the top-level objects, the harness never keeps handles to parts that might
have been dropped.
"""
import copy
import json
import os
from pathlib import Path
from uuid import UUID

from hypothesis import strategies as st

from . import faults, gen
from . import model as m
from .core import Violation, check, same, session


def to_dict(vl):
    return {(v, p): [ts, e] for v, p, ts, e in vl}


def to_list(d):
    return [[v, p, ts, e] for (v, p), (ts, e) in d.items()]


def copied(value):
    """Copy that does not keep aliases (copy.deepcopy() does)"""
    return json.loads(json.dumps(value))


def pick(seq, index):
    return seq[index % len(seq)]


def conflicts(paths, new):
    """Would a leaf at path `new` conflict with the leaves at `paths`?"""
    n = new.split("/")
    for p in paths:
        q = p.split("/")
        if q[:len(n)] == n or n[:len(q)] == q:
            return True
    return False


class Editor:
    def __init__(self, realm, stored, destination=None):
        """stored: canonical store that the realm contains"""
        self.realm = realm
        self.destination = destination or realm
        self.stored = stored = copied(stored)
        # strings and paths name local repositories
        self.tvl, self.us = m.load_top(realm if len(json.dumps(stored)) % 2 or ":" in realm or str(Path(realm)) != realm else Path(realm))
        check((self.tvl is None) == (stored["tvl"] is None), f"tree version list loaded: {self.tvl}, stored: {stored['tvl'] is not None}")
        check((self.us is None) == (stored["uuid"] is None), f"uuid set loaded: {self.us}, stored: {stored['uuid'] is not None}")
        if self.tvl is None:
            self.tvl = m.TreeVersionList()
        if self.us is None:
            self.us = m.UUIDSet()
        self.mt = copy.deepcopy(to_dict(stored["tvl"] or []))
        self.mu = {u: copy.deepcopy(to_dict(vl)) for u, vl in (stored["uuid"] or {}).items()}
        self.stats = {}
        self.verify_each = False
        self.leftovers = []
        self.shared = []        # pairs of locations of records that are the same object

    # ------------------------------------------------------------ model
    def canonical(self):
        return {"tvl": to_list(self.mt), "uuid": {u: to_list(vl) for u, vl in self.mu.items()}}

    def count(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    def model_record(self, side, i, j):
        """-> (location, record) or None"""
        if side == "t":
            if not self.mt:
                return None
            key = pick(sorted(self.mt), i)
            dt = self.mt[key][1]
            if not dt:
                return None
            path = pick(sorted(dt), j)
            return ("t", key, path), dt[path]
        candidates = [u for u in sorted(self.mu) if self.mu[u]]
        if not candidates:
            return None
        u = pick(candidates, i)
        key = pick(sorted(self.mu[u]), j)
        return ("u", u, key), self.mu[u][key][1]

    # ------------------------------------------------------------ navigation
    def dt(self, key, variant=0):
        version, prefix = key
        if variant % 3 == 0:
            ts, p, dt = self.tvl.get_dataset_tree(version, m.MP(prefix))
        elif variant % 3 == 1:
            ts, p, dt = self.tvl.get_versioned_element(version, m.MP(prefix))
        else:
            found = [t for t in self.tvl.get_dataset_trees(version) if str(t[1]) == prefix]
            check(len(found) == 1, f"{len(found)} dataset trees for version {version!r} and prefix {prefix!r}")
            ts, p, dt = found[0]
        check(isinstance(dt, m.DatasetTree), f"dataset tree expected, got {type(dt).__name__}")
        check(str(p) == prefix and ts == self.mt[key][0], f"entry {key}: got prefix {p}, time stamp {ts}")
        return dt

    def vl(self, u):
        return self.us.get_version_list(UUID(u))

    def record(self, loc, variant=0):
        if loc[0] == "t":
            record = self.dt(loc[1], variant).get_metadata_root_record(m.MP(loc[2]))
        else:
            _, _, record = self.vl(loc[1]).get_versioned_element(loc[2][0], m.MP(loc[2][1]))
        check(record is not None, f"record {loc} not found")
        return record

    def ft(self, loc, variant=0):
        return self.record(loc, variant).file_tree

    # ------------------------------------------------------------ operations
    def apply(self, op):
        name, args = op[0], op[1:]
        getattr(self, "op_" + name)(*args)

    # dataset trees
    def op_set_version(self, version, prefix, ts, dt):
        self.tvl.set_dataset_tree(version, ts, m.MP(prefix), m.build_dataset_tree(dt))
        self.mt[(version, prefix)] = [ts, copy.deepcopy(dt)]
        self.count("set version")

    def op_add_dataset(self, i, path, record):
        if not self.mt:
            return
        key = pick(sorted(self.mt), i)
        model = self.mt[key][1]
        dt = self.dt(key, i)
        if path in model:
            try:
                dt.add_dataset(m.MP(path), m.build_record(record))
            except ValueError:
                self.count("rejected duplicate")
                return
            raise Violation(f"dataset added at existing path {path!r}")
        dt.add_dataset(m.MP(path), m.build_record(record))
        model[path] = copy.deepcopy(record)
        self.count("add dataset")

    def op_delete_subtree(self, i, j):
        found = self.model_record("t", i, j)
        if found is None or found[0][2] == "":
            return
        (_, key, path), _ = found
        self.dt(key).delete_subtree(m.MP(path))
        self.leftovers.append((key, path))
        dt = self.mt[key][1]
        for p in [p for p in dt if p == path or p.startswith(path + "/")]:
            del dt[p]
        self.count("delete subtree")

    def op_attach(self, i, path, dt_spec):
        if not self.mt:
            return
        key = pick(sorted(self.mt), i)
        model = self.mt[key][1]
        parts = path.split("/")
        if any(p.split("/")[:len(parts)] == parts for p in model):
            return
        # Directories without datasets may still exist in memory
        leftover = any((p + "/").startswith(path + "/") for _, p in self.leftovers)
        if not dt_spec:
            self.leftovers.append((key, path))
        try:
            self.dt(key).add_subtree(m.build_dataset_tree(dt_spec), m.MP(path))
        except ValueError:
            if leftover:
                return
            raise
        for p, r in dt_spec.items():
            model[path + ("/" + p if p else "")] = copy.deepcopy(r)
        self.count("attach subtree")

    # One object at several places (the model contains the same object as well)
    def op_share_record(self, i, j, k, ts):
        """Add a record of a dataset tree to a version list, as the lookup functions do"""
        found = self.model_record("t", i, j)
        if found is None or not self.mu:
            return
        loc, model = found
        u = pick(sorted(self.mu), k)
        self.vl(u).set_versioned_element(loc[1][0], ts, m.MP(loc[1][1]), self.record(loc, j))
        self.mu[u][loc[1]] = [ts, model]
        self.shared = [pair for pair in self.shared if pair[1] != ("u", u, loc[1])]
        self.shared.append((loc, ("u", u, loc[1])))
        self.count("share record")

    def op_share_tree(self, i, version, prefix, ts):
        """Use a dataset tree in another version as well"""
        if not self.mt:
            return
        key = pick(sorted(self.mt), i)
        if key == (version, prefix):
            return
        self.tvl.set_dataset_tree(version, ts, m.MP(prefix), self.dt(key, i))
        self.mt[(version, prefix)] = [ts, self.mt[key][1]]
        self.shared.append((("t", key), ("t", (version, prefix))))
        self.count("share tree")

    def lookup(self, loc):
        """-> (object, its container in the model, key in the container) or None"""
        if loc[0] == "t":
            if loc[1] not in self.mt:
                return None
            if len(loc) == 2:
                return self.dt(loc[1]), self.mt[loc[1]], 1
            dt = self.mt[loc[1]][1]
            return None if loc[2] not in dt else (self.record(loc), dt, loc[2])
        if loc[2] not in self.mu.get(loc[1], {}):
            return None
        return self.record(loc), self.mu[loc[1]][loc[2]], 1

    def unshare(self):
        """Dropping parts from memory might have ended the sharing of objects"""
        if not self.shared:
            return

        def identical():
            result = []
            for a, b in self.shared:
                x, y = self.lookup(a), self.lookup(b)
                result.append(None if x is None or y is None else x[0] is y[0] or getattr(x[0], "mtree", 0) is getattr(y[0], "mtree", 1))
            return result
        kept = []
        plan = faults.suspend()
        try:
            states = session(identical, what="compare identities")
        finally:
            faults.resume(plan)
        for pair, still in zip(self.shared, states):
            if still:
                kept.append(pair)
            elif still is False:
                for loc in pair:
                    container = self.model_container(loc)
                    container[0][container[1]] = copied(container[0][container[1]])
        self.shared = kept
        # what remains shared has the same model
        groups = []
        for pair in kept:
            joined = [g for g in groups if g & set(pair)]
            groups = [g for g in groups if not g & set(pair)] + [set(pair).union(*joined)]
        for group in groups:
            first, *others = sorted(group, key=len)
            container, key = self.model_container(first)
            for loc in others:
                c, k = self.model_container(loc)
                c[k] = container[key]

    def model_container(self, loc):
        if loc[0] == "t":
            return (self.mt[loc[1]], 1) if len(loc) == 2 else (self.mt[loc[1]][1], loc[2])
        return self.mu[loc[1]][loc[2]], 1

    def op_retime(self, side, i, j, ts):
        """Set an existing entry again, with another time stamp"""
        found = self.model_record(side, i, j)
        if found is None:
            return
        loc, _ = found
        if side == "t":
            self.tvl.set_dataset_tree(loc[1][0], ts, m.MP(loc[1][1]), self.dt(loc[1], i))
            self.mt[loc[1]][0] = ts
        else:
            (version, prefix), vl = loc[2], self.vl(loc[1])
            vl.set_versioned_element(version, ts, m.MP(prefix), vl.get_versioned_element(version, m.MP(prefix))[2])
            self.mu[loc[1]][loc[2]][0] = ts
        self.count("set time stamp")

    def op_graft(self, i, k, path):
        """Attach a deep copy of a dataset tree to a dataset tree"""
        if not self.mt:
            return
        source = pick(sorted(self.mt), k)
        spec = copied(self.mt[source][1])
        key = pick(sorted(self.mt), i)
        parts = path.split("/")
        if not spec or self.leftovers or any(p.split("/")[:len(parts)] == parts for p in self.mt[key][1]):
            return
        self.dt(key).add_subtree(self.dt(source).deepcopy("git", self.destination), m.MP(path))
        for p, r in spec.items():
            self.mt[key][1][path + ("/" + p if p else "")] = r
        self.count("attach copy")

    # records
    def op_set_dm(self, side, i, j, md):
        found = self.model_record(side, i, j)
        if found is None:
            return
        loc, model = found
        self.record(loc, i).set_dataset_level_metadata(None if md is None else m.build_metadata(md))
        model["dm"] = copy.deepcopy(md)
        self.count("set dataset metadata")

    def op_dm_run(self, side, i, j, run):
        found = self.model_record(side, i, j)
        if found is None or found[1]["dm"] is None:
            return
        loc, model = found
        m.add_run(self.record(loc, j).get_dataset_level_metadata(), run)
        m.model_add_run(model["dm"], run)
        self.count("run on dataset metadata")

    def op_set_ft(self, side, i, j, ft):
        found = self.model_record(side, i, j)
        if found is None:
            return
        loc, model = found
        record = self.record(loc, i)
        if i % 2:
            record.file_tree = m.build_file_tree(ft)
        else:
            record.set_file_tree(m.build_file_tree(ft))
        model["ft"] = copy.deepcopy(ft)
        self.count("set file tree")

    def _ensure_ft(self, loc, model):
        ft = self.ft(loc)
        check(ft is not None or not model["ft"], f"file tree of {loc} not found")
        if ft is None:
            self.record(loc).set_file_tree(m.FileTree())
            ft = self.ft(loc)
            check(ft is not None, "file tree not present after it was set")
        if model["ft"] is None:
            model["ft"] = {}
        return ft

    def op_ft_add(self, side, i, j, path, md):
        found = self.model_record(side, i, j)
        if found is None:
            return
        loc, model = found
        ft = self._ensure_ft(loc, model)
        if conflicts(model["ft"], path):
            try:
                ft.add_metadata(m.MP(path), m.build_metadata(md))
            except ValueError:
                self.count("rejected conflict")
                return
            raise Violation(f"metadata added at conflicting path {path!r}")
        ft.add_metadata(m.MP(path), m.build_metadata(md))
        model["ft"][path] = copy.deepcopy(md)
        self.count("add file")

    def op_ft_run(self, side, i, j, k, run):
        found = self.model_record(side, i, j)
        if found is None or not found[1]["ft"]:
            return
        loc, model = found
        path = pick(sorted(model["ft"]), k)
        md = self.ft(loc, j).get_metadata(m.MP(path))
        check(md is not None, f"metadata at {path!r} not found")
        m.add_run(md, run)
        m.model_add_run(model["ft"][path], run)
        self.count("run on file")

    def op_rerun(self, side, i, j, k, ts, an):
        """Add an existing run again, with the same configuration and content, but another time stamp and author"""
        found = self.model_record(side, i, j)
        if found is None:
            return
        loc, model = found
        places = ([""] if model["dm"] else []) + sorted(p for p, v in (model["ft"] or {}).items() if v)
        if not places:
            return
        path = pick(places, k)
        md = self.record(loc, j).get_dataset_level_metadata() if path == "" else self.ft(loc, j).get_metadata(m.MP(path))
        check(md is not None, f"metadata {loc} {path!r} not found")
        target = model["dm"] if path == "" else model["ft"][path]
        ext = pick(sorted(target), k)
        ver, par, _, _, ae, content = pick(target[ext], i)
        run = [ext, ver, par, ts, an, ae, content]
        m.add_run(md, run)
        m.model_add_run(target, run)
        self.count("run repeated")

    def op_modify_and_drop(self, side, i, j, k, run, inner, level, give_back, record):
        """Modify a part and drop something that contains it"""
        if record is not None and side == "u" and self.mu:
            version = sorted(self.mu[pick(sorted(self.mu), i)])[:1]
            for prefix in ("", "p", "p/q"):
                self.op_set_element(i, version[0][0] if version else "1" * 40, prefix, "0", record)
        for op in (["write", "tvl" if side == "t" else "us", side, i, j, k], [inner, side, i, j, *([k] if inner == "ft_run" else []), run],
                   ["unget" if give_back and level in ("dt", "vl", "record") else "purge", level, side, i, j, k]):
            self.apply(op)

    def op_ft_run_auto(self, side, i, j, path, run):
        found = self.model_record(side, i, j)
        if found is None:
            return
        loc, model = found
        if path not in (model["ft"] or {}) and conflicts(model["ft"] or {}, path):
            return
        ft = self._ensure_ft(loc, model)
        ext, ver, par, ts, an, ae, content = run
        ft.add_extractor_run(m.MP(path), ts, ext, an, ae, m.ExtractorConfiguration(ver, par), content)
        m.model_add_run(model["ft"].setdefault(path, {}), run)
        self.count("run on file (auto)")

    # uuid set
    def op_set_list(self, u, vl):
        self.us.set_version_list(UUID(u), m.build_version_list(vl))
        self.mu[u] = copy.deepcopy(to_dict(vl))
        self.count("set version list")

    def op_set_element(self, i, version, prefix, ts, record):
        if not self.mu:
            return
        u = pick(sorted(self.mu), i)
        self.vl(u).set_versioned_element(version, ts, m.MP(prefix), m.build_record(record))
        self.mu[u][(version, prefix)] = [ts, copy.deepcopy(record)]
        self.count("set element")

    # parts that are filled after they were added to their container
    def op_late(self, kind, side, i, j, path, value, like):
        """
        Add an empty part (or, with `like`, one that equals the existing part) to
        its container, and then modify the part through the reference to it that
        the caller has.
        """
        value = copied(value)
        if kind in ("dm", "file", "ft"):
            found = self.model_record(side, i, j)
            if found is None:
                return
            loc, model = found
        if kind == "dm":
            old = copied(model["dm"] or {}) if like else {}
            md = m.build_metadata(old)
            self.record(loc, i).set_dataset_level_metadata(md)
            self._fill_metadata(md, old, value)
            model["dm"] = old
        elif kind == "file":
            ft = self._ensure_ft(loc, model)
            if conflicts(model["ft"], path):
                return
            md, new = m.Metadata(), {}
            ft.add_metadata(m.MP(path), md)
            self._fill_metadata(md, new, value)
            model["ft"][path] = new
        elif kind == "ft":
            old = copied(model["ft"] or {}) if like else {}
            ft = m.build_file_tree(old)
            self.record(loc, i).set_file_tree(ft)
            if not conflicts(old, path):
                ft.add_metadata(m.MP(path), m.build_metadata(value))
                old[path] = value
            model["ft"] = old
        elif kind in ("dataset", "element"):
            if kind == "dataset" and not self.mt or kind == "element" and not self.mu:
                return
            new = {"id": str(UUID(int=1)), "ver": "1" * 40, "dm": None, "ft": None}
            record = m.build_record(new)
            if kind == "dataset":
                key = pick(sorted(self.mt), i)
                dt = self.mt[key][1]
                if path in dt:
                    return
                self.dt(key, i).add_dataset(m.MP(path), record)
                dt[path] = new
            else:
                u = pick(sorted(self.mu), i)
                key = pick(sorted(self.mu[u]), j) if like and self.mu[u] else ("2" * 40, path)
                self.vl(u).set_versioned_element(key[0], "1", m.MP(key[1]), record)
                self.mu[u][key] = ["1", new]
            md = m.Metadata()
            record.set_dataset_level_metadata(md)
            new["dm"] = {}
            self._fill_metadata(md, new["dm"], value)
            ft = m.FileTree()
            record.set_file_tree(ft)
            ft.add_metadata(m.MP("late"), m.build_metadata(value))
            new["ft"] = {"late": copied(value)}
        elif kind == "tree":
            key = pick(sorted(self.mt), i) if like and self.mt else ("3" * 40, path)
            dt = m.build_dataset_tree(self.mt[key][1] if like and self.mt else {})
            old = copied(self.mt[key][1]) if like and self.mt else {}
            self.tvl.set_dataset_tree(key[0], "1", m.MP(key[1]), dt)
            if path not in old:
                new = {"id": None, "ver": None, "dm": value, "ft": None}
                dt.add_dataset(m.MP(path), m.build_record(new))
                old[path] = new
            self.mt[key] = ["1", old]
        elif kind == "list":
            u = pick(sorted(self.mu), i) if like and self.mu else str(UUID(int=3))
            old = {k: copied(v) for k, v in self.mu[u].items()} if like and self.mu else {}
            vl = m.build_version_list(to_list(old))
            self.us.set_version_list(UUID(u), vl)
            new = {"id": None, "ver": None, "dm": value, "ft": None}
            vl.set_versioned_element("2" * 40, "2", m.MP(path), m.build_record(new))
            old[("2" * 40, path)] = ["2", new]
            self.mu[u] = old
        self.count("add part and fill it")

    def _fill_metadata(self, md, model, value):
        for ext, entries in value.items():
            for e in entries:
                m.add_run(md, [ext, *e])
                m.model_add_run(model, [ext, *e])

    # reading
    def op_read(self, level, side, i, j, k):
        found = self.model_record(side, i, j)
        if found is None:
            return
        loc, model = found
        if level == "record":
            same(m.dump_record(self.record(loc, k)), m.norm_record(model), f"record {loc}")
        elif level == "file" and model["ft"]:
            path = pick(sorted(model["ft"]), k)
            same(m.dump_metadata(self.ft(loc).get_metadata(m.MP(path))), model["ft"][path], f"{loc} file {path!r}")
        elif level == "paths":
            ft = self.ft(loc)
            same(sorted(str(p) for p, _ in ft.get_paths_recursive()) if ft is not None else [], sorted(model["ft"] or {}), f"paths of {loc}")
        elif level == "tree" and side == "t":
            same(m.norm("dt", m.dump_dataset_tree(self.dt(loc[1], k))), m.norm("dt", self.mt[loc[1]][1]), f"dataset tree {loc[1]}")
        elif level == "versions":
            same(sorted((v, str(p)) for v, p in self.tvl.versions_and_prefix_paths()), sorted(self.mt), "versions")
            same(sorted(str(u) for u in self.us.uuids()), sorted(self.mu), "uuids")

    # storing parts and dropping them
    def select(self, level, side, i, j, k):
        """-> (object selected by level, kind, model value) or None"""
        if level == "tvl":
            return self.tvl, "tvl", to_list(self.mt)
        if level == "us":
            return self.us, "us", {u: to_list(vl) for u, vl in self.mu.items()}
        if level == "dt":
            if not self.mt:
                return None
            key = pick(sorted(self.mt), i)
            return self.dt(key), "dt", self.mt[key][1]
        if level == "vl":
            if not self.mu:
                return None
            u = pick(sorted(self.mu), i)
            return self.vl(u), "vl", to_list(self.mu[u])
        found = self.model_record(side, i, j)
        if found is None:
            return None
        loc, model = found
        if level == "record":
            return self.record(loc, k), "mrr", model
        if level == "dm":
            dm = self.record(loc).get_dataset_level_metadata()
            check((dm is None) == (model["dm"] is None), f"dataset level metadata of {loc}: {dm}")
            return None if dm is None else (dm, "md", model["dm"])
        if level == "ft":
            ft = self.ft(loc)
            check(ft is not None or not model["ft"], f"file tree of {loc} not found")
            return None if ft is None else (ft, "ft", model["ft"])
        if level == "node":
            ft = self.ft(loc)
            dirs = sorted({p.rsplit("/", 1)[0] for p in model["ft"] or {} if "/" in p})
            if not dirs:
                return None
            d = pick(dirs, k)
            node = ft.mtree.get_object_at_path(m.MP(d))
            check(node is not None, f"directory {d!r} not found")
            return node, "node", {p[len(d) + 1:]: v for p, v in model["ft"].items() if p.startswith(d + "/")}
        if level == "md":
            if not model["ft"]:
                return None
            path = pick(sorted(model["ft"]), k)
            md = self.ft(loc).get_metadata(m.MP(path))
            check(md is not None, f"metadata {loc} not found")
            return md, "md", model["ft"][path]
        raise AssertionError(level)

    def _objects(self, *args):
        found = self.select(*args)
        return None if found is None else found[0]

    def op_write(self, level, side, i, j, k):
        obj = self._objects(level, side, i, j, k)
        if obj is None:
            return
        if getattr(obj, "realm", None) == self.destination and (i + k) % 2:
            # an object that was written or loaded knows its destination
            obj.write_out()
        else:
            obj.write_out(self.destination)
        self.count("write " + level)
        if level == "tvl":
            self.stored["tvl"] = copy.deepcopy(to_list(self.mt))
        elif level == "us":
            self.stored["uuid"] = copy.deepcopy({u: to_list(vl) for u, vl in self.mu.items()})

    def op_purge(self, level, side, i, j, k):
        found = self.select(level, side, i, j, k)
        if found is None:
            return
        obj = found[0]
        try:
            obj.purge()
            self.count("purged " + level)
        except ValueError:
            self.count("purge refused")
        self.unshare()
        self.verify(f"after dropping {level}", found)

    def op_rework(self, level, side, i, j, k, path, value):
        """Drop an object (if it can be dropped) and modify it through the reference to it that the caller has"""
        found = self.select(level, side, i, j, k)
        if found is None:
            return
        obj, kind, _ = found
        value = copied(value)
        try:
            obj.purge()
            self.count("purged " + level)
        except ValueError:
            self.count("purge refused")
        self.unshare()
        if level == "dt":
            model = self.mt[pick(sorted(self.mt), i)][1]
        elif level != "vl":
            _, model = self.model_record(side, i, j)
            if level in ("dm", "ft"):
                model = model[level]
            elif level == "md":
                model = model["ft"][pick(sorted(model["ft"]), k)]
        if kind == "md":
            self._fill_metadata(obj, model, value)
        elif level == "ft":
            if conflicts(model, path):
                return
            obj.add_metadata(m.MP(path), m.build_metadata(value))
            model[path] = value
        elif kind == "mrr":
            obj.set_dataset_level_metadata(m.build_metadata(value))
            model["dm"] = value
        elif kind == "dt":
            if path in model:
                return
            new = {"id": None, "ver": None, "dm": value, "ft": None}
            obj.add_dataset(m.MP(path), m.build_record(new))
            model[path] = new
        elif kind == "vl":
            new = {"id": None, "ver": None, "dm": value, "ft": None}
            obj.set_versioned_element("2" * 40, "2", m.MP(path), m.build_record(new))
            self.mu[pick(sorted(self.mu), i)][("2" * 40, path)] = ["2", new]
        else:
            return
        self.count("rework " + level)
        self.verify(f"after reworking {level}")

    def op_settle(self, level, side, i, j, k):
        """Write an object and drop it: must be accepted, also after the next access"""
        for n in range(2):
            found = self.select(level, side, i, j, k)
            if found is None:
                return
            obj = found[0]
            if n == 0:
                self.op_write(level, side, i, j, k)
            else:
                obj.ensure_mapped()
            try:
                obj.purge()
            except ValueError as e:
                raise Violation(f"dropping {level} was refused after it was {('written', 'dropped and read')[n]}: {e}")
            self.count("purged " + level)
            self.unshare()
            self.verify(f"after writing and dropping {level}", found)

    def op_unget(self, level, side, i, j, k):
        if level == "dt" and self.mt:
            version, prefix = pick(sorted(self.mt), i)
            self.dt((version, prefix))
            self.tvl.unget_dataset_tree(version, m.MP(prefix), self.destination)
        elif level == "vl" and self.mu:
            u = pick(sorted(self.mu), i)
            if self.us.get_version_list(UUID(u)).realm is None:
                # without destination, only lists that have a realm can be given back
                self.us.get_version_list(UUID(u)).write_out(self.destination)
            self.us.unget_version_list(UUID(u))
        elif level == "record":
            found = self.model_record("u", i, j)
            if found is None:
                return
            (_, u, (version, prefix)), _ = found
            vl = self.vl(u)
            self.record(found[0])
            vl.unget_versioned_element(version, m.MP(prefix), self.destination)
        elif level == "md":
            found = self.model_record(side, i, j)
            if found is None or not found[1]["ft"]:
                return
            ft = self.ft(found[0])
            md = ft.get_metadata(m.MP(pick(sorted(found[1]["ft"]), k)))
            check(md is not None, "metadata not found")
            ft.unget_metadata(md, self.destination)
        else:
            return
        self.count("give back " + level)
        self.unshare()
        self.verify(f"after giving back {level}")

    def op_flush(self):
        m.flush_object_references(Path(self.destination))
        self.count("flush")

    # ------------------------------------------------------------ verification
    def compare_memory(self, what):
        """Compares everything with the model; maps all objects, use it in a forked process"""
        same(m.norm("tvl", m.dump_tree_version_list(self.tvl)), m.norm("tvl", to_list(self.mt)), f"{what}: dataset trees")
        same(m.norm("us", m.dump_uuid_set(self.us)), m.norm("us", {u: to_list(vl) for u, vl in self.mu.items()}), f"{what}: uuid set")

    def verify(self, what, *held):
        """held: objects, kinds, and model values, read through references that existed before"""
        if self.verify_each:
            session(self._verify, what, held, what=what)

    def _verify(self, what, held):
        for obj, kind, model in held:
            if kind in m.DUMP:
                same(m.norm(kind, m.DUMP[kind](obj)), m.norm(kind, model), f"{what}, existing reference")
        self.compare_memory(what)


def run_session(realm, stored, ops, final="tu", verify_each=False, verify_end=False, flush=False):
    """
    Runs in a session process. final: order in which the top-level objects are
    written at the end ("tu", "ut", "t", "u", "").
    -> {"stored": canonical content that is expected in the realm, "stats":}
    """
    editor = Editor(realm, stored)
    editor.verify_each = verify_each
    for op in ops:
        editor.apply(op)
    for c in final:
        editor.op_write("tvl" if c == "t" else "us", "t", 0, 0, 0)
    if verify_end:
        editor.compare_memory("at the end of the session")
    if flush:
        editor.op_flush()
    return {"stored": editor.stored, "stats": editor.stats}


# ---------------------------------------------------------------- strategies

index = st.integers(0, 5)
side = st.sampled_from("ttu")


def operations(names=None, weights="edit"):
    names = names if names is not None else gen.weighted(gen.plain_name, gen.plain_name, gen.plain_name, gen.plain_name, gen.name)
    md = gen.small_metadata()
    rec = gen.optional_identity(gen.record(md, gen.file_tree(md, names, 3), versions=gen.hex_version))
    dpath = gen.path(names, 1, 3)
    fpath = gen.path(names, 1, 3)
    run = gen.small_run
    ids = st.integers(1, 3).map(lambda n: f"00000000-0000-0000-0000-{n:012d}")
    prefixes = st.sampled_from(["", "", "p", "p/q"])
    just = st.just
    edit = [
        st.tuples(just("set_version"), gen.hex_version, prefixes, gen.list_time_stamp, gen.dataset_tree(rec, names, 3)),
        st.tuples(just("add_dataset"), index, gen.weighted(just(""), dpath), rec),
        st.tuples(just("add_dataset"), index, gen.weighted(just(""), dpath), rec),
        st.tuples(just("delete_subtree"), index, index),
        st.tuples(just("attach"), index, dpath, gen.dataset_tree(rec, names, 2)),
        st.tuples(just("set_dm"), side, index, index, gen.weighted(md, md, st.none())),
        st.tuples(just("dm_run"), side, index, index, run),
        st.tuples(just("set_ft"), side, index, index, gen.file_tree(md, names, 3)),
        st.tuples(just("ft_add"), side, index, index, fpath, md),
        st.tuples(just("ft_add"), side, index, index, fpath, md),
        st.tuples(just("ft_run"), side, index, index, index, run),
        st.tuples(just("ft_run"), side, index, index, index, run),
        st.tuples(just("ft_run"), side, index, index, index, run),
        st.tuples(just("ft_run_auto"), side, index, index, fpath, run),
        st.tuples(just("rerun"), side, index, index, index, st.sampled_from([1.0, 2.5, 7]), st.sampled_from(["n", "m"])),
        st.tuples(just("set_list"), ids, gen.version_list(rec, 2)),
        st.tuples(just("set_element"), index, gen.hex_version, prefixes, gen.list_time_stamp, rec),
        *[st.tuples(just("late"), st.sampled_from(["dm", "dm", "dm", "file", "ft", "ft", "dataset", "element", "tree", "list"]), side, index, index, fpath,
                    gen.small_metadata(1), st.sampled_from([True, True, False]))] * 2,
        st.tuples(just("retime"), side, index, index, gen.list_time_stamp),
        st.tuples(just("share_record"), index, index, index, gen.list_time_stamp),
        st.tuples(just("share_tree"), index, gen.hex_version, prefixes, gen.list_time_stamp),
        st.tuples(just("graft"), index, index, dpath),
    ]
    sides = {"t": st.sampled_from(["tvl", "dt", "record"]), "u": st.sampled_from(["us", "vl", "record"])}
    modify_and_drop = st.sampled_from("tu").flatmap(lambda s: st.tuples(
        just("modify_and_drop"), just(s), index, index, index, run, st.sampled_from(["dm_run", "ft_run"]), sides[s], st.booleans(), gen.weighted(st.none(), rec)))
    levels = st.sampled_from(["tvl", "us", "dt", "dt", "vl", "record", "record", "dm", "ft", "ft", "node", "md", "md"])
    store_ops = [
        st.tuples(just("write"), levels, side, index, index, index),
        st.tuples(just("unget"), st.sampled_from(["dt", "vl", "record", "md", "md"]), side, index, index, index),
        st.tuples(just("unget"), st.sampled_from(["dt", "vl", "record", "md", "md"]), side, index, index, index),
        st.tuples(just("purge"), levels, side, index, index, index),
        modify_and_drop, modify_and_drop,
        st.tuples(just("rework"), st.sampled_from(["dt", "vl", "record", "dm", "ft", "md", "md"]), side, index, index, index, fpath, gen.small_metadata(1)),
    ]
    settle = [st.tuples(just("settle"), levels, side, index, index, index)]
    read = [st.tuples(just("read"), st.sampled_from(["record", "file", "paths", "tree", "versions"]), side, index, index, index)]
    flush = [st.tuples(just("flush"))]
    table = {"edit": edit + store_ops + store_ops + read + flush,
             "drop": edit + 4 * store_ops + 2 * settle + read,
             "plain": edit,
             "write": edit + store_ops + flush}[weights]
    return gen.weighted(*table).map(list)


def initial_store(names=None, richer=False):
    names = names if names is not None else gen.weighted(gen.plain_name, gen.plain_name, gen.plain_name, gen.name)

    def parts(low):
        md = gen.small_metadata(low)
        rec = st.fixed_dictionaries({
            "id": gen.uuid, "ver": gen.hex_version,
            "dm": gen.weighted(md, md, md, st.none()), "ft": gen.weighted(*[gen.file_tree(md, names, 3, low)] * 4, st.none())})
        return (gen.version_list(gen.dataset_tree(rec, names, 3, low), 2, low), gen.uuid_set(rec, 2, low, low))
    tvl, us = parts(0)
    tvl1, us1 = parts(1)
    full = st.fixed_dictionaries({"tvl": tvl, "uuid": us})
    rich = st.fixed_dictionaries({"tvl": tvl1, "uuid": us1})
    if richer:
        return gen.weighted(st.just({"tvl": None, "uuid": None}), full, *[rich] * 8,
                            st.fixed_dictionaries({"tvl": tvl1, "uuid": st.none()}), st.fixed_dictionaries({"tvl": st.none(), "uuid": us1}))
    return gen.weighted(st.just({"tvl": None, "uuid": None}), full, full, rich, rich, rich, rich,
                     st.fixed_dictionaries({"tvl": tvl1, "uuid": st.none()}), st.fixed_dictionaries({"tvl": st.none(), "uuid": us1}))


finals = st.sampled_from(["tu", "tu", "ut", "t", "u", "tutu", ""])
