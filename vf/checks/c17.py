"""C17: remote repositories are read like local ones, never written"""
import os
import shutil
from pathlib import Path
from uuid import UUID

from hypothesis import strategies as st

from .. import edits, env, faults, gen, store
from .. import model as m
from ..core import CaseDir, Violation, check, is_resource_problem, same, session
from ..gitx import TVL_REF, UUID_REF, mkrepo, snapshot

PROPERTY = "C17"
LEVEL = "exploration"
NOTE = ("Differential between remote and local reading: remotes are local repositories behind rewritten URLs (git's url.insteadOf), so the complete "
        "fetch and cache code runs with the real git. Sampled histories of updates and rewrites; no real network and no slow or failing transport.")
QUICK, THOROUGH = 240, 8000
RULE = ("Hypothesis generates two remote stores with URLs (all supported schemes, URLs that are similar to each other) and a history of steps: "
        "the store of a remote is replaced, extended or removed, and new or still running processes read from the remotes (completely, by lookups, "
        "or parts), edit the loaded objects, try to write them to the remote, and write or copy them to a local repository. Content is compared with "
        "the model, the files of the remotes are compared before and after. Non-trivial: a remote with records was read after an update, or a refused "
        "write after an edit.")
ASSUMPTIONS = ["the remote allows to fetch single objects (like all large hosting services)",
               "objects of earlier versions are not removed from the remote while a process still refers to them"]
CASE_TIMEOUT = 600

BASES = ["https://vf.example/x", "http://vf.example/x", "ssh://git@vf.example/x", "git@vf.example:x", "git://vf.example/x"]
PAIRS = [("/r", "/r2"), ("/r", "/R"), ("/Data/x", "/data/x"), ("/r", "/r/"), ("/r.git", "/r"), ("/a/b", "/a-b"), ("/ä", "/a"), ("/r?x=1", "/r?x=2"), ("/a b", "/a%20b")]


def strategy(tier):
    names = gen.weighted(gen.plain_name, gen.plain_name, gen.plain_name, gen.name)
    md = gen.small_metadata(1)
    rec = gen.record(md, gen.file_tree(md, names, 2), versions=gen.hex_version)
    full = st.fixed_dictionaries({"tvl": gen.version_list(gen.dataset_tree(rec, names, 2, 1), 2, 1), "uuid": gen.uuid_set(rec, 2, 1, 1)})
    any_store = gen.weighted(full, full, full, full, edits.initial_store(names))
    remote = st.integers(0, 1)
    edit = edits.operations(names, weights="plain")
    level = st.sampled_from(["tvl", "us", "dt", "vl", "record", "dm", "ft", "node", "md"])
    refused = st.tuples(st.just("refused"), st.sampled_from(["own", "url"]), level, edits.side, edits.index, edits.index, edits.index).map(list)
    read = st.tuples(st.just("read"), st.sampled_from(["record", "file", "paths", "tree", "versions"]), edits.side,
                     edits.index, edits.index, edits.index).map(list)
    ops = gen.sized_list(gen.weighted(read, edit, edit, refused, refused), 3, 5 if tier == "quick" else 10)
    steps = gen.weighted(
        st.tuples(st.just("dump"), remote).map(list),
        st.tuples(st.just("dump"), remote).map(list),
        st.tuples(st.just("replace"), remote, any_store).map(list),
        st.tuples(st.just("replace"), remote, any_store).map(list),
        st.tuples(st.just("drop"), remote, st.sampled_from(["tvl", "uuid", "both"])).map(list),
        st.tuples(st.just("edit"), remote, ops).map(list),
        st.tuples(st.just("edit"), remote, ops).map(list),
        st.tuples(st.just("copy"), remote).map(list),
        st.tuples(st.just("interleaved"), remote, st.lists(st.integers(0, 12), min_size=1, max_size=3)).map(list),
        st.tuples(st.just("lookup"), remote, edits.index, edits.index, st.booleans()).map(list),
        st.tuples(st.just("lookup"), remote, edits.index, edits.index, st.just(True)).map(list),
        st.tuples(st.just("held"), remote, any_store).map(list))
    return st.fixed_dictionaries({
        "base": st.sampled_from(BASES), "pair": st.sampled_from(PAIRS), "stores": st.tuples(full, any_store).map(list),
        "steps": gen.sized_list(steps, 3, 5 if tier == "quick" else 12)})


def configure(case, d):
    """Make the URLs available to git. Runs in session processes."""
    shutil.rmtree(os.path.join(env.SCRATCH, "home", "cache"), ignore_errors=True)
    urls = [case["base"] + p for p in case["pair"]]
    for n, url in enumerate(urls):
        os.environ[f"GIT_CONFIG_KEY_{n}"] = f"url.{d}/r{n}.insteadOf"
        os.environ[f"GIT_CONFIG_VALUE_{n}"] = url
    os.environ["GIT_CONFIG_COUNT"] = "2"
    # no network in any case
    os.environ["GIT_ALLOW_PROTOCOL"] = "file"
    return urls


def write_remote(realm, content, keep=()):
    """Replace the top-level references"""
    store.Writer(realm).store(content)
    for part, ref in (("tvl", TVL_REF), ("uuid", UUID_REF)):
        if content[part] is None and part not in keep:
            path = os.path.join(realm, ".git", ref)
            if os.path.exists(path):
                os.unlink(path)


def dump(url):
    return m.dump_store(url)


def interleaved(url, other, places):
    """Another process reads from the other repository between git commands of this process"""
    def observer(index, command):
        if index in places:
            others.append(session(dump_plain, other, what="interleaved process"))

    def dump_plain(url):
        faults.suspend()
        return dump(url)
    others = []
    faults.install().observer = observer
    return [dump(url), others]


class RemoteEditor(edits.Editor):
    """Edits objects that are loaded from a remote repository"""
    def __init__(self, url, stored, local):
        super().__init__(url, stored, local)
        self.url = url

    def op_refused(self, target, level, side, i, j, k):
        if level == "tvl" and self.tvl.realm is None and target == "own" or level == "us" and self.us.realm is None and target == "own":
            return
        found = self.select(level, side, i, j, k)
        if found is None:
            return
        obj = found[0]
        mapped = obj.mtree.mapped if hasattr(obj, "mtree") else obj.mapped
        realm = obj.mtree.realm if hasattr(obj, "mtree") else obj.realm
        if target == "own" and realm is None:
            return          # created in memory, there is no repository to write it to
        try:
            reference = obj.write_out(self.url if target == "url" else None)
        except Exception as e:
            if is_resource_problem(e):
                raise
            self.count("refused")
            self.forked_compare(f"after refused write of {level}")
            return
        check(not mapped, f"{level} was written to the remote repository ({reference})")
        self.count("not loaded")

    def forked_compare(self, what):
        session(self.compare_memory, what, what=what)


def edit(url, stored, ops, local):
    editor = RemoteEditor(url, stored, local)
    for op in ops:
        editor.apply(op)
    editor.compare_memory("remote objects at the end")
    # everything is loaded now: store it locally
    editor.tvl.write_out(local)
    editor.us.write_out(local)
    m.flush_object_references(Path(local))
    return {"stored": editor.canonical(), "stats": editor.stats}


def copy(url, local):
    tvl, us = m.load_top(url)
    if tvl is not None:
        tvl.deepcopy(new_destination=local)
    if us is not None:
        us.deepcopy(new_destination=local)
    for top in (tvl, us):
        if top is not None:
            for target in (None, url):
                try:
                    copied = top.deepcopy(new_destination=target)
                except Exception as e:
                    if is_resource_problem(e):
                        raise
                    continue
                raise Violation(f"copied to {target}: {copied.realm} {copied.reference}")


def lookup(url, stored, i, j, create):
    """Look up an existing record and a missing version"""
    tvl = edits.to_dict(stored["tvl"] or [])
    for version, prefix in sorted(tvl):
        dt = tvl[(version, prefix)][1]
        if "" not in dt or stored["uuid"] is None:
            continue
        path = sorted(dt)[j % len(dt)]
        if path == "":
            ids = (UUID(dt[""]["id"]), version)
            sub = (None, None)
        else:
            ids = (UUID(dt[""]["id"]), version)
            sub = (UUID(dt[path]["id"]), dt[path]["ver"])
        if not create and (str(ids[0]) not in stored["uuid"] or (sub[0] is not None and str(sub[0]) not in stored["uuid"])):
            continue
        t, u, record = m.get_top_nodes_and_metadata_root_record("git", url, ids[0], ids[1], m.MP(prefix), m.MP(path), sub[0], sub[1], create)
        check(record is not None, f"record {version} {prefix!r} {path!r} was not found in the remote repository")
        same(m.norm("mrr", m.dump_record(record)), m.norm("mrr", dt[path]), f"remote record {version} {prefix!r} {path!r}")
        return 1
    t, u, record = m.get_top_nodes_and_metadata_root_record("git", url, UUID(int=77), "f" * 40, m.MP(""), m.MP(""), None, None, create)
    check((record is not None) == create, f"lookup of a missing version (create: {create}) returned {record}")
    return 0


def held(url, stored, realm, new):
    """Objects that were loaded before an update keep their content, objects that are loaded later have the new content"""
    tvl, us = m.load_top(url)
    write_remote(realm, new)
    actual = dump(url)
    same(m.norm("store", actual), m.norm("store", new), f"{url} read again after an update")
    old = {"tvl": None if tvl is None else m.dump_tree_version_list(tvl), "uuid": None if us is None else m.dump_uuid_set(us)}
    same(m.norm("store", old), m.norm("store", stored), f"objects of {url} that were loaded before an update")


def run_case(case):
    stats = {}

    def count(what, n=1):
        stats[what] = stats.get(what, 0) + n
    saved = dict(os.environ)
    with CaseDir() as d:
        try:
            urls = configure(case, d)
            realms, current, updated = [], [], [0, 0]
            for n in (0, 1):
                realms.append(mkrepo(f"{d}/r{n}"))
                write_remote(realms[n], case["stores"][n])
                current.append(case["stores"][n])
            for index, (name, r, *args) in enumerate(case["steps"] + [["dump", 0], ["dump", 1]]):
                what = f"step {index} {name} {urls[r]}"
                size = gen.store_size(current[r])
                before = [snapshot(x) for x in realms]
                if name == "replace":
                    write_remote(realms[r], args[0])
                    current[r] = args[0]
                    updated[r] = 1
                    continue
                if name == "drop":
                    parts = ["tvl", "uuid"] if args[0] == "both" else [args[0]]
                    current[r] = {k: None if k in parts else v for k, v in current[r].items()}
                    write_remote(realms[r], current[r])
                    updated[r] = 1
                    continue
                if name == "dump":
                    same(m.norm("store", session(dump, urls[r], what=what)), m.norm("store", current[r]), what)
                    count("read after update", updated[r] and size > 2)
                elif name == "edit":
                    local = mkrepo(f"{d}/local{index}")
                    result = session(edit, urls[r], current[r], args[0], local, what=what)
                    same(m.norm("store", store.read_store(local)), m.norm("store", result["stored"]), f"{what}: written locally")
                    edited = sum(v for k, v in result["stats"].items() if k.split()[0] in ("set", "add", "delete", "attach", "run"))
                    count("refused after edit", bool(edited and result["stats"].get("refused")))
                elif name == "interleaved":
                    first, others = session(interleaved, urls[r], urls[1 - r], args[0], what=what)
                    same(m.norm("store", first), m.norm("store", current[r]), what)
                    for other in others:
                        same(m.norm("store", other), m.norm("store", current[1 - r]), f"{what}: process that read from the other repository")
                    count("interleaved", bool(others) and size > 2)
                elif name == "copy":
                    local = mkrepo(f"{d}/local{index}")
                    session(copy, urls[r], local, what=what)
                    actual = store.read_store(local)
                    same(m.norm("store", actual), m.norm("store", current[r]), f"{what}: copied")
                    count("copied", size > 2)
                elif name == "lookup":
                    found = session(lookup, urls[r], current[r], *args, what=what)
                    count("lookup", found)
                elif name == "held":
                    session(held, urls[r], current[r], realms[r], args[0], what=what)
                    current[r] = args[0]
                    updated[r] = 1
                    count("read after update", gen.store_size(args[0]) > 2)
                    # the update was made in the process
                    for n in (0, 1):
                        if n != r:
                            check(snapshot(realms[n]) == before[n], f"{what}: files of the other remote repository changed")
                    continue
                for n in (0, 1):
                    after = snapshot(realms[n])
                    changed = sorted(k for k in set(after) | set(before[n]) if after.get(k) != before[n].get(k))
                    check(not changed, f"{what}: files of the remote repository {n} changed: {changed[:4]}")
        finally:
            os.environ.clear()
            os.environ.update(saved)
    return {"nontrivial": bool(stats.get("read after update") or stats.get("refused after edit")), "tags": sorted(k for k, v in stats.items() if v)}
