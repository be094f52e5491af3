"""C07: the object reference store only grows"""
from pathlib import Path

from hypothesis import strategies as st

from .. import faults, gen, store
from .. import model as m  # noqa: F401
from ..core import CaseDir, check, describe, is_resource_problem, session
from ..gitx import LEGACY_BLOBS, LEGACY_TREES, OBJ_REF, mkrepo, object_reference_entries, read_ref, read_tree

from dataladmetadatamodel.mapper.gitmapper.objectreference import (  # noqa: E402
    add_blob_reference, add_tree_reference, flush_object_references)

PROPERTY = "C07"
LEVEL = "exploration"
NOTE = ("Histories of recorded references and flushes in two repositories over several processes against a set model, with legacy stores and "
        "with the nth git command of a flush failing. Sampled; trusts git and the set model.")
QUICK, THOROUGH = 1600, 60000
RULE = ("Hypothesis generates stored references, legacy stores and 1-3 processes, each with a sequence of: record a tree or blob reference for a "
        "repository (or for none in particular), flush a repository, flush it while its nth git command fails (before or after it had its effect) "
        "and retry. After every flush the independently read store is compared with a set model. Non-trivial: at least one flush with pending "
        "or legacy references and stored references before it.")
ASSUMPTIONS = ["an object id is always recorded with the same type (ids identify content, and thereby the type)",
               "references that are recorded without a repository are stored by the flush of any repository"]

# Ids with common prefixes, the type is given by the last digit
STEMS = ["0" * 39, "0" * 38 + "1", "000" + "1" * 36, "000000" + "2" * 33, "000000000" + "3" * 30, "abc" + "0" * 36, "abcdef" + "4" * 33,
         "abcdef012" + "5" * 30, "f" * 39, "5a" + "6" * 37]
object_hash = gen.weighted(
    st.tuples(st.sampled_from(STEMS), st.sampled_from("0123456789abcdef")).map("".join),
    st.tuples(st.sampled_from(STEMS), st.sampled_from("0123456789abcdef")).map("".join),
    st.binary(min_size=20, max_size=20).map(bytes.hex))
hashes = st.lists(object_hash, max_size=6, unique=True)


def type_of(oid):
    """-> mode; independent of the prefix structure"""
    return "40000" if int(oid[-1], 16) % 2 else "100644"


def strategy(tier):
    realm = st.integers(0, 1)
    fault = st.tuples(st.integers(0, 12), st.sampled_from(["fail", "late", "signal", "torn"])).map(list)
    add = st.tuples(st.just("add"), gen.weighted(realm, realm, realm, st.none()), st.lists(object_hash, min_size=1, max_size=5)).map(list)
    bulk = st.tuples(st.just("bulk"), realm, st.sampled_from(STEMS), st.sampled_from([20, 65, 130, 260, 300])).map(list)
    op = gen.weighted(*[add] * 8, *[st.tuples(st.just("flush"), realm, gen.weighted(st.none(), fault, fault)).map(list)] * 4, bulk)
    ops = gen.sized_list(op, 3, 6 if tier == "quick" else 15)
    legacy = gen.weighted(st.none(), hashes)
    start = st.fixed_dictionaries({"stored": gen.weighted(st.none(), hashes, hashes), "trees": legacy, "blobs": legacy})
    return st.fixed_dictionaries({"realms": st.tuples(start, start).map(list),
                                  "sessions": st.lists(ops, min_size=1, max_size=3 if tier == "quick" else 5)})


def legacy_entries(realm):
    result = set()
    for ref in (LEGACY_TREES, LEGACY_BLOBS):
        oid = read_ref(realm, ref)
        if oid is not None:
            entries = read_tree(realm, oid)
            check(entries is not None, f"legacy store {ref} cannot be read")
            result |= {e[2] for e in entries}
    return result


def run_session(realms, allowed, ops):
    """allowed: for each realm all ids that may be in its store"""
    pending = [set(), set()]        # recorded for the realm
    anywhere = set()                # recorded for no particular realm
    stats = {"useful": 0, "failed": 0, "legacy": 0}
    allowed = [set(a) for a in allowed]

    def flush(index, fault):
        realm = realms[index]
        before, legacy = object_reference_entries(realm), legacy_entries(realm)
        wanted = set(pending[index]) | anywhere
        error = None
        plan = faults.install(None if fault is None else {fault[0]: fault[1]})
        try:
            flush_object_references(Path(realm))
        except Exception as e:
            if is_resource_problem(e):
                raise
            error = describe(e)
        finally:
            faults.install(None)
        after, remaining = object_reference_entries(realm), legacy_entries(realm)
        check(error is None or plan.hit, f"flush failed without a failing git command: {error}")
        what = f"flush (git command {plan.hit[0]}: {plan.log[plan.hit[0]]} {fault[1]}ed)" if plan.hit else "flush"
        bad = [e for e, mode in after.items() if mode == "?"]
        check(not bad, f"{what}: store is damaged: {bad[:3]}")
        wrong = [(e, mode) for e, mode in after.items() if mode != type_of(e)]
        check(not wrong, f"{what}: references with wrong type: {wrong[:3]}")
        lost = set(before) - set(after)
        check(not lost, f"{what}: stored references removed: {sorted(lost)[:3]}")
        lost = legacy - set(after) - remaining
        check(not lost, f"{what}: legacy references removed without being carried over: {sorted(lost)[:3]}")
        allowed[index] |= wanted | legacy
        extra = set(after) - allowed[index]
        check(not extra, f"{what}: references that were never recorded for this repository: {sorted(extra)[:3]}")
        if error is None:
            missing = wanted - set(after)
            check(not missing, f"{what} returned, but did not store {sorted(missing)[:3]}")
            pending[index].clear()
            # nothing is pending anymore, but no one forbids to store it elsewhere, too
            anywhere.clear()
            stats["useful"] += bool((wanted or legacy) and before)
            stats["legacy"] += bool(legacy)
        else:
            stats["failed"] += 1
        return error

    for op in ops:
        if op[0] in ("add", "bulk"):
            _, index, oids = op[:3]
            if op[0] == "bulk":
                # many references in few directories
                oids = [oids[:36] + f"{n:04x}" for n in range(op[3])]
                stats["bulk"] = 1
            for oid in oids:
                add = add_tree_reference if type_of(oid) == "40000" else add_blob_reference
                if index is None:
                    add(oid)
                    anywhere.add(oid)
                    allowed[0].add(oid), allowed[1].add(oid)
                else:
                    add(oid, realms[index])
                    pending[index].add(oid)
        elif flush(op[1], op[2]) is not None:
            check(flush(op[1], None) is None, "flush failed again")
    for index in (0, 1):
        check(flush(index, None) is None, "flush failed")
    return {"allowed": [sorted(a) for a in allowed], "stats": stats}


def first_flush_carries_over(realm):
    """A flush of a new process that succeeds without faults carries over the legacy store"""
    legacy = legacy_entries(realm)
    flush_object_references(Path(realm))
    missing = legacy - set(object_reference_entries(realm))
    check(not missing, f"legacy references were not carried over: {sorted(missing)[:3]}")
    for ref in (LEGACY_TREES, LEGACY_BLOBS):
        check(read_ref(realm, ref) is None or missing, f"{ref} still present after it was carried over")


def run_case(case):
    stats = {}
    with CaseDir() as d:
        realms, allowed = [], []
        for n, start in enumerate(case["realms"]):
            realm = mkrepo(f"{d}/r{n}")
            realms.append(realm)
            known = set(start["stored"] or [])
            if start["stored"]:
                store.write_reference_tree(realm, OBJ_REF, {o: type_of(o) for o in start["stored"]})
            for key, ref, mode in (("trees", LEGACY_TREES, "40000"), ("blobs", LEGACY_BLOBS, "100644")):
                if start[key] is not None:
                    entries = {o: mode for o in start[key] if type_of(o) == mode}
                    store.write_legacy_reference_tree(realm, ref, entries)
                    known |= set(entries)
            allowed.append(sorted(known))
        everything = [set(a) for a in allowed]
        for n, ops in enumerate(case["sessions"]):
            result = session(run_session, realms, allowed, ops, what=f"session {n}")
            allowed = result["allowed"]
            for k, v in result["stats"].items():
                stats[k] = stats.get(k, 0) + v
        for realm, expected in zip(realms, everything):
            session(first_flush_carries_over, realm, what="final flush")
            missing = expected - set(object_reference_entries(realm))
            check(not missing, f"references of the start state are missing at the end: {sorted(missing)[:3]}")
    return {"nontrivial": stats["useful"] > 0, "tags": sorted(k for k, v in stats.items() if v)}
