"""C02: edit sessions accumulate exactly"""
from hypothesis import strategies as st

from .. import edits, gen, store
from .. import model as m
from ..core import CaseDir, same, session
from ..gitx import mkrepo

PROPERTY = "C02"
LEVEL = "exploration"
NOTE = "Model-based histories of edit sessions; final state compared by an independent reader of the format and by a new process. Sampled; trusts git and the model."
QUICK, THOROUGH = 640, 24000
RULE = ("Hypothesis generates a stored start state (written by an independent writer of the format, or empty, or partial) and 1-4 "
        "sessions of up to 10 operations (add, replace, remove at every level, write, give back, drop, read, flush), each executed "
        "in its own process against a reference model; after each session an independent reader, and at the end a new process "
        "of the project, read the repository. Non-trivial: at least 2 effective edits and at least one store or drop operation.")
ASSUMPTIONS = ["parts are reached by navigation from the top-level objects; modifications through objects that are yielded by an "
               "iteration are not claimed"]
WEIGHTS = "edit"
VERIFY_EACH = False


def strategy(tier):
    ops = gen.sized_list(edits.operations(weights=WEIGHTS), 5, 12 if tier == "quick" else 30)
    one = st.tuples(ops, edits.finals).map(list)
    return st.fixed_dictionaries({
        "init": edits.initial_store(),
        "sessions": st.lists(one, min_size=1, max_size=3 if tier == "quick" else 6)})


def run_case(case):
    stats = {}
    with CaseDir() as d:
        realm = mkrepo(d + "/r")
        stored = case["init"]
        store.Writer(realm).store(stored)
        for n, (ops, final) in enumerate(case["sessions"]):
            result = session(edits.run_session, realm, stored, ops, final, VERIFY_EACH, what=f"session {n}")
            stored = result["stored"]
            for k, v in result["stats"].items():
                stats[k] = stats.get(k, 0) + v
            same(m.norm("store", store.read_store(realm)), m.norm("store", stored), f"stored content after session {n}")
        same(m.norm("store", session(m.dump_store, realm, what="load")), m.norm("store", stored), "content loaded by a new process")
    edit_count = sum(v for k, v in stats.items() if k.split()[0] in ("set", "add", "delete", "attach", "run"))
    drop_count = sum(v for k, v in stats.items() if k.split()[0] in ("purged", "give", "purge"))
    return {"nontrivial": edit_count >= 2 and drop_count >= 1, "tags": sorted(stats)}
