"""C04: a successful write makes the destination self-sufficient"""
from hypothesis import strategies as st

from .. import edits, gen, multi, store
from .. import model as m
from ..core import CaseDir, same, session
from ..gitx import clone_dir, mkrepo

PROPERTY = "C04"
LEVEL = "exploration"
NOTE = ("Model-based histories of edits and writes of every kind of object to three repositories; each destination is read alone by "
        "an independent reader of the format. Sampled; trusts git and the model.")
QUICK, THOROUGH = 720, 24000
RULE = ("Hypothesis generates a stored start state in repository 0 and a session of edits, drops and writes of objects of every level "
        "to three repositories (one of them may start as a copy of repository 0). After a write that returns, the destination alone "
        "has to contain the current content (independent reader); after a refused write the in-memory content is compared with the "
        "model, and a refusal is only accepted if parts are not loaded. At the end everything has to be writable to repository 0. "
        "Non-trivial: at least one write to another repository and one edit.")
ASSUMPTIONS = ["what a refused write leaves behind in the destination is not specified"]


def strategy(tier):
    base = edits.operations(weights="plain")
    drops = edits.operations(weights="drop")
    levels = st.sampled_from(["tvl", "tvl", "us", "us", "dt", "vl", "record", "dm", "ft", "ft", "node", "md"])
    write = st.tuples(st.just("write_to"), st.integers(0, 2), levels, edits.side, edits.index, edits.index, edits.index).map(list)
    load = st.just(["load_all"])
    op = gen.weighted(base, base, base, write, write, write, write, load, drops)
    return st.fixed_dictionaries({
        "init": edits.initial_store(), "clone": st.booleans(),
        "ops": gen.sized_list(op, 5, 14 if tier == "quick" else 30)})


def run_case(case):
    with CaseDir() as d:
        realms = [mkrepo(d + "/r0"), mkrepo(d + "/r1")]
        store.Writer(realms[0]).store(case["init"])
        realms.append(clone_dir(realms[0], d + "/r2") if case["clone"] else mkrepo(d + "/r2"))
        result = session(multi.run_session, realms, case["init"], case["ops"])
        for index in (0, 1, 2):
            tops = result["tops"][index]
            if len(tops) == 2:
                loaded = m.norm("store", session(m.dump_store, realms[index], what=f"load realm {index}"))
                same(loaded, {"tvl": tops["tvl"], "uuid": tops["us"]}, f"content of realm {index} in a new process")
    stats = result["stats"]
    other = any("to other realm" in k for k in stats)
    edited = any(k.split()[0] in ("set", "add", "delete", "attach", "run") for k in stats)
    return {"nontrivial": other and edited, "tags": sorted(stats)}
