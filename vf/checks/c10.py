"""C10: a failing git command never causes silent loss"""
import copy

from hypothesis import strategies as st

from .. import edits, faults, gen, store
from .. import model as m
from ..core import CaseDir, Violation, check, describe, is_resource_problem, same, session
from ..gitx import mkrepo, object_reference_entries
from .c06 import collect_garbage, initial_references
from .c09 import norm_part

PROPERTY = "C10"
LEVEL = "fault_enumeration"
NOTE = ("Histories in which chosen git commands fail (without or after having had their effect); after each failure the in-memory content, the "
        "stored objects and the object references are compared with the model, and the operation is repeated. Sessions and fault points are sampled.")
QUICK, THOROUGH = 720, 16000
RULE = ("Hypothesis generates a start state, 1-2 sessions of operations (load, look up, edit, give back, drop, write, flush) and the indices of "
        "1-4 git commands that fail (error code or signal), either without being executed or after having had their effect and written some output. If an operation raises, it is repeated. "
        "Memory is compared in forked processes, the repository by an independent reader, and finally after git gc --prune=now. "
        "Non-trivial: at least one git command failed and at least one edit was made.")
ASSUMPTIONS = ["a failing git command reports its failure by its exit code, or is terminated by a signal",
               "after an operation that raised, the same operation is repeated before other operations depend on its effect"]


def strategy(tier):
    names = gen.weighted(gen.plain_name, gen.plain_name, gen.plain_name, gen.name)
    top = st.tuples(st.just("write"), st.sampled_from(["tvl", "us"]), st.just("t"), st.just(0), st.just(0), st.just(0)).map(list)
    op = edits.operations(names, weights="edit")
    plain = edits.operations(names, weights="plain")
    ops = gen.sized_list(gen.weighted(op, op, plain, plain, top, st.just(["flush"])), 3, 7 if tier == "quick" else 16)
    fault = st.tuples(gen.weighted(st.integers(0, 30), st.integers(0, 120)), st.sampled_from(["fail", "fail", "late", "signal", "torn"])).map(list)
    one = st.fixed_dictionaries({"ops": ops, "final": st.sampled_from(["tuf", "utf", "tfuf"]),
                                 "faults": st.lists(fault, min_size=1, max_size=4, unique_by=lambda f: f[0])})
    return st.fixed_dictionaries({"init": edits.initial_store(names, richer=True),
                                  "sessions": st.lists(one, min_size=1, max_size=2 if tier == "quick" else 3)})


class Session:
    def __init__(self, realm, stored, fault_list):
        self.realm, self.stored = realm, stored
        self.entries = object_reference_entries(realm)
        self.plan = faults.install({index: action for index, action in fault_list})
        self.failures = 0

    def what(self, op):
        done = [f"{i} {self.plan.log[i]} {self.plan.actions[i]}" for i in self.plan.hit]
        return f"{op} (failed git commands: {done})"

    def forked(self, fn, *args, what):
        plan = faults.suspend()
        try:
            return session(fn, *args, what=what)
        finally:
            faults.resume(plan)

    def perform(self, fn, op):
        """-> result of fn(); repeats it as long as injected failures make it raise"""
        while True:
            hits = len(self.plan.hit)
            try:
                return fn()
            except Violation as e:
                if len(self.plan.hit) == hits:
                    raise
                # the harness saw a wrong result, which an error reported by git must not cause
                raise Violation(f"{self.what(op)}: wrong result instead of an error: {e}")
            except Exception as e:
                if is_resource_problem(e):
                    raise
                if len(self.plan.hit) == hits:
                    raise Violation(f"{self.what(op)}: error without failing git command: {describe(e)}")
                self.failures += 1
                self.check_failed(op)

    def check_failed(self, op):
        what = "after failure of " + self.what(op)
        if self.editor is not None:
            self.forked(self.editor.compare_memory, what, what=what)
        self.check_stored(what)

    def check_stored(self, what):
        actual = store.read_store(self.realm)
        for part in ("tvl", "uuid"):
            allowed = [self.editor.stored[part] if self.editor is not None else self.stored[part]]
            if self.editor is not None:
                allowed.append(self.editor.canonical()[part])
            got = norm_part(part, actual[part])
            check(any(got == norm_part(part, a) for a in allowed), f"{what}: stored {part} is neither the old nor the new one: {got}")
        now = object_reference_entries(self.realm)
        bad = [e for e, mode in now.items() if mode == "?"]
        check(not bad, f"{what}: object references damaged: {bad[:3]}")
        lost = set(self.entries) - set(now)
        check(not lost, f"{what}: object references lost: {sorted(lost)[:3]}")
        self.entries = now

    def run(self, ops, final):
        self.editor = None
        self.editor = editor = self.perform(lambda: edits.Editor(self.realm, self.stored), "load")
        for op in ops:
            hits = len(self.plan.hit)
            self.perform(lambda: editor.apply(copy.deepcopy(op)), op)
            if len(self.plan.hit) != hits:
                what = "after repeating " + self.what(op)
                self.forked(editor.compare_memory, what, what=what)
                self.check_stored(what)
        for c in final:
            if c == "f":
                self.perform(editor.op_flush, "flush")
            else:
                self.perform(lambda: editor.op_write("tvl" if c == "t" else "us", "t", 0, 0, 0), "write " + c)
            self.check_stored("after final " + self.what(c))
        same(m.norm("store", store.read_store(self.realm)), m.norm("store", editor.canonical()), f"stored content at the end ({self.what('')})")
        return {"stored": editor.stored, "stats": editor.stats, "failures": self.failures,
                "hit": [f"{self.plan.log[i]} {self.plan.actions[i]}" for i in self.plan.hit]}


def run_session(realm, stored, one):
    return Session(realm, stored, one["faults"]).run(one["ops"], one["final"])


def run_case(case):
    tags, edit_count, failures = set(), 0, 0
    with CaseDir() as d:
        realm = mkrepo(d + "/r")
        stored = case["init"]
        store.Writer(realm).store(stored)
        initial_references(realm, stored)
        for n, one in enumerate(case["sessions"]):
            result = session(run_session, realm, stored, one, what=f"session {n}")
            stored = result["stored"]
            tags |= set(result["hit"])
            failures += len(result["hit"])
            edit_count += sum(v for k, v in result["stats"].items() if k.split()[0] in ("set", "add", "delete", "attach", "run"))
        collect_garbage(realm, [], stored, "at the end")
        same(m.norm("store", session(m.dump_store, realm, what="load at the end")), m.norm("store", stored), "content loaded at the end")
    return {"nontrivial": failures > 0 and edit_count > 0, "tags": sorted(tags)}
