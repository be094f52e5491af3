"""Editing and writing to several repositories"""
import copy

from . import store
from . import model as m
from .core import Violation, attempt, check, same
from .edits import Editor, to_list


def content_at(realm, kind, location):
    """Content that the repository has alone, read by the independent reader"""
    if location == store.NONE:
        return {"tvl": [], "vl": [], "us": {}, "dt": {}, "ft": None, "node": None}[kind]
    return m.norm(kind, store.read_kind(realm, kind, location))


class MultiEditor(Editor):
    """Editor for a store in realms[0] that writes to all realms"""
    def __init__(self, realms, stored):
        super().__init__(realms[0], stored)
        self.realms = realms
        self.tops = [dict() for _ in realms]    # what the top-level references of the realms have to contain
        for kind, part in (("tvl", "tvl"), ("us", "uuid")):
            if stored[part] is not None:
                self.tops[0][kind] = m.norm(kind, stored[part])
        self.loaded = False         # everything is in memory
        self.elsewhere = False      # something was dropped after it was written to another realm than the first one
        self.other = False          # something was written to another realm

    def apply(self, op):
        if op[0] in ("purge", "unget", "settle", "rework"):
            self.loaded = False
            # (a refused drop might have dropped parts)
            self.elsewhere = self.elsewhere or self.other
            try:
                super().apply(op)
            except RuntimeError as e:
                # giving back writes to the first realm, that cannot succeed if a
                # part was dropped that was only stored on another one
                if op[0] != "unget" or not self.elsewhere:
                    raise
                self.count("giving back refused")
                self.verify(f"after refused {op}: {str(e)[:200]}")
        else:
            if op[0] == "graft":
                self.loaded = False     # deep copies are not in memory
            super().apply(op)

    def op_load_all(self):
        self.compare_memory("load all")
        self.loaded = True
        self.count("load all")

    def op_write(self, level, side, i, j, k):
        self.op_write_to(0, level, side, i, j, k)

    def op_write_to(self, realm_index, level, side, i, j, k):
        index = realm_index % len(self.realms)
        realm = self.realms[index]
        found = self.select(level, side, i, j, k)
        if found is None:
            return
        obj, kind, model = found
        expected = copy.deepcopy(m.norm(kind, model))
        top = level in ("tvl", "us")
        try:
            reference = obj.write_out(realm)
        except Exception as e:
            self.count("refused")
            if self.loaded:
                raise Violation(f"write of completely loaded {level} to realm {index} failed: {type(e).__name__}: {str(e)[:200]}")
            if index == 0 and not self.elsewhere:
                raise Violation(f"write of {level} to its own realm failed: {type(e).__name__}: {str(e)[:200]}")
            if top:
                self.tops[index].pop(kind, None)       # not claimed
            self.verify(f"after refused write of {level}")
            return
        if index != 0:
            self.other = True
        self.count(f"write {level} to {'own' if index == 0 else 'other'} realm")
        same(content_at(realm, kind, reference.location), expected, f"{level} written to realm {index}")
        if top:
            self.tops[index][kind] = expected
        self.verify_tops(f"after write of {level} to realm {index}")
        self.verify(f"after write of {level} to realm {index}")

    def verify_tops(self, what):
        for index, realm in enumerate(self.realms):
            actual = store.read_store(realm)
            for kind, part in (("tvl", "tvl"), ("us", "uuid")):
                if kind in self.tops[index]:
                    same(None if actual[part] is None else m.norm(kind, actual[part]), self.tops[index][kind],
                         f"{what}: top-level {kind} of realm {index}")


def run_session(realms, stored, ops):
    editor = MultiEditor(realms, stored)
    editor.verify_each = True
    for op in ops:
        editor.apply(op)
    # Finally everything can be written to the realm of origin
    for level in ("tvl", "us"):
        editor.op_write_to(0, level, "t", 0, 0, 0)
    return {"tops": editor.tops, "stats": editor.stats}
