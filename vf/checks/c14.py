"""C14: extractor runs, one current result per configuration"""
import copy
import json
import time

from hypothesis import strategies as st

from .. import gen, store
from .. import model as m
from ..core import CaseDir, Violation, canon, check, same
from ..gitx import mkrepo

from dataladmetadatamodel.metadata import ExtractorConfiguration, Metadata, MetadataInstance, MetadataInstanceSet  # noqa: E402

PROPERTY = "C14"
LEVEL = "exploration"
NOTE = ("Stateful generation of run sequences with JSON round trips in between against a list model; equality and hashes are compared on variants "
        "of the same history (other order, replaced runs, one field changed, subsets). Sampled; trusts the model.")
QUICK, THOROUGH = 6400, 160000
RULE = ("Hypothesis generates 2-8 runs (few extractors, versions and parameters, so that configurations repeat; nested parameters; arbitrary JSON "
        "content), positions of JSON round trips, a permutation and a field to change. Some cases also store the objects and compare unmapped "
        "objects. Non-trivial: a configuration is used twice, or one extractor has at least 2 configurations.")
ASSUMPTIONS = ["parameters contain no booleans or floats, because Python regards 1, 1.0 and True as equal",
               "content is compared as Python compares it"]


def strategy(tier):
    param = gen.weighted(st.sampled_from([{}, {"p": "1"}, {"p": "2"}, {"q": "1"}, {"p": "1", "q": "2"}, {"q": "2", "p": "1"}, {"p": ["1"]},
                                          {"p": {"x": 2}}, {"p": {"x": 2, "y": []}}, {"p": {"y": [], "x": 2}}, {"p": None}, {"": ""}]),
                         gen.parameter)
    stamp = gen.weighted(gen.time_stamp, st.sampled_from([None, 0, 0.0, -1, -0.5, 1e308]))
    few = st.tuples(st.sampled_from(["core", "ex", ""]), st.sampled_from(["1", "2", ""]), param, stamp,
                    st.sampled_from(["n", "m", ""]), st.sampled_from(["e@x", ""]), gen.content).map(list)
    wide = st.tuples(gen.extractor, gen.conf_version, param, stamp, gen.any_text, gen.any_text, gen.content).map(list)
    return st.fixed_dictionaries({
        "runs": gen.sized_list(gen.weighted(few, few, few, wide), 3, 8 if tier == "quick" else 20),
        "many": gen.weighted(*[st.just(0)] * 19, st.integers(9, 12)),
        "round_trips": st.lists(st.integers(0, 8), max_size=3),
        "order": st.lists(st.integers(0, 100), min_size=8, max_size=8),
        "change": st.tuples(st.integers(0, 20), st.sampled_from(["version", "parameter", "time", "name", "email", "content", "extractor", "drop"])).map(list),
        "stored": gen.weighted(*[st.just(False)] * 9, st.just(True))})


def conf(run):
    return ExtractorConfiguration(run[1], copy.deepcopy(run[2]))


def instance(run):
    return MetadataInstance(run[3], run[4], run[5], conf(run), copy.deepcopy(run[6]))


def add(md, run):
    md.add_extractor_run(run[3], run[0], run[4], run[5], conf(run), copy.deepcopy(run[6]))


def round_trip(md):
    text = md.to_json()
    parsed = store.parse_metadata(json.loads(text))
    same(parsed, m.dump_metadata(md), "JSON form")
    result = Metadata.from_json(text)
    check(result == md and md == result and not (result != md), "metadata differs after a JSON round trip")
    same(json.loads(result.to_json()), json.loads(text), "JSON form after a round trip")
    for ext, iset in md.extractor_runs:
        for again in (MetadataInstanceSet.from_json_str(iset.to_json_str()), MetadataInstanceSet.from_json_obj(iset.to_json_obj())):
            check(again == iset and iset == again, f"instance set of {ext!r} differs after a JSON round trip")
            same(m.dump_instance_set(again), m.dump_instance_set(iset), f"instance set of {ext!r}")
        for inst in iset:
            again = MetadataInstance.from_json_str(inst.to_json_str())
            check(again == inst and inst == again, "instance differs after a JSON round trip")
    return result


def verify(md, model, what):
    """model: {extractor: [run, ...] in the order of first use}"""
    same(sorted(md.extractors), sorted(model), f"{what}: extractors")
    for ext, runs in model.items():
        iset = md.extractor_runs_for_extractor(ext)
        same([[c.version, dict(c.parameter)] for c in iset.configurations], [[r[1], r[2]] for r in runs], f"{what}: configurations of {ext!r}")
        check(len(iset.instances) == len(runs) and len(list(iset)) == len(runs), f"{what}: number of runs of {ext!r}")
        for index, r in enumerate(runs):
            for inst in (iset.get_instance_for_configuration(conf(r)), iset.get_instance_for_configuration_index(index)):
                same([inst.configuration.version, dict(inst.configuration.parameter), inst.time_stamp, inst.author_name, inst.author_email,
                      inst.metadata_content], r[1:], f"{what}: run {index} of {ext!r}")
        same(sorted(canon([i.configuration.version, dict(i.configuration.parameter), i.time_stamp, i.author_name, i.author_email,
                           i.metadata_content]) for i in iset), sorted(canon(r[1:]) for r in runs), f"{what}: iterated runs of {ext!r}")
        missing(lambda: iset.get_instance_for_configuration(ExtractorConfiguration("no such version", {})), f"{what}: unknown configuration")
    missing(lambda: md.extractor_runs_for_extractor("no such extractor"), f"{what}: unknown extractor")


def missing(fn, what):
    try:
        result = fn()
    except (KeyError, ValueError, IndexError):
        return
    raise Violation(f"{what}: got {result}")


def same_runs(a, b):
    """Equality of two lists of current runs, as sets"""
    return len(a) == len(b) and all(any(x == y for y in b) for x in a)


def current(runs):
    model = {}
    for run in runs:
        entries = model.setdefault(run[0], [])
        for i, e in enumerate(entries):
            if e[1] == run[1] and canon(e[2]) == canon(run[2]):
                entries[i] = run
                break
        else:
            entries.append(run)
    return model


def run_case(case):
    runs = [["core", "1", {"n": n}, 1.0, "n", "e@x", n] for n in range(case["many"])] + copy.deepcopy(case["runs"])
    md, ft = Metadata(), m.FileTree()
    path = m.MP("some/file")
    done = []
    for n, run in enumerate(runs):
        before = time.time()
        add(md, run)
        ft.add_extractor_run(path, run[3], run[0], run[4], run[5], conf(run), copy.deepcopy(run[6]))
        after = time.time()
        if run[3] is None:
            for source in (md, ft.get_metadata(path)):
                stamp = source.extractor_runs_for_extractor(run[0]).get_instance_for_configuration(conf(run)).time_stamp
                check(isinstance(stamp, float) and before <= stamp <= after, f"filled in time stamp {stamp}, not between {before} and {after}")
                if source is md:
                    run[3] = stamp
                else:
                    source.extractor_runs_for_extractor(run[0]).get_instance_for_configuration(conf(run)).time_stamp = run[3]
        done.append(run)
        if n in case["round_trips"]:
            md = round_trip(md)
        verify(md, current(done), f"after run {n}")
    model = current(runs)
    verify(ft.get_metadata(path), model, "in a file tree")
    md = round_trip(md)
    verify(md, model, "at the end")

    # Configurations
    confs = [(r, conf(r)) for r in runs]
    for r, c in confs:
        check(ExtractorConfiguration.from_json_str(c.to_json_str()) == c == ExtractorConfiguration.from_json_obj(c.to_json_obj()),
              f"configuration {r[1:3]} differs after a JSON round trip")
        for s, d in confs:
            equal = r[1] == s[1] and canon(r[2]) == canon(s[2])
            check((c == d) == equal and (c != d) == (not equal), f"equality of configurations {r[1:3]} and {s[1:3]}")
            check(not equal or hash(c) == hash(d), f"hash of equal configurations {r[1:3]} and {s[1:3]}")

    # Runs
    for r in runs:
        other_run = [r, [r[0], r[1] + "'", *r[2:]], [*r[:2], {**r[2], "new parameter": "x"}, *r[3:]], [*r[:3], 7.25, *r[4:]],
                     [*r[:4], r[4] + "'", *r[5:]], [*r[:5], r[5] + "'", r[6]], [*r[:6], {"changed": 1}]]
        for s in runs + other_run:
            a, b, equal = instance(r), instance(s), r[1:] == s[1:]
            check((a == b) == equal and (b == a) == equal and (a != b) == (not equal), f"equality of runs {r[1:]} and {s[1:]}")

    # Equality of objects with other histories
    flat = [r for entries in model.values() for r in entries]
    keys = case["order"]
    permuted = sorted(flat, key=lambda r: keys[flat.index(r) % len(keys)])
    variants = [("another order", permuted), ("runs that were replaced",
                [[r[0], r[1], r[2], 12.5, "replaced", "replaced", {"replaced": 1}] for r in permuted] + flat)]
    index, field = case["change"]
    changed = copy.deepcopy(flat)
    target = changed[index % len(changed)]
    if field == "drop":
        changed.remove(target)
    elif field == "parameter":
        target[2] = {**target[2], "new parameter": "x"}
    else:
        position = {"version": 1, "time": 3, "name": 4, "email": 5, "content": 6, "extractor": 0}[field]
        target[position] = 7.25 if field == "time" else {"changed": 1} if field == "content" else target[position] + "'"
    variants.append((f"changed {field}", changed))
    others = []
    for name, variant in variants:
        other = Metadata()
        for r in variant:
            add(other, r)
        others.append((name, variant, other))
        expected = same_runs(flat, [r for e in current(variant).values() for r in e])
        check((md == other) == expected and (other == md) == expected and (md != other) == (not expected), f"equality with {name} is not {expected}")
        for ext in model:
            if ext in list(other.extractors):
                a, b = md.extractor_runs_for_extractor(ext), other.extractor_runs_for_extractor(ext)
                expected = same_runs(model[ext], current(variant)[ext])
                check((a == b) == expected and (b == a) == expected, f"equality of the instance set of {ext!r} with {name} is not {expected}")
        direct = {ext: MetadataInstanceSet([instance(r) for r in variant if r[0] == ext]) for ext in current(variant)}
        for ext, iset in direct.items():
            check(iset == other.extractor_runs_for_extractor(ext), f"instance set of {ext!r} made from instances")
    if case["stored"]:
        with CaseDir() as d:
            realm = mkrepo(d + "/r")

            def unmapped(obj):
                return m.load("md", realm, Metadata.from_json(obj.to_json()).write_out(realm).to_json_obj())
            for name, variant, other in others:
                expected = same_runs(flat, [r for e in current(variant).values() for r in e])
                check((unmapped(md) == unmapped(other)) == expected, f"equality of unmapped objects with {name} is not {expected}")
                check((unmapped(md) == other) == expected and (other == unmapped(md)) == expected, f"equality with an unmapped object, {name}")
    repeated = len(flat) < len(runs)
    several = any(len(e) > 1 for e in model.values())
    return {"nontrivial": repeated or several,
            "tags": (["repeated configuration"] if repeated else []) + (["several configurations"] if several else []) + [f"changed {field}"] +
                    (["stored"] if case["stored"] else [])}
