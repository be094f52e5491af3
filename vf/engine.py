"""Sharded, seeded case generation with Hypothesis, shrinking, evidence, replay

A check module (vf/checks/cNN.py) provides
  PROPERTY      id
  LEVEL         level for the evidence
  RULE          how cases are made and what makes one non-trivial
  ASSUMPTIONS   list
  strategy(tier) -> Hypothesis strategy of JSON-able cases
  run_case(case) -> info dict {"nontrivial": bool, "tags": [...]}; raises Violation
  QUICK, THOROUGH   number of cases (over all shards)
  optional: explicit(tier) -> list of cases that are always run
  optional: SHARDS
"""
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time

from . import env

QUICK_CAP = 240.0          # seconds of generation per shard, only reached on slow machines
THOROUGH_CAP = 1500.0
SHRINK_CAP = {"quick": 60.0, "thorough": 240.0}
CASE_ALARM = 400


def key_of(case) -> str:
    return json.dumps(case, sort_keys=True)


def shard_seed(prop, seed, shard) -> int:
    return int.from_bytes(hashlib.sha256(f"{prop}:{seed}:{shard}".encode()).digest()[:6], "big")


class CaseTimeout(BaseException):
    pass


def run_guarded(module, case):
    """-> ("ok", info) | ("violation", message) | ("harness", message)"""
    from .core import HarnessError, Violation, describe, is_resource_problem

    def on_alarm(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(getattr(module, "CASE_TIMEOUT", CASE_ALARM))
    try:
        info = module.run_case(json.loads(json.dumps(case)))
        return "ok", info or {}
    except Violation as e:
        return "violation", str(e)
    except HarnessError as e:
        return "harness", str(e)
    except CaseTimeout:
        return "harness", "case timed out"
    except Exception as e:
        if is_resource_problem(e):
            return "harness", describe(e)
        return "violation", f"unexpected error: {describe(e)}"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def worker(prop, tier, seed, shard, shards, out_path):
    scratch = env.setup(os.environ.get("VF_SHARD_SCRATCH"))
    result = {"evaluations": 0, "nontrivial": [], "tags": {}, "samples": [], "violation": None, "harness": None,
              "capped": False, "invalid": 0}
    try:
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis import seed as hseed
        module = importlib.import_module(f"vf.checks.{prop.lower()}")
        total = module.QUICK if tier == "quick" else module.THOROUGH
        scale = float(os.environ.get("VF_SCALE", "1"))
        count = max(1, int(total * scale) // shards)
        cap = float(os.environ.get("VF_CAP", QUICK_CAP if tier == "quick" else THOROUGH_CAP))
        start = time.monotonic()
        state = {"first": None, "memo": {}}
        seen = set()

        class Stop(Exception):
            pass

        def fail(message):
            raise Stop(message)

        def record_violation(case, message):
            size = len(key_of(case))
            v = result["violation"]
            if v is None or size < v["size"]:
                result["violation"] = {"case": case, "message": message, "size": size}

        def execute(case):
            k = key_of(case)
            if state["first"] is not None:
                if k in state["memo"]:
                    if state["memo"][k] is not None:
                        fail(state["memo"][k])
                    return
                if time.monotonic() - state["first"] > float(os.environ.get("VF_SHRINK", SHRINK_CAP[tier])):
                    return
            elif time.monotonic() - start > cap:
                result["capped"] = True
                return
            if result["harness"] is not None:
                return
            verdict, data = run_guarded(module, case)
            result["evaluations"] += 1
            if verdict == "harness":
                result["harness"] = {"message": data, "case": case}
                return
            if verdict == "violation":
                if state["first"] is None:
                    state["first"] = time.monotonic()
                state["memo"][k] = data
                record_violation(case, data)
                fail(data)
            if state["first"] is not None:
                state["memo"][k] = None
            for t in data.get("tags", []):
                result["tags"][t] = result["tags"].get(t, 0) + 1
            if data.get("nontrivial"):
                h = hashlib.sha256(k.encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(result["samples"]) < 2 and len(k) < 2500 and (len(seen) > 3 or count < 20):
                        result["samples"].append(case)

        # explicit cases: regressions and hand-picked corners
        explicit = [c for i, c in enumerate(load_corpus(prop) + (module.explicit(tier) if hasattr(module, "explicit") else []))
                    if i % shards == shard]
        for case in explicit:
            try:
                execute(case)
            except Stop:
                break

        if state["first"] is None and result["harness"] is None:
            @hseed(shard_seed(prop, seed, shard))
            @settings(max_examples=count, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
            @given(module.strategy(tier))
            def test(case):
                execute(case)
            try:
                test()
            except Stop:
                pass
            except BaseException as e:      # e.g. Flaky; the recorded violation counts
                if result["violation"] is None:
                    from .core import describe
                    result["harness"] = {"message": "generation failed: " + describe(e), "case": None}
        result["nontrivial"] = sorted(seen)
        result["wall"] = time.monotonic() - start
    except BaseException as e:
        import traceback
        result["harness"] = {"message": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}", "case": None}
    finally:
        with open(out_path + ".tmp", "w") as f:
            json.dump(result, f)
        os.rename(out_path + ".tmp", out_path)
        if not os.environ.get("VF_SHARD_SCRATCH"):
            env.cleanup(scratch)


def load_corpus(prop):
    d = os.path.join(env.VERIF, "vf", "corpus", prop)
    result = []
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            if n.endswith(".json"):
                with open(os.path.join(d, n)) as f:
                    obj = json.load(f)
                result.append(obj["case"] if isinstance(obj, dict) and set(obj) >= {"property", "case"} else obj)
    return result


def known_findings(prop):
    """Lines `finding: property=<id> case=<file> <what fails>`"""
    path = os.path.join(env.VERIF, "known-findings.txt")
    result = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding:"):
                    words = line.split()
                    fields = dict(w.split("=", 1) for w in words[1:3] if "=" in w)
                    if fields.get("property") == prop:
                        result.append((fields["case"], " ".join(words[3:])))
    return result


def write_replay(prop, case, message):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(key_of(case).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "message": message, "case": case}, f, indent=1)
    return path


def replay(prop, path):
    scratch = env.setup()
    try:
        with open(path) as f:
            case = json.load(f)["case"]
        module = importlib.import_module(f"vf.checks.{prop.lower()}")
        verdict, data = run_guarded(module, case)
    finally:
        env.cleanup(scratch)
    print(verdict, data)
    if verdict == "violation":
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0 if verdict == "ok" else 2


def check(prop, tier, seed):
    start = time.monotonic()
    base = env.scratch_parent()
    import tempfile
    work = tempfile.mkdtemp(prefix="vf-", dir=base)
    try:
        return _check(prop, tier, seed, work, start)
    finally:
        env.cleanup(work)


def _check(prop, tier, seed, work, start):
    module_path = os.path.join(env.VERIF, "vf", "checks", f"{prop.lower()}.py")
    if not os.path.exists(module_path):
        print(f"no check for {prop}", file=sys.stderr)
        return 2
    shards = int(os.environ.get("VF_SHARDS", "8"))
    procs = []
    for shard in range(shards):
        out = os.path.join(work, f"out{shard}.json")
        scratch = os.path.join(work, f"vf-s{shard}")
        os.makedirs(scratch)
        environ = dict(os.environ, PYTHONHASHSEED=str(shard), PYTHONDONTWRITEBYTECODE="1", VF_SHARD_SCRATCH=scratch)
        log = open(os.path.join(work, f"log{shard}"), "wb")
        p = subprocess.Popen([sys.executable, os.path.join(env.VERIF, "check.py"), prop, "--tier", tier, "--seed", str(seed),
                              "--worker", f"{shard}/{shards}", "--out", out],
                             env=environ, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, cwd=work,
                             start_new_session=True)
        procs.append((p, out, log))
    limit = 840 if tier == "quick" else 3 * 3600
    stop_at = None
    timed_out = False
    while any(p.poll() is None for p, _, _ in procs):
        time.sleep(0.1)
        now = time.monotonic()
        if stop_at is None:
            for p, out, _ in procs:
                if p.poll() is not None and os.path.exists(out):
                    with open(out) as f:
                        if json.load(f)["violation"] is not None:
                            stop_at = now + 5
                            break
        if (stop_at is not None and now > stop_at) or now - start > limit:
            timed_out = stop_at is None
            for p, _, _ in procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            break
    for p, _, log in procs:
        p.wait()
        log.close()

    results, broken = [], []
    for i, (p, out, _) in enumerate(procs):
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
        elif stop_at is None:
            with open(os.path.join(work, f"log{i}"), "rb") as f:
                broken.append(f"shard {i} gave no result: {f.read()[-1500:].decode(errors='replace')}")
    if timed_out:
        broken.append("time limit reached")

    violations = [r["violation"] for r in results if r["violation"]]
    broken += [r["harness"]["message"] + " case: " + json.dumps(r["harness"]["case"])[:3000] for r in results if r["harness"]]

    env.setup(os.path.join(work, "vf-main"))
    module = importlib.import_module(f"vf.checks.{prop.lower()}")

    known = known_findings(prop)
    for case_file, text in known:
        with open(os.path.join(env.VERIF, case_file)) as f:
            case = json.load(f)["case"]
        verdict, data = run_guarded(module, case)
        if verdict == "violation":
            print(f"KNOWN-FINDING: property={prop} {text} ({data[:300]})")

    nontrivial = set()
    tags = {}
    samples = []
    for r in results:
        nontrivial.update(r["nontrivial"])
        samples.extend(r["samples"])
        for t, n in r["tags"].items():
            tags[t] = tags.get(t, 0) + n
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": module.LEVEL,
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(nontrivial),
            "rule": module.RULE,
            "samples": samples[:4],
            "classes": dict(sorted(tags.items())),
            "shards": shards,
            "generation_stopped_by_time_cap": any(r["capped"] for r in results),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if violations:
        best = min(violations, key=lambda v: v["size"])
        path = write_replay(prop, best["case"], best["message"])
        print(f"{best['message'][:3000]}")
        print(f"case: {json.dumps(best['case'])[:2000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if broken:
        for b in broken[:3]:
            print("HARNESS ERROR:", b[:4000], file=sys.stderr)
        return 2
    print(f"{prop} ok: {evidence['coverage']['evaluations']} cases, {len(nontrivial)} distinct non-trivial, "
          f"{evidence['wall_s']} s; classes {json.dumps(evidence['coverage']['classes'])}")
    return 0
