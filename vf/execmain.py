"""Executes one function call in a fresh interpreter: `python -m vf.execmain`

The call is read as JSON from stdin, the outcome is written as JSON to stdout.
In contrast to a forked session, the process gets its own environment (hash
seed, locale, working directory, git configuration).
"""
import importlib
import json
import logging
import os
import subprocess
import sys


def main():
    out = os.fdopen(os.dup(1), "w", encoding="ascii")
    os.dup2(2, 1)
    job = json.loads(sys.stdin.buffer.read())
    sys.dont_write_bytecode = True
    from vf import core, env
    sys.path.insert(0, env.REPO)
    sys.path.append(env.SITE)
    logging.disable(logging.CRITICAL)
    try:
        fn = getattr(importlib.import_module(job["module"]), job["fn"])
        result = {"kind": "ok", "value": fn(*job["args"])}
    except core.Violation as e:
        result = {"kind": "violation", "msg": str(e)}
    except core.HarnessError as e:
        result = {"kind": "harness", "msg": str(e)}
    except BaseException as e:
        result = {"kind": "harness" if core.is_resource_problem(e) else "error", "msg": core.describe(e)}
    out.write(json.dumps(result))
    out.flush()


def call(fn, *args, env=None, cwd=None, umask=-1, what=None, timeout=150):
    """Run fn(*args) in a fresh interpreter; every error in it is a violation"""
    from . import core
    from . import env as vfenv
    what = what or fn.__name__
    full = {**os.environ, "PYTHONPATH": vfenv.VERIF, "PYTHONDONTWRITEBYTECODE": "1", **(env or {})}
    full = {k: v for k, v in full.items() if v is not None}
    try:
        result = subprocess.run(
            [vfenv.PYTHON, "-m", "vf.execmain"], env=full, cwd=cwd, umask=umask, timeout=timeout,
            input=json.dumps({"module": fn.__module__, "fn": fn.__name__, "args": list(args)}).encode(),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        raise core.HarnessError(f"{what}: no end within {timeout} s")
    try:
        outcome = json.loads(result.stdout)
    except ValueError:
        raise core.HarnessError(f"{what}: no result, exit code {result.returncode}: {result.stderr.decode(errors='replace')[-500:]}")
    if outcome["kind"] == "ok":
        return outcome["value"]
    if outcome["kind"] == "harness":
        raise core.HarnessError(outcome["msg"])
    raise core.Violation(f"{what}: {outcome['msg']}" if outcome["kind"] == "violation" else f"{what}: unexpected error: {outcome['msg']}")


if __name__ == "__main__":
    main()
