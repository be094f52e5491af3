"""Violations, sessions in forked processes, per-case scratch directories"""
import errno
import json
import os
import select
import shutil
import signal
import sys
import time
import traceback

from . import env


class Violation(Exception):
    """The code under test broke the property"""


class HarnessError(Exception):
    """The harness could not decide the case (never a violation)"""


RESOURCE_ERRNOS = (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.EDQUOT)
RESOURCE_TEXTS = ("No space left on device", "Cannot allocate memory", "Too many open files",
                  "Resource temporarily unavailable", "Disk quota exceeded")


def is_resource_problem(exc) -> bool:
    if isinstance(exc, MemoryError):
        return True
    if isinstance(exc, OSError) and exc.errno in RESOURCE_ERRNOS:
        return True
    return any(text in str(exc) for text in RESOURCE_TEXTS)


def describe(exc) -> str:
    frames = traceback.extract_tb(exc.__traceback__)
    where = [f"{os.path.relpath(f.filename, env.REPO) if f.filename.startswith(env.REPO) else os.path.basename(f.filename)}:{f.lineno} {f.name}"
             for f in frames][-14:]
    return f"{type(exc).__name__}: {str(exc)[:600]} [{' < '.join(reversed(where))}]"


def canon(obj) -> str:
    return json.dumps(obj, sort_keys=True)


def same(actual, expected, what):
    if canon(actual) != canon(expected):
        raise Violation(f"{what}: expected {short(expected)}, got {short(actual)}")


def check(condition, what):
    if not condition:
        raise Violation(what)


def short(obj, limit=700) -> str:
    s = canon(obj) if not isinstance(obj, str) else obj
    return s if len(s) <= limit else s[:limit] + f"...({len(s)})"


# ---------------------------------------------------------------- sessions

SESSION_TIMEOUT = 150


class Outcome:
    """Result of a session: value, or an error raised by the session"""
    def __init__(self, kind, value=None, error=None, status=None):
        self.kind = kind            # "ok", "error", "violation", "killed"
        self.value = value
        self.error = error          # {"type":, "msg":}
        self.status = status


def _child(fn, args, wfd, prepare):
    payload = None
    try:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(0)
        if prepare is not None:
            prepare()
        payload = {"kind": "ok", "value": fn(*args)}
        data = json.dumps(payload)
    except Violation as e:
        data = json.dumps({"kind": "violation", "error": {"type": "Violation", "msg": str(e)}})
    except HarnessError as e:
        data = json.dumps({"kind": "harness", "error": {"type": "HarnessError", "msg": str(e)}})
    except BaseException as e:
        kind = "harness" if is_resource_problem(e) else "error"
        data = json.dumps({"kind": kind, "error": {"type": type(e).__name__, "msg": describe(e)}})
    with os.fdopen(wfd, "w") as f:
        f.write(data)


def attempt(fn, *args, prepare=None, timeout=SESSION_TIMEOUT) -> Outcome:
    """Run fn(*args) in a forked process and return what happened"""
    sys.stdout.flush()
    sys.stderr.flush()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            _child(fn, args, wfd, prepare)
        finally:
            os._exit(0)
    os.close(wfd)
    chunks = []
    end = time.monotonic() + timeout
    timed_out = False
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            ready, _, _ = select.select([rfd], [], [], left)
            if not ready:
                timed_out = True
                break
            chunk = os.read(rfd, 1 << 16)
            if not chunk:
                break
            chunks.append(chunk)
    finally:
        os.close(rfd)
        if timed_out:
            os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
    if timed_out:
        raise HarnessError(f"session did not end within {timeout} s")
    data = b"".join(chunks)
    if not data:
        return Outcome("killed", status=status)
    try:
        payload = json.loads(data)
    except ValueError:
        return Outcome("killed", status=status)
    if payload["kind"] == "harness":
        raise HarnessError(payload["error"]["msg"])
    return Outcome(payload["kind"], payload.get("value"), payload.get("error"), status)


def session(fn, *args, prepare=None, what=None, timeout=SESSION_TIMEOUT):
    """Run fn(*args) in a new process. Every error in it is a violation."""
    outcome = attempt(fn, *args, prepare=prepare, timeout=timeout)
    if outcome.kind == "ok":
        return outcome.value
    label = what or getattr(fn, "__name__", "session")
    if outcome.kind == "violation":
        raise Violation(outcome.error["msg"])
    if outcome.kind == "error":
        raise Violation(f"{label}: unexpected error: {outcome.error['msg']}")
    raise HarnessError(f"{label}: session process ended without result (status {outcome.status})")


# ---------------------------------------------------------------- scratch

_case_counter = 0


class CaseDir:
    """A fresh directory for a case, removed afterwards"""
    def __enter__(self):
        global _case_counter
        _case_counter += 1
        self.path = os.path.join(env.SCRATCH, f"c{os.getpid()}_{_case_counter}")
        os.makedirs(self.path)
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)
