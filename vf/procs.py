"""Concurrent forked processes with step-wise control"""
import json
import os
import select
import signal
import sys
import time

from .core import HarnessError, Violation, _child


class Proc:
    """Runs fn(*args) in a forked process; `done` tells whether it ended"""
    def __init__(self, fn, *args):
        sys.stdout.flush()
        sys.stderr.flush()
        self.rfd, wfd = os.pipe()
        self.data = b""
        self.ended = False
        self.status = None
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.rfd)
                _child(fn, args, wfd, None)
            finally:
                os._exit(0)
        os.close(wfd)

    def done(self, timeout=0.0):
        """Wait up to timeout seconds for the end of the process"""
        end = time.monotonic() + timeout
        while not self.ended:
            ready, _, _ = select.select([self.rfd], [], [], max(0.0, end - time.monotonic()))
            if not ready:
                return False
            chunk = os.read(self.rfd, 1 << 16)
            if chunk:
                self.data += chunk
            else:
                self.reap()
        return True

    def reap(self):
        if not self.ended:
            os.close(self.rfd)
            _, self.status = os.waitpid(self.pid, 0)
            self.ended = True

    def kill(self):
        if not self.ended:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.reap()

    def result(self, what):
        """Value of an ended process; errors are violations"""
        if not self.data:
            raise HarnessError(f"{what}: process ended without result (status {self.status})")
        payload = json.loads(self.data)
        if payload["kind"] == "ok":
            return payload["value"]
        if payload["kind"] == "harness":
            raise HarnessError(payload["error"]["msg"])
        raise Violation(f"{what}: {payload['error']['msg']}")


class Gate:
    """Two pipes: a process announces a point and waits for permission"""
    def __init__(self):
        self.go_r, self.go_w = os.pipe()
        self.at_r, self.at_w = os.pipe()

    def action(self):
        return ["pause", self.go_r, self.at_w]

    def announce_and_wait(self):
        os.write(self.at_w, b"p")
        os.read(self.go_r, 1)

    def reached(self, timeout):
        ready, _, _ = select.select([self.at_r], [], [], timeout)
        if ready:
            os.read(self.at_r, 1)
        return bool(ready)

    def open(self):
        os.write(self.go_w, b"g")

    def close(self):
        for fd in (self.go_r, self.go_w, self.at_r, self.at_w):
            os.close(fd)
