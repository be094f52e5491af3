"""Faults at the boundary between the software and git

`install()` replaces subprocess.Popen in this (session) process. All ways of the
standard library to start a command (run, call, check_output, ...) use it.
"""
import os
import subprocess
import time

_original = subprocess.Popen
_plan = None


class Plan:
    """
    actions: {index of the git command: action}, with action one of
      "fail"         the command is not executed and fails
      "late"         the command is executed, but reports a failure
      "signal"       the command is terminated by a signal before it did anything
      "torn"         the command is terminated by a signal, after it had its effect and wrote a part of its output
      "kill-before"  the process is killed before the command is started
      "kill-after"   the process is killed after the command ended
      ["pause", r, w]  before the command: write a byte to fd w, wait for a byte on fd r
      ["delay", s]   sleep s seconds before the command
    """
    def __init__(self, actions=None):
        self.actions = actions or {}
        self.count = 0
        self.log = []
        self.hit = []
        self.observer = None    # called with (index, git sub-command) before every git command


def is_git(args):
    if isinstance(args, (str, bytes)):
        return "git" in (args if isinstance(args, str) else args.decode(errors="replace"))
    return len(args) > 0 and os.path.basename(os.fspath(args[0])) == "git"


def kind_of(args):
    words = args.split() if isinstance(args, str) else [os.fsdecode(a) for a in args]
    skip = False
    for w in words[1:]:
        if skip:
            skip = False
            continue
        if w in ("--git-dir", "-C", "--work-tree", "-c"):
            skip = True
        elif not w.startswith("-"):
            return w
    return "?"


class FaultyPopen(_original):
    def __init__(self, args, *rest, **kwargs):
        plan = _plan
        if plan is not None and is_git(args):
            index = plan.count
            plan.count += 1
            plan.log.append(kind_of(args))
            if plan.observer is not None:
                plan.observer(index, plan.log[-1])
            action = plan.actions.get(index)
            if action is not None:
                plan.hit.append(index)
                shell = kwargs.pop("shell", False)
                command = ["sh", "-c", args] if shell or isinstance(args, str) else list(args)
                if action == "fail":
                    args = ["sh", "-c", "echo 'fatal: injected failure' >&2; exit 128"]
                    kwargs.pop("executable", None)
                elif action == "late":
                    args = ["sh", "-c", '"$@"; echo "fatal: injected failure" >&2; exit 128', "x", *command]
                elif action == "signal":
                    args = ["sh", "-c", "kill -9 $$"]
                    kwargs.pop("executable", None)
                elif action == "torn":
                    args = ["sh", "-c", 't=$(mktemp); "$@" > "$t"; n=$(wc -c < "$t"); head -c $((n * 2 / 3)) "$t"; rm -f "$t"; kill -9 $$',
                            "x", *command]
                elif action == "kill-before":
                    os.kill(os.getpid(), 9)
                elif action == "kill-after":
                    args = ["sh", "-c", '"$@"; kill -9 $PPID', "x", *command]
                elif action[0] == "pause":
                    os.write(action[2], b"p")
                    os.read(action[1], 1)
                    args = command
                elif action[0] == "delay":
                    time.sleep(action[1])
                    args = command
        super().__init__(args, *rest, **kwargs)


def install(actions=None):
    """Start counting (and injecting); -> the plan"""
    global _plan
    subprocess.Popen = FaultyPopen
    _plan = Plan(actions)
    return _plan


def suspend():
    global _plan
    plan, _plan = _plan, None
    return plan


def resume(plan):
    global _plan
    _plan = plan
