"""Environment of the harness: paths, interpreter set-up, scratch space.

Importing this module prepares the process for importing the code under test
from /repo. It must be imported before anything from `dataladmetadatamodel`.
"""
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
PYTHON = "/opt/veriftools/pyvenv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"

GIT_ENV = {
    "GIT_CONFIG_GLOBAL": "/dev/null",
    "GIT_CONFIG_SYSTEM": "/dev/null",
    "GIT_CONFIG_NOSYSTEM": "1",
    "GIT_TERMINAL_PROMPT": "0",
    "GIT_AUTHOR_NAME": "vf", "GIT_AUTHOR_EMAIL": "vf@example.com",
    "GIT_COMMITTER_NAME": "vf", "GIT_COMMITTER_EMAIL": "vf@example.com",
    "LANG": "C.UTF-8",
    "PYTHONDONTWRITEBYTECODE": "1",
}


def scratch_parent() -> str:
    for candidate in ("/dev/shm", tempfile.gettempdir()):
        try:
            st = os.statvfs(candidate)
            if st.f_bavail * st.f_frsize > 512 * 1024 * 1024 and os.access(candidate, os.W_OK | os.X_OK):
                return candidate
        except OSError:
            pass
    return tempfile.gettempdir()


SCRATCH = None


def setup(scratch=None):
    """Prepare this process; returns the scratch directory of the process"""
    global SCRATCH
    for name in list(os.environ):
        if name.startswith("GIT_") or name.startswith("LC_"):
            del os.environ[name]
    os.environ.update(GIT_ENV)
    if scratch is None:
        scratch = tempfile.mkdtemp(prefix="vf-", dir=scratch_parent())
    SCRATCH = scratch
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    os.environ["HOME"] = home
    os.environ["XDG_CACHE_HOME"] = os.path.join(home, "cache")
    os.environ["XDG_CONFIG_HOME"] = os.path.join(home, "config")
    tmp = os.path.join(scratch, "tmp")
    os.makedirs(tmp, exist_ok=True)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if SITE not in sys.path:
        sys.path.append(SITE)
    import logging
    logging.disable(logging.CRITICAL)
    return scratch


def cleanup(scratch):
    if scratch and os.path.basename(scratch).startswith("vf-"):
        shutil.rmtree(scratch, ignore_errors=True)
