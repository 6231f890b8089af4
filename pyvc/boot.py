"""Import the code under verification from /repo (never a copy)."""
import os
import sys

REPO = os.environ.get("PYVC_REPO", "/repo")
sys.dont_write_bytecode = True
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"


def boot():
    """Put /repo and the interpreter's dependencies of /repo first on sys.path."""
    for p in (VENV_SITE, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
        else:
            sys.path.remove(p)
            sys.path.insert(0, p)
    import pddl

    assert os.path.realpath(pddl.__file__).startswith(os.path.realpath(REPO)), pddl.__file__


boot()
