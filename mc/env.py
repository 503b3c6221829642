"""Loads the code under test from the current working tree (default /repo).

Nothing is installed and no byte code is written, so the tree stays untouched.
VERIF_REPO can point somewhere else (used only while developing: scratch copies).
"""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")


def load():
    """Import the package from REPO and make sure it really is that one."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import lazy_type_hint

    where = os.path.realpath(lazy_type_hint.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"lazy_type_hint comes from {where}, not from {REPO}")
    return lazy_type_hint
