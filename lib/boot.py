"""Paths and imports shared by all checks.

The code under test is always imported from the working tree of /repo
(VERIF_REPO can point somewhere else while developing, e.g. at a scratch copy
with a planted bug; the registered commands never set it)."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.setrecursionlimit(10000)
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
_site = "/opt/venv/lib/python3.12/site-packages"
if os.path.isdir(_site) and _site not in sys.path:
    sys.path.append(_site)
try:
    import pymysql  # noqa: F401
    import pymysql.cursors  # noqa: F401
except Exception:  # a stand-in is enough: no check ever opens a real connection
    import types

    m = types.ModuleType("pymysql")
    m.cursors = types.ModuleType("pymysql.cursors")
    m.cursors.DictCursor = type("DictCursor", (), {})

    def _refuse(*a, **k):
        raise RuntimeError("no real connections here")

    m.connect = _refuse
    sys.modules["pymysql"] = m
    sys.modules["pymysql.cursors"] = m.cursors


class Violation(Exception):
    """The property does not hold on this case."""


class Skip(Exception):
    """The generated case is outside the property's domain."""
