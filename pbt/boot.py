"""Environment bootstrap: the code under test is imported from /repo's working tree, Hypothesis from
the pre-installed tool venv (appended last, so numpy/scipy/pandas are the project's own)."""
import os
import sys
import warnings

REPO = os.environ.get("PBT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)
sys.dont_write_bytecode = True

warnings.simplefilter('ignore')
import numpy as np  # noqa: E402
np.seterr(all='ignore')
import dfols  # noqa: E402

if not os.path.abspath(dfols.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise RuntimeError("dfols was imported from %s, not from %s" % (dfols.__file__, REPO))
import hypothesis  # noqa: E402,F401
