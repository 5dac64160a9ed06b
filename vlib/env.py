"""Process environment of the checks: import paths, warnings, limits."""
import os
import sys
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)
_EXTRA = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _EXTRA not in sys.path:
    sys.path.append(_EXTRA)          # hypothesis only: numpy stays /opt/venv's
warnings.simplefilter("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUT_DIR = os.path.join(REPO_SRC, "mfpml") + os.sep
