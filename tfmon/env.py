"""Process environment shared by all monitored executions.

The code under test is imported from $TFMON_REPO (default /repo): never installed,
never copied, no byte code written next to it.
"""
import os
import sys

REPO = os.path.abspath(os.environ.get("TFMON_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.abspath(os.environ.get("TFMON_EVIDENCE", os.path.join(VERIF, "evidence")))
PYTHON = os.environ.get("TFMON_PYTHON", "/opt/venv/bin/python")


def child_env(scratch):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TFMON_REPO", "VERIF_SEED", "VERIF_TIER")}
    env.setdefault("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.update(
        LANG="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF,
        MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"), TMPDIR=scratch,
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
        # sanitizer-like switches available for this stack: bounds checks in the JIT'd kernels,
        # fault handler for the native extensions (Minuit, numba, OpenBLAS)
        NUMBA_BOUNDSCHECK="1", PYTHONFAULTHANDLER="1", PYTHONWARNINGS="ignore",
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
    )
    return env


def setup_import_path():
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    import templatefitter
    got = os.path.abspath(templatefitter.__file__)
    if not got.startswith(REPO + os.sep):
        raise RuntimeError(f"templatefitter imported from {got}, expected below {REPO}")
