#!/opt/venv/bin/python
"""usage: run_check.py ID [--tier quick|thorough] [--replay FILE]"""
import os
import sys


def args():
    pid, tier, replay = sys.argv[1].upper(), None, None
    rest = sys.argv[2:]
    while rest:
        opt = rest.pop(0)
        if opt == "--tier":
            tier = rest.pop(0)
        elif opt == "--replay":
            replay = rest.pop(0)
        else:
            raise SystemExit(f"unknown option {opt}")
    return pid, tier, replay


if __name__ == "__main__":
    PID, TIER, REPLAY = args()
    # a fixed hash seed per run makes a run reproducible; the property about the
    # independence of the hash seed starts its own interpreters.
    want = str(int(os.environ.get("VERIF_SEED", "1") or 1) % 4000000000)
    if os.environ.get("VERIF_CHILD") != "1":
        env = dict(os.environ, VERIF_CHILD="1", PYTHONHASHSEED=want)
        env.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        env.update(SURFACE_SIM_MONITOR="1")  # the guard of the hooks in /repo
        env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
        os.execve(sys.executable, [sys.executable, *sys.argv], env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    from vlib import core

    sys.exit(core.main(PID, TIER, REPLAY))
