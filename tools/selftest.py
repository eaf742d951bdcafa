"""setup_cmd: nothing is built, it verifies that what the checks need is there."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
os.environ.setdefault("MPLBACKEND", "Agg")

import stim  # noqa: E402
import surface_sim  # noqa: E402

root = os.path.dirname(os.path.dirname(os.path.abspath(surface_sim.__file__)))
assert os.path.realpath(root) == os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), root

from vlib import canon  # noqa: E402

# the oracles' own assumptions about the executor
a = canon.Canon(stim.Circuit("H 0 1\nTICK\nM 0 1\nDETECTOR rec[-1]"))
b = canon.Canon(stim.Circuit("H 1\nH 0\nTICK\nM 1 0\nDETECTOR rec[-2]"))
assert canon.diff(a, b) == ""
assert canon.diff(a, canon.Canon(stim.Circuit("H 1\nH 0\nTICK\nM 1 0\nDETECTOR rec[-1]")))
assert stim.Circuit("MPP X0*X1").has_flow(stim.Flow("X0*X1 -> rec[-1]"))
for check in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
    mod = importlib.import_module("checks." + check["property"].lower())
    assert mod.PROPERTY == check["property"] and mod.MIN_EVENTS
print("selftest ok, stim", stim.__version__)
