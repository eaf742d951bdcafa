"""Construction of the circuits of a spec and their comparable descriptions."""

import hashlib

from . import gen
from .canon import Canon
from .program import Program

PARTS = ["operations", "records", "detectors", "observables", "coordinates"]


def build(spec):
    """A circuit from fresh objects."""
    return make(spec).circuit()


def make(spec):
    if spec["what"] == "exp":
        return gen.Built(spec["spec"])
    return Program(spec["spec"])


def describe(circuit):
    """Digests of the parts of the description of a circuit."""
    c = Canon(circuit)
    parts = [
        c.ops(),
        [r for r in c.records],
        [(d, sorted(r)) for d, r in c.detectors],
        c.obs(),
        sorted(c.coords.items()),
    ]
    return [hashlib.sha1(repr(p).encode()).hexdigest()[:16] for p in parts]


def differ(a, b):
    return [n for n, x, y in zip(PARTS, a, b) if x != y]
