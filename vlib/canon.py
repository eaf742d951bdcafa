"""Canonical, order-insensitive descriptions of stim circuits.

Two circuits with the same description act equally: what is compared is, for every
TICK layer, the ordered operations of each qubit (commuting instructions on other
qubits can be listed in any order and grouped in any way), the exact probabilities
(``str(circuit)`` rounds them), and the detectors and observables expressed as sets
of (qubit, k-th measurement of that qubit) instead of record offsets.
"""

import stim

NOISE = {
    "DEPOLARIZE1", "DEPOLARIZE2", "PAULI_CHANNEL_1", "PAULI_CHANNEL_2",
    "X_ERROR", "Y_ERROR", "Z_ERROR", "E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR",
    "HERALDED_ERASE", "HERALDED_PAULI_CHANNEL_1",
}  # fmt: skip
MEAS = {"M", "MX", "MY", "MR", "MRX", "MRY", "MXX", "MYY", "MZZ", "MPP"}
TWO_QUBIT = {"CX", "CY", "CZ", "SWAP", "ISWAP", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ",
             "DEPOLARIZE2", "PAULI_CHANNEL_2", "MXX", "MYY", "MZZ", "SQRT_XX", "SQRT_ZZ"}  # fmt: skip
SYMMETRIC = {"CZ", "SWAP", "ISWAP", "XCX", "YCY", "DEPOLARIZE2", "MXX", "MYY", "MZZ"}


class Canon:
    """Canonical description of a circuit."""

    def __init__(self, circuit: stim.Circuit, noise=True, idle=True):
        self.layers = [{}]  # per layer: qubit -> list of operations
        self.coords = {}
        self.detectors = []  # list of (coords, frozenset of (qubit, k))
        self.observables = {}  # index -> frozenset
        self.records = []  # (qubit, k, layer, basis)
        count = {}
        for instr in circuit.flattened():
            name = instr.name
            if name == "TICK":
                self.layers.append({})
                continue
            if name == "QUBIT_COORDS":
                for t in instr.targets_copy():
                    self.coords[t.value] = tuple(instr.gate_args_copy())
                continue
            if name in ("DETECTOR", "OBSERVABLE_INCLUDE"):
                recs = set()
                for t in instr.targets_copy():
                    rec = self.records[len(self.records) + t.value]
                    recs ^= {rec[:2]}
                if name == "DETECTOR":
                    self.detectors.append(
                        (tuple(instr.gate_args_copy()), frozenset(recs))
                    )
                else:
                    ind = int(instr.gate_args_copy()[0])
                    prev = self.observables.get(ind, frozenset())
                    self.observables[ind] = prev ^ frozenset(recs)
                continue
            if name == "SHIFT_COORDS":
                raise ValueError("SHIFT_COORDS is not supported")
            if name in NOISE and not noise:
                continue
            args = tuple(instr.gate_args_copy())
            if name in MEAS and not noise:
                args = ()
            if name == "I" and not idle:
                continue
            targets = [t.value for t in instr.targets_copy()]
            layer = self.layers[-1]
            if name in TWO_QUBIT:
                for a, b in zip(targets[::2], targets[1::2]):
                    ra, rb = ("", "") if name in SYMMETRIC else ("0", "1")
                    layer.setdefault(a, []).append((name, args, ra, b))
                    layer.setdefault(b, []).append((name, args, rb, a))
            else:
                for q in targets:
                    layer.setdefault(q, []).append((name, args))
                    if name in MEAS:
                        k = count.get(q, 0)
                        count[q] = k + 1
                        self.records.append((q, k, len(self.layers) - 1, name))

    # ------------------------------------------------------------------ views
    def ops(self):
        return [
            {q: tuple(o) for q, o in sorted(layer.items())} for layer in self.layers
        ]

    def det_multiset(self):
        return sorted((c, tuple(sorted(r))) for c, r in self.detectors)

    def obs(self):
        return {k: tuple(sorted(v)) for k, v in sorted(self.observables.items())}

    def key(self):
        return (self.ops(), self.det_multiset(), self.obs(), sorted(self.coords.items()))

    def restrict(self, qubits):
        """Operations of the given qubits only, layer by layer."""
        qubits = set(qubits)
        return [
            {q: tuple(o) for q, o in sorted(layer.items()) if q in qubits}
            for layer in self.layers
        ]


def diff(a: Canon, b: Canon):
    """First difference between two descriptions as text, '' if they are equal."""
    oa, ob = a.ops(), b.ops()
    if len(oa) != len(ob):
        return f"number of layers {len(oa)} != {len(ob)}"
    for k, (la, lb) in enumerate(zip(oa, ob)):
        for q in sorted(set(la) | set(lb)):
            if la.get(q) != lb.get(q):
                return f"layer {k}, qubit {q}: {la.get(q)} != {lb.get(q)}"
    if a.det_multiset() != b.det_multiset():
        da, db = set(a.det_multiset()), set(b.det_multiset())
        return f"detectors only in first {sorted(da-db)[:3]}, only in second {sorted(db-da)[:3]}"
    if a.obs() != b.obs():
        return f"observables {a.obs()} != {b.obs()}"
    if a.coords != b.coords:
        return f"qubit coordinates {a.coords} != {b.coords}"
    return ""


def num_measurements(circuit):
    return circuit.num_measurements


def sample_parities(circuit: stim.Circuit, shots=192, seed=0):
    """Raw values (not relative to a reference) of detectors and observables in
    ``shots`` real executions of the noiseless circuit: two uint8 arrays."""
    import numpy as np

    noiseless = circuit.without_noise()
    meas = noiseless.compile_sampler(seed=seed).sample(shots).astype(np.uint8)
    dets, obs, nmeas = [], {}, 0
    for instr in noiseless.flattened():
        if instr.name == "DETECTOR":
            cols = [nmeas + t.value for t in instr.targets_copy()]
            dets.append(meas[:, cols].sum(axis=1) % 2 if cols else meas[:, :0].sum(axis=1))
        elif instr.name == "OBSERVABLE_INCLUDE":
            ind = int(instr.gate_args_copy()[0])
            cols = [nmeas + t.value for t in instr.targets_copy()]
            val = meas[:, cols].sum(axis=1) % 2
            obs[ind] = (obs[ind] + val) % 2 if ind in obs else val
        elif instr.name in MEAS:
            nmeas += len(instr.targets_copy()) // (2 if instr.name in TWO_QUBIT else 1)
    dets = np.array(dets, dtype=np.uint8).reshape(len(dets), shots)
    return meas, dets, obs
