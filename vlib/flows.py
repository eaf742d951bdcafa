"""Stabilizer-flow oracle: what a circuit does to Pauli operators, with signs."""

import stim


def pauli(ops, inds, n):
    """``ops``: qubit label -> 'X'/'Y'/'Z'."""
    p = stim.PauliString(n)
    for q, o in ops.items():
        p[inds[q]] = o
    return p


def mul(a, b):
    """Product of two label->pauli dicts up to its sign."""
    code = {"I": (0, 0), "X": (1, 0), "Z": (0, 1), "Y": (1, 1)}
    back = {v: k for k, v in code.items()}
    out = dict(a)
    for q, p in b.items():
        x = tuple(i ^ j for i, j in zip(code[out.get(q, "I")], code[p]))
        if x == (0, 0):
            out.pop(q, None)
        else:
            out[q] = back[x]
    return out


class Flows:
    """Batch of expected flows of a circuit."""

    def __init__(self, circuit, inds):
        self.circuit = circuit.without_noise()
        self.inds = inds
        self.n = max([*inds.values(), circuit.num_qubits - 1]) + 1
        self.items = []

    def add(self, name, before, after, recs=(), sign=1, unsigned=False):
        src, dst = self._pauli(before), self._pauli(after)
        if sign == -1:
            dst *= -1
        flow = stim.Flow(input=src, output=dst, measurements=list(recs))
        self.items.append((name, flow, unsigned))

    def _pauli(self, ops):
        """A list of operators is their exact product (with its sign)."""
        if isinstance(ops, list):
            out = stim.PauliString(self.n)
            for o in ops:
                out = out * pauli(o, self.inds, self.n)
            return out
        return pauli(ops, self.inds, self.n)

    def failing(self):
        for uns in (False, True):
            part = [(n, f) for n, f, u in self.items if u == uns]
            if part and not self.circuit.has_all_flows([f for _, f in part], unsigned=uns):
                for n, f in part:
                    if not self.circuit.has_flow(f, unsigned=uns):
                        return n
        return None


def record_index(circuit):
    """(qubit index, k) -> absolute record, for the measurements of a circuit."""
    from vlib.canon import Canon

    return {(q, k): r for r, (q, k, _, _) in enumerate(Canon(circuit).records)}
