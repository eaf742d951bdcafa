"""Reference model of detector histories, from first principles.

The world has one stabilizer value per ancilla.  A gate maps the values that would be
measured now to a linear combination (mod 2) of the old ones.  ``pend`` relates the values
now to those at the last round.  A detector compares the values of now, predicted from those
of the last round:

- post-gate: value of ancilla a now against the combination of old values it came from,
- pre-gate: value of ancilla a in the last round against the combination of new values
  that is equal to it,
- gate-independent: value of a now against value of a in the last round.

Without ancilla reset, an outcome is the value plus the previous outcome of that ancilla.
"""

import numpy as np

from vlib.gen import gf2_inv


class RefDet:
    def __init__(self, labels, frame, coords):
        self.labels = list(labels)
        self.pos = {a: i for i, a in enumerate(self.labels)}
        self.frame = frame
        self.coords = {a: tuple(float(x) for x in coords.get(a, ())) for a in labels}
        n = len(self.labels)
        self.pend = np.eye(n, dtype=np.uint8)
        self.active = {a: False for a in labels}
        self.since = {a: 0 for a in labels}  # rounds since the activation
        self.count = {}  # qubit -> measurements so far (whole circuit)
        self.rounds = 0
        self.expected = []  # (coords, frozenset)

    # ----------------------------------------------------------------- events
    def gate(self, new_from_old):
        """dict: ancilla -> list of ancillas (missing ones are unchanged)."""
        n = len(self.labels)
        u = np.eye(n, dtype=np.uint8)
        for a, olds in new_from_old.items():
            u[self.pos[a]] = 0
            for b in olds:
                u[self.pos[a], self.pos[b]] = 1
        self.pend = (u.astype(int) @ self.pend.astype(int) % 2).astype(np.uint8)

    def activate(self, ancs):
        for a in ancs:
            self.active[a] = True
            self.since[a] = 0

    def deactivate(self, ancs):
        for a in ancs:
            self.active[a] = False
            self.pend[self.pos[a], :] = 0
            self.pend[:, self.pos[a]] = 0
            self.pend[self.pos[a], self.pos[a]] = 1

    def coupled(self, ancs):
        """Whether pending gates couple ``ancs`` with other ancillas."""
        ins = [self.pos[a] for a in ancs]
        out = [i for i in range(len(self.labels)) if i not in ins]
        return bool(self.pend[np.ix_(ins, out)].any() or self.pend[np.ix_(out, ins)].any())

    def measured(self, q):
        self.count[q] = self.count.get(q, 0) + 1

    # ------------------------------------------------------------------ terms
    def _rows(self, a, mat):
        return [self.labels[i] for i in np.flatnonzero(mat[self.pos[a]])]

    def _value(self, a, back, reset, avail):
        """Records whose parity is the value of ``a`` in the round ``back`` rounds ago
        (0: the one that has just been measured)."""
        k = self.count.get(a, 0) - 1 - back
        if back >= avail[a]:
            return set()
        out = {(a, k)}
        if not reset and back + 1 < avail[a]:
            out.add((a, k - 1))
        return out

    def round(self, reset, selected=None):
        """After the active ancillas have been measured (``measured`` was called)."""
        self.rounds += 1
        for a in self.labels:
            if self.active[a]:
                self.since[a] += 1
        inv = gf2_inv(self.pend)
        for a in self.labels:
            recs = set()
            if self.active[a] and (selected is None or a in selected):
                if self.frame == "post-gate":
                    now, old = [a], self._rows(a, self.pend)
                elif self.frame == "pre-gate":
                    now, old = self._rows(a, inv), [a]
                else:
                    now, old = [a], [a]
                gi = self.frame == "gate-independent"
                for b in now:
                    # the documented frame m_{a,r} ^ m_{a,r-1}: without reset the values
                    # of consecutive rounds are compared
                    recs ^= self._value(b, 0, reset, self.since)
                for b in old:
                    recs ^= self._value(b, 1, reset, self.since)
                if gi:
                    n = self.count.get(a, 0) - 1
                    back = 1 if reset else 2
                    recs = {(a, n)}
                    if self.since[a] > back:
                        recs ^= {(a, n - back)}
            self.expected.append(((*self.coords[a], float(self.rounds - 1)), frozenset(recs)))
        self.pend = np.eye(len(self.labels), dtype=np.uint8)

    def data(self, reset, support, stabs, selected=None):
        """After data qubits have been measured: the stabilizers in ``stabs`` are known."""
        for a in stabs:
            recs = set()
            if self.active[a] and (selected is None or a in selected):
                for q in support[a]:
                    recs ^= {(q, self.count[q] - 1)}
                old = [a] if self.frame == "gate-independent" else self._rows(a, self.pend)
                for b in old:
                    recs ^= self._value(b, 0, reset, self.since)
            self.expected.append(((*self.coords[a], self.rounds - 0.5), frozenset(recs)))
        if {a for a in self.labels if self.active[a]} <= set(stabs):
            self.pend = np.eye(len(self.labels), dtype=np.uint8)
