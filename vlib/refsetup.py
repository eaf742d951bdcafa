"""Reference model of ``Setup``: a list of assignments that is searched, without
sharing any code or data structure with the implementation."""

GENERAL = {}
for _n in ("cz", "cnot", "swap"):
    GENERAL[_n + "_error_prob"] = "tq_error_prob"
for _n in ("h", "s", "sdag", "x", "z", "reset", "meas", "idle"):
    GENERAL[_n + "_error_prob"] = "sq_error_prob"


class Undefined(Exception):
    pass


class Unset(Exception):
    pass


class RefSetup:
    def __init__(self, sdict):
        self.facts = []  # (scope, param, value); scope is None or a tuple of labels
        self.vars = {}
        self.gates = dict(sdict.get("gate_durations", {}))
        for entry in sdict["setup"]:
            if "qubit" in entry:
                scope = (str(entry["qubit"]),)
            elif "qubits" in entry:
                scope = tuple(entry["qubits"])
            else:
                scope = None
            for key, val in entry.items():
                if key in ("qubit", "qubits"):
                    continue
                self.facts.append((scope, key, val))
                if isinstance(val, str):
                    self.vars.setdefault(val, None)

    def set_param(self, param, val, *qubits):
        self.facts.append((tuple(qubits) or None, param, val))

    def set_var(self, name, val):
        self.vars[name] = val

    def unset(self):
        return sorted(k for k, v in self.vars.items() if v is None)

    def _last(self, scope, param):
        for s, p, v in reversed(self.facts):
            if s == scope and p == param:
                return True, v
        return False, None

    def value(self, param, *qubits):
        name = param
        while name is not None:
            for scope in ([tuple(qubits)] if qubits else []) + [None]:
                found, val = self._last(scope, name)
                if found:
                    if isinstance(val, str) and val in self.vars:
                        if self.vars[val] is None:
                            raise Unset(val)
                        return self.vars[val]
                    return val
            name = GENERAL.get(name)
        raise Undefined(param)
