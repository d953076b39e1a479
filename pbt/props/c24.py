"""C24: variables own their qubits; sessions and allocation stay consistent."""

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Reject, raises, require

PROPERTY = "C24"
RULE = (
    "(history) random histories of up to 16 steps: creating variables (named, auto-named, renamed on collision, in a given session), gates on one or two variables, extending and reducing at random positions, "
    "duplicating with and without initialisation, temporary variables that are computed, uncomputed and deleted, explicit merging, control and condition environments, measurements and statevectors in between, and misuse (deleted variables, "
    "repeated qubits, foreign qubits, dirty deletion with verification, name clashes). After every step a model with explicit qubits predicts sizes, sessions, owners of qubits and names, and after some the exact state of every session. "
    "Non-trivial: at least two sessions were merged or a qubit was freed and at least one check of the state followed."
)
GATES = ["h", "ry", "p", "x"]


@st.composite
def step(draw):
    kind = draw(st.sampled_from(["new", "new", "gate", "gate", "gate", "gate2", "gate2", "extend", "reduce", "dup", "tmp", "merge", "env", "delete", "measure", "state", "bad", "keep"]))
    pick = st.sampled_from(range(24))
    return [
        kind,
        draw(pick),
        draw(pick),
        draw(st.sampled_from([1, 1, 2, 3])),
        draw(st.sampled_from(range(8))),
        draw(st.sampled_from([0.4, 1.1, 2.3, -0.9])),
    ]


@st.composite
def history(draw):
    return {"steps": draw(st.lists(step(), min_size=3, max_size=16)), "compile": draw(st.booleans())}


class Model:
    """one global state; axis k belongs to model qubit self.axes[k]"""

    def __init__(self):
        self.psi = np.ones(1, dtype=complex)
        self.axes = []
        self.count = 0
        self.regs = {}  # variable key -> list of model qubits
        self.group = {}  # variable key -> group label
        self.fresh = set()

    def alloc(self, n):
        new = list(range(self.count, self.count + n))
        self.count += n
        self.axes += new
        z = np.zeros(2**n, dtype=complex)
        z[0] = 1
        self.psi = np.kron(self.psi, z)
        self.fresh |= set(new)
        return new

    def free(self, qb):
        k = self.axes.index(qb)
        t = np.moveaxis(self.psi.reshape([2] * len(self.axes)), k, 0)
        if np.linalg.norm(t[1]) > 1e-6:
            raise Reject()
        self.psi = t[0].reshape(-1)
        self.axes.pop(k)
        self.fresh.discard(qb)

    def apply(self, U, qbs):
        n = len(self.axes)
        m = len(qbs)
        ks = [self.axes.index(q) for q in qbs]
        t = np.moveaxis(self.psi.reshape([2] * n), ks, range(m)).reshape(2**m, -1)
        t = (np.asarray(U) @ t).reshape([2] * n)
        self.psi = np.moveaxis(t, range(m), ks).reshape(-1)
        self.fresh -= set(qbs)

    def merge(self, *keys):
        gs = {self.group[k] for k in keys}
        g = min(gs)
        for k in self.group:
            if self.group[k] in gs:
                self.group[k] = g

    def is_zero(self, qb):
        k = self.axes.index(qb)
        t = np.moveaxis(self.psi.reshape([2] * len(self.axes)), k, 0)
        return np.linalg.norm(t[1]) < 1e-6

    def marginal(self, qbs):
        n = len(self.axes)
        ks = [self.axes.index(q) for q in qbs]
        P = np.abs(np.moveaxis(self.psi.reshape([2] * n), ks, range(len(ks))).reshape(2 ** len(ks), -1)) ** 2
        return P.sum(axis=1)


def gate_matrix(name, th):
    if name == "h":
        return np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    if name == "x":
        return np.array([[0, 1], [1, 0]])
    if name == "p":
        return np.diag([1, np.exp(1j * th)])
    c, s = np.cos(th / 2), np.sin(th / 2)
    return np.array([[c, -s], [s, c]])


def call_gate(name, th, qb):
    import qrisp

    if name in ("h", "x"):
        getattr(qrisp, name)(qb)
    else:
        getattr(qrisp, name)(th, qb)


def ctrl(U, off=False):
    M = np.eye(4, dtype=complex)
    if off:
        M[:2, :2] = U
    else:
        M[2:, 2:] = U
    return M


def invariants(m, qvs, names):
    from qrisp import Qubit

    seen = {}
    for k, v in qvs.items():
        require(v.size == len(m.regs[k]) and len(v) == v.size, "size of a variable", variable=v.name, got=v.size, want=len(m.regs[k]))
        for q in v:
            require(isinstance(q, Qubit), "entries of a variable are qubits")
            require(id(q) not in seen, "qubit owned by two variables", qubit=str(q.identifier))
            seen[id(q)] = k
            require(q.qs() == v.qs, "qubit belongs to another session than its variable")
            require(any(q is z for z in v.qs.qubits), "qubit is missing in the session of its variable")
        require(not v.is_deleted(), "live variable counts as deleted", variable=v.name)
        require(any(w is v for w in v.qs.qv_list), "variable is not registered in its session", variable=v.name)
        require(v.qs.get_qv(v.name) is v and v.qs[v.name] is v, "session returns another variable for a name", name=v.name)
        if names.get(k):
            require(v.name == names[k], "user given name was changed", got=v.name, want=names[k])
    keys = list(qvs)
    for i, a in enumerate(keys):
        for b in keys[i + 1 :]:
            same = qvs[a].qs == qvs[b].qs
            require(same == (m.group[a] == m.group[b]), "sessions of two variables", same=same)
            if same:
                require(qvs[a].name != qvs[b].name, "two live variables of one session have the same name", name=qvs[a].name)
    for g in set(m.group[k] for k in keys):
        qs = qvs[[k for k in keys if m.group[k] == g][0]].qs
        ids = [q.identifier for q in qs.qubits]
        require(len(set(ids)) == len(ids), "identifiers of qubits repeat in a session", ids=str(ids))
        mine = [k for k in keys if m.group[k] == g]
        require(len(qs.qv_list) == len(mine), "number of live variables of a session", got=[v.name for v in qs.qv_list], want=len(mine))


def check_state(m, qvs, comp):
    """exact state of every session; the whole state is their product"""
    got = np.ones(1, dtype=complex)
    order = []
    for g in sorted(set(m.group[k] for k in qvs)):
        keys = [k for k in qvs if m.group[k] == g]
        qs = qvs[keys[0]].qs
        qc = qs.compile() if comp else qs.copy()
        if len(qc.qubits) > 18:
            raise Reject()
        qubits = [q for k in keys for q in qvs[k]]
        n = len(qc.qubits)
        pos = [qc.qubits.index(q) for q in qubits]
        rest = [i for i in range(n) if i not in pos]
        sv = np.asarray(qc.statevector_array()).reshape([2] * n)
        sv = np.transpose(sv, pos + rest).reshape(2 ** len(pos), -1)
        w = np.linalg.norm(sv[:, 0])
        require(abs(w - 1) < 1e-3, "freed qubits are not in |0>", weight=float(w))
        got = np.kron(got, sv[:, 0])
        order += [q for k in keys for q in m.regs[k]]
    want = np.transpose(m.psi.reshape([2] * len(m.axes)), [m.axes.index(q) for q in order]).reshape(-1)
    ov = abs(np.vdot(want, got))
    require(abs(ov - 1) < 2e-3, "state of the variables", overlap=float(ov))


def check_history(s):
    from qrisp import QuantumBool, QuantumFloat, QuantumVariable, conjugate, control, cx, cz, merge, p, swap

    m = Model()
    qvs, names, dead = {}, {}, []
    labels, merged, freed, judged = set(), False, False, False
    nxt = 0

    def add(v, n, name=None, qs_of=None):
        nonlocal nxt
        k = nxt
        nxt += 1
        qvs[k] = v
        names[k] = name
        m.regs[k] = m.alloc(n)
        m.group[k] = k if qs_of is None else m.group[qs_of]
        return k

    def live(i):
        keys = list(qvs)
        return keys[i % len(keys)]

    def union(*keys):
        nonlocal merged
        if len({m.group[k] for k in keys}) > 1:
            merged = True
        m.merge(*keys)

    for kind, a, b, amount, opt, th in s["steps"]:
        if not qvs and kind != "new":
            kind = "new"
        room = 9 - len(m.axes)
        if kind in ("new", "extend", "dup", "tmp") and room < 3:
            kind = "gate2"
        if kind == "new":
            qs_of = live(b) if qvs and opt in (0, 1) else None
            kw = {"qs": qvs[qs_of].qs} if qs_of is not None else {}
            name = None
            if opt in (2, 3):
                name = ["a", "b", "a_1", "data"][a % 4]
                if name in [v.name for v in qvs.values()] or name in dead:
                    name = None
            elif opt in (4, 5):
                # the star permits renaming
                kw["name"] = ["a", "a_1", "x"][a % 3] + "*"
            if name is not None:
                kw["name"] = name
            if a % 3 == 0:
                v = QuantumFloat(amount, **kw)
            elif a % 3 == 1:
                v = QuantumVariable(amount, **kw)
            else:
                amount = 1
                v = QuantumBool(**kw)
            add(v, amount, name, qs_of)
            if name:
                dead.append(name)
        elif kind in ("gate", "env"):
            k = live(a)
            if not m.regs[k]:
                continue
            i = opt % len(m.regs[k])
            g = GATES[b % 4]
            if kind == "gate":
                if opt == 7:
                    # whole variable
                    call_gate(g, th, qvs[k])
                    for q in m.regs[k]:
                        m.apply(gate_matrix(g, th), [q])
                else:
                    call_gate(g, th, qvs[k][i])
                    m.apply(gate_matrix(g, th), [m.regs[k][i]])
            else:
                c = live(b + 1)
                if c == k or not m.regs[c]:
                    continue
                j = amount % len(m.regs[c])
                off = opt % 2
                with control(qvs[c][j], ctrl_state=1 - off):
                    call_gate(g, th, qvs[k][i])
                m.apply(ctrl(gate_matrix(g, th), off), [m.regs[c][j], m.regs[k][i]])
                union(c, k)
                labels.add("env")
        elif kind == "gate2":
            k, c = live(a), live(b)
            if not m.regs[k] or not m.regs[c]:
                continue
            i, j = opt % len(m.regs[k]), amount % len(m.regs[c])
            if k == c and i == j:
                continue
            f, U = [(cx, ctrl(gate_matrix("x", 0))), (cz, ctrl(np.diag([1, -1]))), (swap, np.eye(4)[[0, 2, 1, 3]])][b % 3]
            f(qvs[k][i], qvs[c][j])
            m.apply(U, [m.regs[k][i], m.regs[c][j]])
            union(k, c)
        elif kind == "extend":
            k = live(a)
            n = min(amount, 2)
            if isinstance(qvs[k], (QuantumBool,)):
                continue
            pos = [-1, 0, len(m.regs[k]) // 2][b % 3]
            if isinstance(qvs[k], QuantumFloat):
                # keeps the number format consistent only at the ends
                continue
            qvs[k].extend(n, position=pos) if pos != -1 else qvs[k].extend(n)
            new = m.alloc(n)
            r = m.regs[k]
            at = len(r) if pos == -1 else pos
            m.regs[k] = r[:at] + new + r[at:]
            labels.add("extend")
        elif kind == "reduce":
            k = live(a)
            if isinstance(qvs[k], (QuantumFloat, QuantumBool)):
                continue
            r = m.regs[k]
            zero = [i for i, q in enumerate(r) if m.is_zero(q)][: 1 + opt % 2]
            if not zero or len(zero) == len(r):
                continue
            qb = [qvs[k][i] for i in zero]
            qvs[k].reduce(qb if len(qb) > 1 or b % 2 else qb[0], verify=bool(b % 3 == 0))
            for q in [r[i] for i in zero]:
                m.free(q)
                r.remove(q)
            freed = True
            labels.add("reduce")
        elif kind == "dup":
            k = live(a)
            if len(m.regs[k]) > room - 1 or not m.regs[k]:
                continue
            init = bool(opt % 2)
            kw = {}
            if opt in (4, 5):
                kw["name"] = "copy*"
            v = qvs[k].duplicate(init=init, **kw)
            require(type(v) is type(qvs[k]), "type of a duplicate")
            n = add(v, len(m.regs[k]))
            if init:
                for x, y in zip(m.regs[k], m.regs[n]):
                    m.apply(ctrl(gate_matrix("x", 0)), [x, y])
                union(k, n)
            labels.add("dup")
        elif kind == "tmp":
            k = live(a)
            if not m.regs[k]:
                continue
            i = opt % len(m.regs[k])
            t = QuantumVariable(1)
            cx(qvs[k][i], t[0])
            p(th, t[0])
            if b % 4 == 0:
                with conjugate(lambda q: q)(t):
                    pass
            cx(qvs[k][i], t[0])
            t.delete(verify=bool(b % 3 == 0))
            require(t.is_deleted(), "deleted variable does not count as deleted")
            m.apply(gate_matrix("p", th), [m.regs[k][i]])
            m.fresh.discard(m.regs[k][i])
            freed = True
            labels.add("tmp")
            raises(lambda: call_gate("h", 0, t[0]), Exception)
        elif kind == "merge":
            k, c = live(a), live(b)
            if opt % 3 == 0:
                merge(qvs[k], qvs[c])
            elif opt % 3 == 1:
                merge([qvs[k].qs, qvs[c].qs])
            else:
                merge([qvs[k], qvs[c]])
            union(k, c)
        elif kind == "delete":
            k = live(a)
            if len(qvs) < 2 or not all(m.is_zero(q) for q in m.regs[k]):
                continue
            v = qvs.pop(k)
            v.delete(verify=bool(b % 2))
            for q in m.regs.pop(k):
                m.free(q)
            m.group.pop(k)
            dead.append(v.name)
            freed = True
            labels.add("delete")
            require(v.is_deleted(), "deleted variable does not count as deleted")
            if v.size:
                raises(lambda: call_gate("h", 0, v[0]), Exception)
                other = live(b)
                if m.regs[other]:
                    raises(lambda: cx(qvs[other][0], v[0]), Exception)
                    if isinstance(v, QuantumFloat) is False:
                        pass
            v.delete()
        elif kind == "measure":
            k = live(a)
            if not 0 < len(m.regs[k]) < 5 or isinstance(qvs[k], QuantumBool):
                continue
            res = qvs[k].get_measurement()
            P = m.marginal(m.regs[k])
            n = len(m.regs[k])
            for idx in range(2**n):
                bits = format(idx, f"0{n}b")
                key = bits if not isinstance(qvs[k], QuantumFloat) else int(bits[::-1], 2)
                require(abs(res.get(key, 0) - P[idx]) < 2e-3, "measured distribution", key=str(key), got=float(res.get(key, 0)), want=float(P[idx]))
            judged = True
        elif kind == "state":
            check_state(m, qvs, s["compile"])
            judged = True
        elif kind == "bad":
            k, c = live(a), live(b)
            labels.add("bad")
            if not m.regs[k] or not m.regs[c]:
                continue
            if opt % 4 == 0:
                raises(lambda: cx(qvs[k][0], qvs[k][0]), Exception)
            elif opt % 4 == 1 and k != c:
                raises(lambda: qvs[k].reduce(qvs[c][0]), Exception)
            elif opt % 4 == 2 and not m.is_zero(m.regs[k][0]) and m.marginal([m.regs[k][0]])[1] > 0.05:
                raises(lambda: qvs[k].delete(verify=True), Exception)
            elif opt % 4 == 3:
                name = qvs[k].name
                raises(lambda: QuantumVariable(1, name=name, qs=qvs[k].qs), Exception)
        elif kind == "keep":
            # unrelated variable that is dropped without any gate
            QuantumVariable(2)
        invariants(m, qvs, names)
    if qvs:
        check_state(m, qvs, s["compile"])
        judged = True
    return labels | ({"merged"} if merged else set()) if judged and (merged or freed) else set()


FACETS = [Facet("history", history(), check_history, quick=4000)]
