"""C07: compiling a session keeps its semantics under every option.

Oracle: a dense state vector over the live qubits, updated in program order (allocation appends
|0>, deletion removes a qubit that the model shows to be in |0>).
"""

import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Facet, require
from .c01 import op_object
from .c05 import data_state
from .c06 import ND, State, mcx_matrix

PROPERTY = "C07"
RULE = (
    "session histories over 3 data qubits in random superposition: allocation of further variables, random gates, "
    "multi-controlled X with up to 6 controls and all methods, QFTs on fresh qubits / before deletion / back to back, "
    "temporaries that are computed, used, uncomputed and deleted (so that their qubits are recycled), barriers; "
    "compiled with random workspace, gate speed, qft cancellation, mid-circuit-measurement and intended-measurement options. "
    "Non-trivial: a qubit was recycled (recycled), an mcx was recompiled (mcx), a QFT was present (qft), ..."
)
TOL = 6e-4
MAXQ = 8

SPEEDS = ["none", "t", "cnot", "odd"]
METHODS = ["auto", "auto", "auto", "auto", "gray", "balauca", "maslov", "hybrid", "jones", "gidney", "yong", "khattar"]


@st.composite
def gate_op(draw, live):
    """one random operation on the live qubits, as plain data"""
    kind = draw(st.sampled_from(["std", "std", "mcx", "mcx", "cond", "qft"]))
    n = len(live)
    if kind == "mcx" and n > 2:
        k = draw(st.integers(2, min(6, n - 1)))
        qs = list(draw(st.permutations(live))[: k + 1])
        m = draw(st.sampled_from(METHODS))
        if m in ("jones", "maslov", "gidney") and k > 3:
            m = "auto"
        if m in ("jones", "gidney") and k != 2:
            m = "auto"
        if m == "gidney":  # only valid on a target in |0>
            m = "jones"
        return ["mcx", qs, draw(ref.bitstring(k)), m]
    if kind == "qft":
        k = draw(st.integers(1, min(3, n)))
        qs = list(draw(st.permutations(live))[:k])
        return ["qft", qs, draw(st.booleans()), draw(st.booleans())]
    if kind == "cond" and n > 1:
        qs = list(draw(st.permutations(live))[:2])
        return ["ctrl", qs, draw(st.sampled_from(["1", "0"])), draw(st.sampled_from(["h", "x", "y", "ry", "rz", "p", "sx"])), draw(ref.angles())]
    name = draw(st.sampled_from(["h", "x", "t", "s", "rx", "rz", "ry", "p", "cx", "cz", "swap", "cp", "rzz", "u3", "t_dg"]))
    a, p = ref.GATES[name][:2]
    if a > n:
        name, a, p = "h", 1, 0
    return ["g", name, list(draw(st.permutations(live))[:a]), [draw(ref.angles()) for _ in range(p)]]


@st.composite
def history(draw, focus=None):
    ops, live, nq, nv = [], list(range(ND)), ND, 0
    vars_ = {}

    def new(w):
        nonlocal nq, nv
        vars_[nv] = list(range(nq, nq + w))
        live.extend(vars_[nv])
        ops.append(["new", nv, vars_[nv]])
        nq += w
        nv += 1
        return nv - 1

    def drop(v):
        for q in vars_.pop(v):
            live.remove(q)
        ops.append(["del", v])

    for _ in range(draw(st.integers(1, 6))):
        a = draw(st.integers(0, 5))
        room = MAXQ - len(live)
        if a <= 2 and room > 0:
            # temporary: compute, use, uncompute, delete
            v = new(draw(st.integers(1, min(2, room))))
            t = vars_[v]
            others = [q for q in live if q not in t]
            comp = []
            for _ in range(draw(st.integers(1, 3))):
                kk = draw(st.integers(0, 4))
                if kk == 0:
                    comp.append(["qft", list(t), draw(st.booleans()), draw(st.booleans())])
                elif kk == 1:
                    comp.append(["g", draw(st.sampled_from(["h", "x", "s"])), [draw(st.sampled_from(t))], []])
                else:
                    k = draw(st.integers(1, min(5, len(others))))
                    cs = list(draw(st.permutations(others))[:k])
                    m = draw(st.sampled_from(["auto", "auto", "auto", "gray", "gray_pt", "gidney"]))
                    if m == "gidney" and (k != 2 or comp):
                        m = "auto"
                    comp.append(["mcx", cs + [draw(st.sampled_from(t))], draw(ref.bitstring(k)), m])
            if any(c[0] != "mcx" for c in comp):
                # these need the target value restored before their inverse
                comp = [c[:3] + ["auto"] if c[-1] in ("gray_pt", "gidney") else c for c in comp]
            ops.extend(comp)
            for _ in range(draw(st.integers(0, 3))):
                # uses which are diagonal on everything the temporary was computed from
                kk = draw(st.integers(0, 2))
                if kk == 0:
                    ops.append(["g", draw(st.sampled_from(["cz", "rzz"])) if len(live) > 1 else "z", list(draw(st.permutations(live))[:2]), []])
                    if ops[-1][1] == "rzz":
                        ops[-1][3] = [draw(ref.angles())]
                    ops[-1][2] = ops[-1][2][: ref.GATES[ops[-1][1]][0]]
                else:
                    ctrl = [q for c in comp for q in (c[1] if c[0] == "mcx" else [])]
                    free = [q for q in others if q not in ctrl]
                    if free:
                        tq = draw(st.sampled_from(free))
                        cs = list(draw(st.permutations([q for q in live if q != tq]))[: draw(st.integers(1, min(4, len(live) - 1)))])
                        ops.append(["mcx", cs + [tq], draw(ref.bitstring(len(cs))), "auto"])
            ops.extend([inverse(o) for o in comp[::-1]])
            drop(v)
        elif a == 3 and room > 0 and nv < 4:
            new(draw(st.integers(1, min(3, room))))
        elif a == 4 and draw(st.booleans()):
            ops.append(["barrier", list(live)])
        else:
            for _ in range(draw(st.integers(1, 3))):
                ops.append(draw(gate_op(live)))
    return {
        "prep": draw(st.integers(0, 10**6)),
        "ops": ops,
        "opt": {
            "workspace": draw(st.sampled_from([0, 0, 1, 2, 3])),
            "speed": draw(st.sampled_from(SPEEDS)),
            "cancel": draw(st.sampled_from([True, True, False])),
            "mcm": draw(st.sampled_from([False, False, True])),
        },
        "meas": draw(st.integers(0, 10**6)),
    }


def inverse(o):
    if o[0] == "qft":
        return ["qft", o[1], not o[2], o[3]]
    if o[0] == "g":
        return ["g", {"s": "s_dg"}.get(o[1], o[1]), o[2], o[3]]
    return [o[0], o[1], o[2], {"gray_pt": "gray_pt_inv", "gidney": "gidney_inv"}.get(o[3], o[3])]


# ------------------------------------------------------------- model


def qft_matrix(n, swap):
    """QFT of a variable: qubit i carries weight 2**i; big-endian matrix over the listed qubits"""
    N = 2**n
    M = np.exp(2j * np.pi * np.outer(np.arange(N), np.arange(N)) / N) / np.sqrt(N)
    rev = [int(format(i, f"0{n}b")[::-1], 2) for i in range(N)]
    M = M[np.ix_(rev, rev)]  # little-endian number -> listed order
    if not swap:
        P = np.eye(N)[rev]
        M = P @ M
    return M


def op_model(o):
    if o[0] == "mcx":
        return mcx_matrix(len(o[2]), o[2]), o[1]
    if o[0] == "qft":
        M = qft_matrix(len(o[1]), o[3])
        return (M.conj().T if o[2] else M), o[1]
    if o[0] == "ctrl":
        M = ref.unitary({"n": 1, "ops": [[o[3], [0]] + ([[o[4]]] if o[3] in ("ry", "rz", "p") else [])]})
        B = np.eye(4, dtype=complex)
        if o[2] == "1":
            B[2:, 2:] = M
        else:
            B[:2, :2] = M
        return B, o[1]
    return ref.unitary({"n": len(o[2]), "ops": [[o[1], list(range(len(o[2]))), o[3]]]}), o[2]


def speed(name):
    from qrisp import t_depth_indicator

    return {
        "none": None,
        "t": lambda op: t_depth_indicator(op, 2**-10),
        "cnot": lambda op: 1 if op.num_qubits > 1 else 0.01,
        "odd": lambda op: (len(op.name) * 7) % 5,
    }[name]


class World:
    def __init__(self, spec):
        from qrisp import QuantumVariable

        self.model = State(spec["prep"])
        self.d = QuantumVariable(ND)
        self.qb = {i: self.d[i] for i in range(ND)}
        self.vars = {}
        self.labels = set()
        self.deleted = 0
        self.peak = self.cur = ND
        for o in self.model.prep:
            self.d.qs.append(op_object(o), [self.qb[i] for i in o[1]])

    def run(self, ops):
        from qrisp import QFT, QuantumVariable, barrier, mcx
        from qrisp.core import merge

        for o in ops:
            k = o[0]
            if k == "new":
                v = QuantumVariable(len(o[2]))
                merge(self.d, v)
                self.vars[o[1]] = (v, o[2])
                for i, q in enumerate(o[2]):
                    self.qb[q] = v[i]
                    self.model.alloc(q)
                if self.deleted:
                    self.labels.add("recycled")
            elif k == "del":
                v, qs = self.vars[o[1]]
                if not all(self.is_zero(q) for q in qs):
                    continue
                del self.vars[o[1]]
                v.delete()
                self.deleted += 1
                for q in qs:
                    i = self.model.axes.index(q)
                    self.model.psi = np.take(self.model.psi, 0, axis=i)
                    self.model.axes.pop(i)
            elif k == "barrier":
                barrier([self.qb[q] for q in o[1] if q in self.model.axes])
            else:
                M, qs = op_model(o)
                qb = [self.qb[q] for q in qs]
                if k == "mcx":
                    if o[3] in ("gidney", "gidney_inv", "gray_pt", "gray_pt_inv"):
                        self.labels.add(o[3].split("_")[0])
                    mcx(qb[:-1], qb[-1], ctrl_state=o[2], method=o[3])
                    if o[3] == "auto" and len(qb) > 3:
                        self.labels.add("mcx")
                elif k == "qft":
                    QFT(qb, inv=o[2], exec_swap=o[3])
                    self.labels.add("qft")
                elif k == "ctrl":
                    op = op_object([o[3], [0]] + ([[o[4]]] if o[3] in ("ry", "rz", "p") else []))
                    self.d.qs.append(op.control(1, ctrl_state=o[2]), qb)
                else:
                    self.d.qs.append(op_object([o[1], o[2], o[3]]), qb)
                self.model.apply(M, qs)

    def is_zero(self, q):
        i = self.model.axes.index(q)
        return np.linalg.norm(np.take(self.model.psi, 1, axis=i)) < 1e-6

    def order(self):
        return list(range(ND)) + [q for v in sorted(self.vars) for q in self.vars[v][1]]


def check(spec):
    w = World(spec)
    w.run(spec["ops"])
    order = w.order()
    want = w.model.vector(order)
    qbs = [w.qb[q] for q in order]
    opt = spec["opt"]
    kw = dict(workspace=opt["workspace"], gate_speed=speed(opt["speed"]), cancel_qfts=opt["cancel"])
    before = len(w.d.qs.data)
    for kws in ({}, kw):
        qc = w.d.qs.compile(**kws)
        got = data_state(qc, qbs, "after compilation")
        d = ref.dist_phase(got, want)
        require(d < TOL, "the compiled circuit prepares another state", d=float(d), options=str(kws))
    require(len(w.d.qs.data) == before, "compiling changed the session", before=before, after=len(w.d.qs.data))
    # only some qubits are measured
    r = np.random.default_rng(spec["meas"])
    k = int(r.integers(1, len(order) + 1))
    sel = [int(i) for i in r.permutation(len(order))[:k]]
    qc = w.d.qs.compile(intended_measurements=[qbs[i] for i in sel], **kw)
    got = marginal(qc, [qbs[i] for i in sel])
    P = np.abs(want.reshape([2] * len(order))) ** 2
    exp = marg(P, sel)
    require(np.abs(got - exp).max() < 1e-3, "compiling for intended measurements changed their distribution", d=float(np.abs(got - exp).max()), qubits=sel)
    if opt["mcm"]:
        check_mcm(w, order, want, qbs, kw, r)
        w.labels.add("mcm")
    if opt["speed"] != "none":
        w.labels.add("speed")
    if k < len(order):
        w.labels.add("intended")
    return sorted(w.labels)


def marg(P, sel):
    rest = [i for i in range(P.ndim) if i not in sel]
    return np.transpose(P, sel + rest).reshape(2 ** len(sel), -1).sum(axis=1)


def marginal(qc, qubits):
    n = len(qc.qubits)
    P = np.abs(np.asarray(qc.statevector_array()).reshape([2] * n)) ** 2
    return marg(P, [qc.qubits.index(q) for q in qubits])


def check_mcm(w, order, want, qbs, kw, r):
    """the variant with mid-circuit measurements: compare in a random product basis"""
    qc = w.d.qs.compile(compile_mcm=True, **kw)
    rot = [["u3", [i], [float(x) for x in r.uniform(0, 3, 3)]] for i in range(len(order))]
    for o, q in zip(rot, qbs):
        qc.append(op_object(o), [q])
    cl = [qc.add_clbit() for _ in order]
    for q, c in zip(qbs, cl):
        qc.measure(q, c)
    res = qc.run(shots=None)
    got = np.zeros(2 ** len(order))
    for key, p in res.items():
        # highest clbit leftmost: the last len(order) clbits are the first characters
        bits = key[: len(order)][::-1]
        got[int(bits, 2)] += p
    psi = ref.unitary({"n": len(order), "ops": rot}) @ want
    exp = np.abs(psi) ** 2
    require(np.abs(got - exp).max() < 2e-3, "compiling with mid-circuit measurements changed the distribution", d=float(np.abs(got - exp).max()))


FACETS = [
    Facet("history", history(), check, quick=4500),
]
