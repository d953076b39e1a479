"""C06: uncomputation frees a variable without changing the remaining state.

Oracle: a dense state vector over all qubits ever allocated.  Uncomputing the qubits t of a
state sum_j |psi_j>|j>_t gives (sum_j |psi_j>)|0>_t (the defining equation of uncomputation of
classically computed values); if that sum is not a unit vector the value can not be freed and an
exception has to be raised.
"""

import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Facet, require
from .c01 import op_object

PROPERTY = "C06"
RULE = (
    "histories over 3 data qubits in random superposition and up to 3 temporary variables: computing temporaries "
    "with (multi-)controlled X with any control states, X and swaps, from data and from other temporaries; using them "
    "as controls and in phases; changing data; uncomputing one or several of them (uncompute, do_it=False, recompute, "
    "auto_uncompute, inside control environments). Non-trivial: at least one uncomputation succeeded (freed) or was "
    "refused after entangling operations (refused)."
)
ND = 3
TOL = 4e-4


class State:
    def __init__(self, seed):
        r = np.random.default_rng(seed)
        ops = [["u3", [q], [float(x) for x in r.uniform(0.4, 2.6, 3)]] for q in range(ND)]
        self.prep = ops
        self.psi = ref.statevector({"n": ND, "ops": ops}).reshape([2] * ND)
        self.axes = list(range(ND))

    def alloc(self, q):
        self.psi = np.stack([self.psi, np.zeros_like(self.psi)], axis=-1)
        self.axes.append(q)

    def apply(self, M, qs):
        k = len(qs)
        ax = [self.axes.index(q) for q in qs]
        M = np.asarray(M).reshape([2] * (2 * k))
        out = np.tensordot(M, self.psi, axes=(list(range(k, 2 * k)), ax))
        self.psi = np.moveaxis(out, list(range(k)), ax)

    def free(self, qs):
        for q in qs:
            i = self.axes.index(q)
            self.psi = self.psi.sum(axis=i)
            self.axes.pop(i)

    def vector(self, order):
        return np.transpose(self.psi, [self.axes.index(q) for q in order]).reshape(-1)


def mcx_matrix(k, state):
    M = np.eye(2 ** (k + 1))
    i = int(state, 2) * 2
    M[[i, i + 1]] = M[[i + 1, i]]
    return M


def gate_matrix(op):
    k = op[0]
    if k == "mcx":
        return mcx_matrix(len(op[1]), op[3]), op[1] + [op[2]]
    if k == "swap":
        return np.eye(4)[[0, 2, 1, 3]], op[1]
    return ref.unitary({"n": len(op[1]), "ops": [[k, list(range(len(op[1]))), op[2]]]}), op[1]


# ------------------------------------------------------------- generator

DIAG = [("z", 1, 0), ("p", 1, 1), ("cz", 2, 0), ("cp", 2, 1), ("rz", 1, 1), ("s", 1, 0)]
MOVE = [("h", 1, 0), ("x", 1, 0), ("ry", 1, 1), ("rx", 1, 1)]


@st.composite
def history(draw, envs=False, recompute=False, multi=True):
    """operations as data; qubits are numbered 0..2 (data) and 3.. (temporaries in order)"""
    ops, live, nq = [], {}, ND
    nv = 0

    def data():
        return list(range(ND))

    def temps():
        return [q for qs in live.values() for q in qs]

    def step(pool_data, ctrl_only):
        """one gate; ctrl_only: qubits which must only be used as controls"""
        allq = [q for q in pool_data + temps() if q not in ctrl_only]
        kind = draw(st.sampled_from(["comp", "comp", "comp", "use", "diag", "move", "x", "swap"]))
        if kind == "comp" and temps():
            t = draw(st.sampled_from(temps()))
            cs = [q for q in pool_data + temps() if q != t]
            k = draw(st.integers(1, min(3, len(cs))))
            cs = draw(st.permutations(cs))[:k]
            return ["mcx", list(cs), t, draw(ref.bitstring(k)), draw(st.sampled_from(["auto", "auto", "gray", "balauca", "hybrid"]))]
        if kind == "use" and temps():
            c = draw(st.sampled_from(temps()))
            tg = [q for q in allq if q != c] or allq
            t = draw(st.sampled_from(tg))
            others = [q for q in pool_data + temps() if q not in (c, t)]
            k = draw(st.integers(0, min(1, len(others))))
            cs = [c] + list(draw(st.permutations(others))[:k])
            if t != c:
                return ["mcx", cs, t, draw(ref.bitstring(len(cs))), "auto"]
        if kind == "x" and temps():
            return ["x", [draw(st.sampled_from(temps()))], []]
        if kind == "swap" and len(temps()) > 1:
            return ["swap", list(draw(st.permutations(temps()))[:2])]
        if kind == "move" and pool_data:
            n, _, p = draw(st.sampled_from(MOVE))
            return [n, [draw(st.sampled_from(pool_data))], [draw(ref.angles())] if p else []]
        n, a, p = draw(st.sampled_from(DIAG))
        qq = pool_data + temps()
        if len(qq) < a:
            n, a, p = "z", 1, 0
        return [n, list(draw(st.permutations(qq))[:a]), [draw(ref.angles())] if p else []]

    def new():
        nonlocal nv, nq
        w = draw(st.sampled_from([1, 1, 2]))
        live[nv] = list(range(nq, nq + w))
        ops.append(["new", nv, live[nv]])
        nv += 1
        nq += w

    new()
    for _ in range(draw(st.integers(2, 10))):
        a = draw(st.integers(0, 9))
        if a == 0 and nv < 3:
            new()
        elif (a == 1 or recompute and a == 2) and live and len(ops) > 2:
            vs = draw(st.permutations(sorted(live)))[: draw(st.integers(1, 2)) if multi else 1]
            ops.append(["unc", list(vs), bool(recompute and draw(st.integers(0, 3)))])
            for v in vs:
                live.pop(v)
        elif a == 2 and envs:
            c = draw(st.sampled_from(data()))
            body, inner_nq = [], nq
            outer = dict(live)
            w = draw(st.sampled_from([1, 1, 2]))
            v = nv
            nv += 1
            qs = list(range(nq, nq + w))
            nq += w
            live[v] = qs
            body.append(["new", v, qs])
            rest = [q for q in data() if q != c]
            for _ in range(draw(st.integers(1, 4))):
                body.append(step(rest, []))
            if draw(st.integers(0, 3)):
                body.append(["unc", [v], False])
                live.pop(v)
            ops.append(["ctrl", c, draw(st.sampled_from(["1", "0"])), body])
        else:
            ops.append(step(data(), []))
    if live:
        vs = draw(st.permutations(sorted(live)))[: draw(st.integers(1, len(live)))]
        ops.append(["unc", list(vs), False])
    return {"prep": draw(st.integers(0, 10**6)), "ops": ops}


# ------------------------------------------------------------- execution


class Refused(Exception):
    pass


class World:
    def __init__(self, spec):
        import qrisp
        from qrisp import QuantumVariable

        self.q = qrisp
        self.model = State(spec["prep"])
        self.d = QuantumVariable(ND)
        self.qb = {i: self.d[i] for i in range(ND)}
        self.vars = {}
        self.labels = set()
        self.ctrl = []  # active classical description of enclosing controls
        self.entangled = False
        for o in self.model.prep:
            self.d.qs.append(op_object(o), [self.qb[i] for i in o[1]])

    def gate(self, op):
        q = self.q
        k = op[0]
        qb = lambda l: [self.qb[i] for i in l]
        if k == "mcx":
            if len(op[1]) == 1 and op[3] == "1":
                q.cx(self.qb[op[1][0]], self.qb[op[2]])
            else:
                q.mcx(qb(op[1]), self.qb[op[2]], ctrl_state=op[3], method=op[4])
            self.entangled = True
        elif k == "swap":
            q.swap(*qb(op[1]))
        elif op[2]:
            getattr(q, k)(op[2][0], *qb(op[1]))
        else:
            getattr(q, k)(*qb(op[1]))
        M, qs = gate_matrix(op)
        for c, s in self.ctrl:
            n = M.shape[0]
            B = np.eye(2 * n, dtype=complex)
            if s == "1":
                B[n:, n:] = M
            else:
                B[:n, :n] = M
            M, qs = B, [c] + qs
        self.model.apply(M, qs)

    def run(self, ops):
        from qrisp.core import merge

        for op in ops:
            if op[0] == "new":
                v = self.q.QuantumVariable(len(op[2]))
                merge(self.d, v)
                self.vars[op[1]] = (v, op[2])
                for i, q in enumerate(op[2]):
                    self.qb[q] = v[i]
                    self.model.alloc(q)
            elif op[0] == "unc":
                vs = [v for v in op[1] if v in self.vars]
                try:
                    for v in vs[:-1]:
                        self.vars[v][0].uncompute(do_it=False)
                    self.vars[vs[-1]][0].uncompute(recompute=op[2])
                except Exception as e:
                    if not refusal(e):
                        raise
                    self.labels.add("refused" if self.entangled else "refused-plain")
                    raise Refused from None
                for v in vs:
                    var, qs = self.vars.pop(v)
                    require(var.is_deleted(), "an uncomputed variable is still allocated", var=v)
                    self.model.free(qs)
                n = np.linalg.norm(self.model.psi)
                require(abs(n - 1) < 1e-6, "uncomputation succeeded although the value can not be freed", norm=float(n))
                self.labels.add("freed")
                if op[2]:
                    self.labels.add("recompute")
                if len(vs) > 1:
                    self.labels.add("several")
            elif op[0] == "ctrl":
                self.ctrl.insert(0, (op[1], op[2]))
                with self.q.control(self.qb[op[1]], ctrl_state=op[2]):
                    self.run(op[3])
                self.ctrl.pop(0)
                self.labels.add("env")
            else:
                self.gate(op)


def refusal(e):
    m = str(e)
    return type(e) is Exception and any(
        s in m
        for s in (
            "Uncomputation failed",
            "Cyclic dependency",
            "non-qfree",
            "Could not uncompute",
        )
    )


def final_check(w):
    order = list(range(ND)) + [q for v in sorted(w.vars) for q in w.vars[v][1]]
    want = w.model.vector(order)
    from .c05 import data_state

    for kw in ({}, {"workspace": 1}):
        qc = w.d.qs.compile(**kw)
        got = data_state(qc, [w.qb[q] for q in order], "after uncomputation")
        d = ref.dist_phase(got, want)
        require(d < TOL, "the state of the remaining variables changed", d=float(d), compile=kw)


def check(spec):
    w = World(spec)
    try:
        w.run(spec["ops"])
    except Refused:
        if not w.ctrl:
            # a refused uncomputation leaves everything as it was
            final_check(w)
        return sorted(w.labels)
    final_check(w)
    if "freed" not in w.labels:
        return []
    return sorted(w.labels)


# ------------------------------------------------------------- auto_uncompute


@st.composite
def auto_case(draw):
    """a function with local temporaries that returns one variable"""
    nt = draw(st.integers(1, 3))
    ops = []
    # qubits: 0..2 data, 3..3+nt-1 local temporaries, last: result
    res = ND + nt
    for t in range(ND, res + 1):
        for _ in range(draw(st.integers(1, 2))):
            cs = draw(st.permutations(list(range(t))))[: draw(st.integers(1, 3))]
            ops.append(["mcx", list(cs), t, draw(ref.bitstring(len(cs))), "auto"])
            if draw(st.integers(0, 4)) == 0:
                n, a, p = draw(st.sampled_from(DIAG))
                ops.append([n, list(draw(st.permutations(list(range(t + 1))))[:a]), [draw(ref.angles())] if p else []])
    # with recompute the whole function becomes a single gate, whose phases an uncomputation reverts
    pure = all(o[0] == "mcx" for o in ops)
    rec = draw(st.booleans())
    return {"prep": draw(st.integers(0, 10**6)), "nt": nt, "ops": ops, "recompute": rec, "again": draw(st.booleans()) and (pure or not rec)}


def check_auto(spec):
    from qrisp import QuantumVariable, auto_uncompute

    w = World(spec)
    nt = spec["nt"]

    def body(d):
        loc = [QuantumVariable(1) for _ in range(nt)]
        out = QuantumVariable(1)
        for i, v in enumerate(loc + [out]):
            w.qb[ND + i] = v[0]
            w.model.alloc(ND + i)
        for op in spec["ops"]:
            w.gate(op)
        return out

    fn = auto_uncompute(recompute=True)(body) if spec["recompute"] else auto_uncompute(body)
    out = fn(w.d)
    w.model.free(range(ND, ND + nt))
    require(not out.is_deleted(), "the returned variable was freed")
    w.vars = {0: (out, [ND + nt])}
    final_check(w)
    if spec["again"]:
        out.uncompute()
        w.model.free([ND + nt])
        w.vars = {}
        final_check(w)
    return ["auto", f"locals{nt}"] + (["recompute"] if spec["recompute"] else []) + (["again"] if spec["again"] else [])


# ------------------------------------------------------------- always possible


@st.composite
def simple_case(draw):
    """temporaries computed from data, used, data controls never changed: freeing must succeed"""
    nt = draw(st.integers(1, 3))
    ops = [["new", i, [ND + i]] for i in range(nt)]
    for t in range(ND, ND + nt):
        for _ in range(draw(st.integers(1, 3))):
            cs = draw(st.permutations(list(range(2)) + list(range(ND, t))))[: draw(st.integers(1, 3))]
            ops.append(["mcx", list(cs), t, draw(ref.bitstring(len(cs))), "auto"])
    for _ in range(draw(st.integers(1, 4))):
        a = draw(st.integers(0, 2))
        if a == 0:
            n, k, p = draw(st.sampled_from(DIAG))
            ops.append([n, list(draw(st.permutations(list(range(ND + nt))))[:k]), [draw(ref.angles())] if p else []])
        elif a == 1:
            cs = draw(st.permutations([q for q in range(ND + nt) if q != 2]))[: draw(st.integers(1, 2))]
            ops.append(["mcx", list(cs), 2, draw(ref.bitstring(len(cs))), "auto"])
        else:
            n, _, p = draw(st.sampled_from(MOVE))
            ops.append([n, [2], [draw(ref.angles())] if p else []])
    order = list(range(nt))[::-1]
    if draw(st.booleans()):
        ops.append(["unc", order, False])
    else:
        ops += [["unc", [v], False] for v in order]
    return {"prep": draw(st.integers(0, 10**6)), "ops": ops}


def check_simple(spec):
    labels = check(spec)
    require("freed" in labels and "refused" not in labels, "uncomputation was refused although nothing prevents it")
    return labels + ["possible"]


FACETS = [
    Facet("history", history(), check, quick=2500),
    Facet("env", history(envs=True), check, quick=1500),
    Facet("recompute", history(recompute=True), check, quick=1200),
    Facet("auto", auto_case(), check_auto, quick=800),
    Facet("simple", simple_case(), check_simple, quick=1000),
]
