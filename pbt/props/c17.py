"""C17: expectation values and Hamiltonian evolution agree with linear algebra."""

import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

from ..core import Facet, Reject, require
from .c05 import data_state
from .c11 import apply_all, prep_ops
from .c16 import F, SCALARS, close, herm, ladder_matrix, num

RULE = (
    "random operators (Pauli, ladder and projector factors, real and complex coefficients, identity terms) on 1-4 qubits with random "
    "states. Expectation values are taken through a backend that returns exact probabilities and compared with the inner product. "
    "Evolution circuits (plain, controlled, inverted, repeated; order 1 and 2; both groupings) are applied to random states and compared "
    "with the matrix exponential: exactly when all terms commute, otherwise within the error bound of the product formula. "
    "Non-trivial: several non-commuting terms (noncommuting), ladder factors (ladder), control (controlled), order 2, complex coefficient, ..."
)
KINDS = [["X", "Y", "Z"], ["X", "Y", "Z", "A", "C", "P0", "P1"], ["A", "C", "P0", "P1"], ["A", "C", "Z"], ["Z", "P0", "P1"], ["A", "C"]]


@st.composite
def operator(draw, n, real, kinds=None, max_terms=4):
    kinds = kinds or draw(st.sampled_from(KINDS))
    terms = []
    pool = [s for s in SCALARS[1:] if not (real and isinstance(s, list))]
    for _ in range(draw(st.sampled_from(range(1, max_terms + 1)))):
        k = draw(st.sampled_from([0] + list(range(1, n + 1)) * 3))
        idx = list(draw(st.permutations(range(n))))[:k]
        terms.append([[[i, draw(st.sampled_from(kinds))] for i in idx], draw(st.sampled_from(pool))])
    return terms


def dense(terms, n):
    M = np.zeros((2**n, 2**n), dtype=complex)
    for factors, c in terms:
        d = {i: f for i, f in factors}
        T = np.eye(1)
        for i in range(n):
            T = np.kron(T, F[d.get(i, "I")])
        M = M + num(c) * T
    return M


def build(terms):
    from qrisp.operators import A, C, P0, P1, X, Y, Z

    make = {"X": X, "Y": Y, "Z": Z, "A": A, "C": C, "P0": P0, "P1": P1}
    total = 0 * X(0)
    for factors, c in terms:
        t = None
        for i, f in factors:
            t = make[f](i) if t is None else t * make[f](i)
        total = total + (num(c) if t is None else num(c) * t)
    return total


def labels_of(terms):
    out = set()
    if any(f in "AC" for fs, _ in terms for _, f in fs):
        out.add("ladder")
    if any(f in ("P0", "P1") for fs, _ in terms for _, f in fs):
        out.add("projector")
    if any(not fs for fs, _ in terms):
        out.add("identity")
    if any(isinstance(c, list) for _, c in terms):
        out.add("complex")
    return out


def make_state(seed, n):
    """returns a QuantumVariable in a random state and the state vector"""
    from qrisp import QuantumVariable

    from .c01 import op_object

    ops, r = prep_ops(seed, n)
    ops = ops + [["cx", [i, i + 1], []] for i in range(n - 1)] + [["u3", [i], [float(x) for x in r.uniform(0.3, 2.8, 3)]] for i in range(n)]
    qv = QuantumVariable(n)
    for g in ops:
        qv.qs.append(op_object(g), [qv[i] for i in g[1]])
    psi = np.zeros(2**n, dtype=complex)
    psi[0] = 1
    return qv, apply_all(ops, psi, n)


def exact_backend():
    from qrisp.default_backend import def_backend

    class Exact:
        def run(self, qc, shots=None, token=""):
            return def_backend.run(qc, None)

    return Exact()


# ------------------------------------------------------------------ expectation values


@st.composite
def expect_case(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    return {
        "n": n,
        "H": draw(operator(n, draw(st.booleans()), max_terms=6)),
        "extra": draw(st.integers(0, 1)),
        "method": draw(st.sampled_from(["commuting_qw", "commuting"])),
        "seed": draw(st.integers(0, 10**6)),
        "compile": draw(st.booleans()),
    }


def check_expect(spec):
    n = spec["n"]
    H = build(spec["H"])
    qv, psi = make_state(spec["seed"], n + spec["extra"])
    M = np.kron(herm(dense(spec["H"], n)), np.eye(2 ** spec["extra"]))
    want = float(np.real(psi.conj() @ M @ psi))
    before = str(H)
    got = H.expectation_value(lambda: qv, diagonalisation_method=spec["method"], backend=exact_backend(), compile=spec["compile"])()
    require(abs(complex(got) - want) < 1e-3 * (1 + np.abs(M).sum(axis=1).max()), "expectation value differs from the inner product", got=float(np.real(got)), want=want)
    require(str(H) == before, "measuring modified the operator")
    return sorted(labels_of(spec["H"]) | {spec["method"]} | ({"many"} if len(spec["H"]) > 2 else set()))


# ------------------------------------------------------------------ evolution


@st.composite
def evolve_case(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    return {
        "n": n,
        "H": draw(operator(n, draw(st.sampled_from([True, True, False])))),
        "method": draw(st.sampled_from(["commuting_qw", "commuting"])),
        "order": draw(st.sampled_from([1, 1, 2])),
        "steps": draw(st.sampled_from([1, 1, 2, 5])),
        "iter": draw(st.sampled_from([1, 1, 2])),
        "forward": draw(st.booleans()),
        "scale": draw(st.sampled_from([0.02, 0.1, 0.3])),
        "neg": draw(st.booleans()),
        "wrap": draw(st.sampled_from(["none", "none", "control", "control0", "invert"])),
        "seed": draw(st.integers(0, 10**6)),
    }


def commuting(mats):
    return all(close(a @ b, b @ a) for a in mats for b in mats)


def tame(spec):
    """controlled repetition of evolutions that need ancillas is refused loudly by IterationEnvironment"""
    if spec["wrap"].startswith("control") and (labels_of(spec["H"]) - {"identity"} if "method" in spec else True):
        spec = {**spec, "steps": 1, "iter": 1}
    return spec


def evolution_check(spec, M, mats, evolve, labels):
    from qrisp import QuantumBool, control, invert, merge, ry

    n = spec["n"]
    L = sum(np.linalg.norm(m, 2) for m in mats) or 1.0
    com = commuting(mats)
    t = (1.3 if com else spec["scale"] / L) * (-1 if spec["neg"] else 1)
    qv, psi = make_state(spec["seed"], n)
    w = spec["wrap"]
    full = expm((-1j if spec["forward"] else 1j) * M * t * spec["iter"])
    if w == "invert":
        full = full.conj().T
        with invert():
            evolve(qv, t)
        want = full @ psi
        regs = list(qv.reg)
    elif w.startswith("control"):
        e = QuantumBool()
        ry(1.1, e[0])
        merge(qv, e)
        with control(e, ctrl_state="0" if w == "control0" else "1"):
            evolve(qv, t)
        on = 0 if w == "control0" else 1
        parts = [psi * np.cos(0.55), psi * np.sin(0.55)]
        parts[on] = full @ parts[on]
        want = np.concatenate(parts)
        regs = list(e.reg) + list(qv.reg)
        labels.add("controlled")
    else:
        evolve(qv, t)
        want = full @ psi
        regs = list(qv.reg)
    qc = qv.qs.compile()
    if len(qc.qubits) > 14:
        raise Reject()
    got = data_state(qc, regs, "evolution")
    x = abs(t) * L
    if com:
        bound = 0.0
    elif spec["order"] == 1:
        bound = x**2 / spec["steps"] * spec["iter"]
        labels.add("noncommuting")
    else:
        bound = x**3 / spec["steps"] ** 2 * spec["iter"]
        labels |= {"noncommuting", "order2"}
    ov = np.vdot(want, got)
    phase = ov / abs(ov) if abs(ov) > 1e-9 and not w.startswith("control") else 1.0
    if w.startswith("control"):
        phase = ov / abs(ov) if abs(ov) > 1e-9 else 1.0
    d = np.linalg.norm(got - phase * want)
    require(d < bound + 2e-3 * (1 if com else 0.5), "evolution differs from the matrix exponential", d=float(d), bound=float(bound), commuting=com)
    return sorted(labels)


def check_evolve(spec):
    spec = tame(spec)
    n = spec["n"]
    H = build(spec["H"])
    M = herm(dense(spec["H"], n))
    # complex multiples of ladder terms are simulated as a real and an imaginary part
    parts = [[t[0], p] for t in spec["H"] for p in (([t[1][0], 0], [0, t[1][1]]) if isinstance(t[1], list) else (t[1],))]
    mats = [herm(dense([t], n)) for t in parts]
    U = H.trotterization(order=spec["order"], method=spec["method"], forward_evolution=spec["forward"])
    return evolution_check(spec, M, mats, lambda qv, t: U(qv, t=t, steps=spec["steps"], iter=spec["iter"]), labels_of(spec["H"]) | {spec["method"]})


# ------------------------------------------------------------------ fermions


@st.composite
def fermi_case(draw):
    n = draw(st.sampled_from([2, 3, 3, 4]))
    terms = []
    real = draw(st.sampled_from([True, True, False]))
    pool = [s for s in SCALARS[1:] if not (real and isinstance(s, list))]
    for _ in range(draw(st.sampled_from([1, 2, 3, 4]))):
        k = draw(st.sampled_from([0, 1, 2, 2, 2, 3, 4, 4, 4]))
        terms.append([[[draw(st.sampled_from(range(n))), draw(st.booleans())] for _ in range(k)], draw(st.sampled_from(pool))])
    return {
        "n": n,
        "H": terms,
        "order": 1,
        "steps": draw(st.sampled_from([1, 1, 3])),
        "iter": draw(st.sampled_from([1, 1, 2])),
        "forward": draw(st.booleans()),
        "scale": draw(st.sampled_from([0.02, 0.1])),
        "neg": draw(st.booleans()),
        "wrap": draw(st.sampled_from(["none", "none", "control", "invert"])),
        "seed": draw(st.integers(0, 10**6)),
    }


def fdense(terms, n):
    M = np.zeros((2**n, 2**n), dtype=complex)
    for ladder, c in terms:
        T = np.eye(2**n)
        for i, creator in ladder:
            T = T @ ladder_matrix(i, creator, n)
        M = M + num(c) * T
    return M


def fbuild(terms):
    from qrisp.operators import a, c

    total = 0 * a(0)
    for ladder, s in terms:
        t = None
        for i, creator in ladder:
            f = c(i) if creator else a(i)
            t = f if t is None else t * f
        total = total + (num(s) if t is None else num(s) * t)
    return total


def check_fermi(spec):
    spec = tame(spec)
    n = spec["n"]
    H = fbuild(spec["H"])
    M = herm(fdense(spec["H"], n))
    mats = [herm(fdense([t], n)) for t in spec["H"]]
    U = H.trotterization(forward_evolution=spec["forward"])
    labels = {"fermionic"}
    if any(isinstance(c, list) for _, c in spec["H"]):
        labels.add("complex")
    return evolution_check(spec, M, mats, lambda qv, t: U(qv, t=t, steps=spec["steps"], iter=spec["iter"]), labels)


# ------------------------------------------------------------------ Jasp


@st.composite
def jasp_case(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    kind = draw(st.sampled_from(["evolve", "evolve", "evolve", "qdrift", "expect"]))
    spec = {"n": n, "kind": kind, "H": draw(operator(n, True, max_terms=1 if kind == "qdrift" else 3)), "seed": draw(st.integers(0, 10**6))}
    spec["method"] = draw(st.sampled_from(["commuting_qw", "commuting"]))
    spec["order"] = draw(st.sampled_from([1, 2]))
    spec["steps"] = draw(st.sampled_from([1, 3]))
    return spec


def check_jasp(spec):
    from qrisp import QuantumVariable
    from qrisp.jasp import jaspify, terminal_sampling

    from .c11 import apply_dense  # noqa: F401

    n = spec["n"]
    H = build(spec["H"])
    M = herm(dense(spec["H"], n))
    mats = [herm(dense([t], n)) for t in spec["H"]]
    r = np.random.default_rng(spec["seed"])
    pre = [[("ry", float(r.uniform(0.3, 2.8))), ("rz", float(r.uniform(-3, 3)))] for _ in range(n)]
    post = [[("rz", float(r.uniform(-3, 3))), ("ry", float(r.uniform(0.3, 2.8)))] for _ in range(n)]

    def local(qv, gates):
        from qrisp import ry, rz

        for i in range(n):
            for name, th in gates[i]:
                (ry if name == "ry" else rz)(th, qv[i])

    def mat(gates):
        out = np.eye(1)
        for i in range(n):
            m = np.eye(2)
            for name, th in gates[i]:
                g = np.array([[np.cos(th / 2), -np.sin(th / 2)], [np.sin(th / 2), np.cos(th / 2)]]) if name == "ry" else np.diag([np.exp(-1j * th / 2), np.exp(1j * th / 2)])
                m = g @ m
            out = np.kron(out, m)
        return out

    psi = np.zeros(2**n, dtype=complex)
    psi[0] = 1
    psi = mat(pre) @ psi
    L = sum(np.linalg.norm(m, 2) for m in mats) or 1.0
    labels = labels_of(spec["H"]) | {"jasp", spec["kind"]}
    if spec["kind"] == "expect":

        def prep():
            qv = QuantumVariable(n)
            local(qv, pre)
            return qv

        @jaspify(terminal_sampling=True)
        def main():
            return H.expectation_value(prep, precision=0.1, diagonalisation_method=spec["method"])()

        got = float(main())
        want = float(np.real(psi.conj() @ M @ psi))
        c1 = sum(abs(num(c)) for _, c in spec["H"])
        require(abs(got - want) < 1.2 * max(c1, 0.5), "expectation value in Jasp is far from the inner product", got=got, want=want)
        return sorted(labels)
    com = commuting(mats)
    t = 1.3 if com else 0.1 / L
    if spec["kind"] == "qdrift":
        U = H.qdrift()
        if not com or H.hermitize().len() == 0:
            raise Reject()
        # terms of one hermitised term commute but are sampled: only exact for a single simulated term
        if H.hermitize().eliminate_ladder_conjugates().len() > 1:
            raise Reject()
    else:
        U = H.trotterization(order=spec["order"], method=spec["method"])

    def main(t):
        qv = QuantumVariable(n)
        local(qv, pre)
        if spec["kind"] == "qdrift":
            U(qv, t=t, samples=5)
        else:
            U(qv, t=t, steps=spec["steps"])
        local(qv, post)
        return qv

    got = np.zeros(2**n)
    for k, p in terminal_sampling(main)(t).items():
        got[int(format(int(k), f"0{n}b")[::-1], 2)] += float(p)
    want = np.abs(mat(post) @ expm(-1j * M * t) @ psi) ** 2
    x = t * L
    bound = 0 if com else 2 * (x**2 if spec["order"] == 1 else x**3) / spec["steps"]
    d = np.abs(got - want).sum()
    require(d < bound + 4e-3, "evolution in Jasp differs from the matrix exponential", d=float(d), bound=float(bound))
    if not com:
        labels.add("noncommuting")
    return sorted(labels)


FACETS = [
    Facet("expect", expect_case(), check_expect, quick=1200, weight=1.5),
    Facet("evolve", evolve_case(), check_evolve, quick=1200, weight=1.5),
    Facet("fermionic", fermi_case(), check_fermi, quick=700, weight=2.0),
    Facet("jasp", jasp_case(), check_jasp, quick=200, weight=4.0),
]
