"""C21: block encodings encode the matrix their construction and algebra define."""

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, require
from .c05 import data_state
from .c17 import exact_backend
from .c23 import emit, layer, little_index, matrix, vector

PROPERTY = "C21"
RULE = (
    "(algebra) expressions of up to three operations (+, -, scaling from both sides, product, negation, adjoint, tensor product, Chebyshev polynomial, qubitisation) over leaves built from operators, arrays, "
    "diagonals, projectors (numbers, tuples, state functions, kernels), linear combinations of unitaries with complex coefficients and FOQCS operators on one or two variables of 1-2 qubits (3 for leaves), applied to "
    "a random state, also under control. (leaf) single constructors on up to 3 qubits. (measure) expectation values with an exact backend and, traced, repeat-until-success application. Oracle: ancilla-zero "
    "part of the state times alpha equals the numpy matrix of the same expression times the state (exact phase when controlled); alpha bounds the spectral norm; ancillas of scratch type return to |0>. "
    "Non-trivial: the expression has an operation or a leaf with at least two terms."
)
TOL = 2e-3


# ------------------------------------------------------------------ leaves

PAULI = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}


def little(M, n):
    p = little_index(n)
    return np.asarray(M)[np.ix_(p, p)]


def pauli_matrix(word):
    """integer basis: qubit 0 is the least significant"""
    M = np.eye(1)
    for ch in word:
        M = np.kron(PAULI[ch], M)
    return M


def pauli_op(word):
    from qrisp.operators import X, Y, Z

    f = {"X": X, "Y": Y, "Z": Z}
    out = 1
    for i, ch in enumerate(word):
        if ch != "I":
            out = f[ch](i) * out
    return out


def build_leaf(leaf, n):
    """(BlockEncoding, matrix, hermitian)"""
    from qrisp.block_encodings import BlockEncoding

    kind = leaf[0]
    if kind == "op":
        O = sum(c * pauli_op(w) for c, w in leaf[1])
        M = sum(c * pauli_matrix(w) for c, w in leaf[1])
        return BlockEncoding.from_operator(O), M, True
    if kind == "foqcs":
        O = sum(c * pauli_op(w) for c, w in leaf[1])
        M = sum(c * pauli_matrix(w) for c, w in leaf[1])
        return BlockEncoding.from_foqcs_lcu_operator(O), M, True
    if kind == "array":
        r = np.random.default_rng(leaf[1])
        M = r.normal(size=(2**n, 2**n)) + (1j * r.normal(size=(2**n, 2**n)) if leaf[2] else 0)
        if leaf[3]:
            M = np.where(r.random(M.shape) < 0.5, M, 0)
            M[0, -1] = 1.0
        M = M / np.linalg.norm(M)
        return BlockEncoding.from_array(M), (M + M.conj().T) / 2, True
    if kind == "lcu":
        layers = [layer(s, n) for s in leaf[2]]
        us = [(lambda ops: lambda v: emit(ops, v))(ops) for ops in layers]
        coeffs = np.array([complex(*c) for c in leaf[1]])
        M = sum(c * little(matrix(ops, n), n) for c, ops in zip(coeffs, layers))
        if np.abs(coeffs.imag).max() < 1e-12:
            coeffs = coeffs.real
        return BlockEncoding.from_lcu(coeffs, us), M, False
    if kind == "eye":
        return BlockEncoding.from_eye(leaf[1]), np.eye(2**n, k=leaf[1]), leaf[1] == 0
    if kind == "proj":
        def side(s):
            if s[0] == "int":
                v = np.zeros(2**n, dtype=complex)
                v[s[1] % 2**n] = 1
                return s[1] % 2**n, v
            ops = layer(s[1], n)
            return (lambda qv: emit(ops, qv)), vector(ops, n)[little_index(n)]

        fl, vl = side(leaf[1])
        if leaf[3]:
            return BlockEncoding.from_projector(fl, kernel=True), np.eye(2**n) - np.outer(vl, vl.conj()), True
        if leaf[2] is None:
            return BlockEncoding.from_projector(fl), np.outer(vl, vl.conj()), True
        fr, vr = side(leaf[2])
        return BlockEncoding.from_projector(fl, fr), np.outer(vl, vr.conj()), False
    raise ValueError(kind)


def chebyshev(M, k):
    w, V = np.linalg.eigh(M)
    return V @ np.diag(np.polynomial.chebyshev.chebval(w, [0] * k + [1])) @ V.conj().T


def build(node, n):
    """(BlockEncoding, matrix, operand sizes, hermitian) for an expression tree"""
    op = node[0]
    if op == "leaf":
        be, M, h = build_leaf(node[1], n)
        return be, M, [n], h
    a, A, sa, ha = build(node[1], n)
    if op in ("add", "sub", "matmul", "kron"):
        b, B, sb, hb = build(node[2], n)
        if op == "kron":
            return a.kron(b), np.kron(A, B), sa + sb, ha and hb
        if op == "add":
            return a + b, A + B, sa, ha and hb
        if op == "sub":
            return a - b, A - B, sa, ha and hb
        return a @ b, A @ B, sa, False
    if op == "mul":
        return (a * node[2] if node[3] else node[2] * a), node[2] * A, sa, ha
    if op == "neg":
        return -a, -A, sa, ha
    if op == "dagger":
        return a.dagger(), A.conj().T, sa, ha
    if op == "qubitize":
        return a.qubitization(), A, sa, ha
    if op == "cheb":
        if node[2] == 1:
            return a.chebyshev(1, rescale=False), A, sa, ha
        return a.chebyshev(node[2], rescale=False), chebyshev(A / float(a.alpha), node[2]), sa, ha
    raise ValueError(op)


def shape(node, n):
    """operand count and hermiticity without building"""
    op = node[0]
    if op == "leaf":
        k = node[1][0]
        h = k in ("op", "array", "foqcs") or (k == "eye" and node[1][1] == 0) or (k == "proj" and (node[1][3] or node[1][2] is None))
        return 1, h
    ca, ha = shape(node[1], n)
    if op in ("add", "sub", "matmul", "kron"):
        cb, hb = shape(node[2], n)
        if op == "kron":
            return ca + cb, ha and hb
        return ca, ha and hb and op != "matmul"
    return ca, ha


# ------------------------------------------------------------------ strategies

coefficient = st.sampled_from([1.0, -1.0, 0.5, -0.5, 0.7, 2.0, -1.3, 0.25])


@st.composite
def leaves(draw, n, deep=False):
    kinds = ["op", "op", "array", "lcu", "lcu", "eye", "proj", "proj"] + (["foqcs"] if n > 1 else [])
    k = draw(st.sampled_from(kinds))
    if k == "op":
        words = draw(st.lists(st.text("IXYZ", min_size=n, max_size=n).map(lambda w: w if set(w) - {"I"} else "Z" * n), min_size=1, max_size=4 if deep else 3, unique=True))
        return ["op", [[draw(coefficient), w] for w in words]]
    if k == "foqcs":
        words = draw(st.lists(st.tuples(st.sampled_from("XYZ"), st.sampled_from([i for i in range(n)]), st.sampled_from([i for i in range(n)])), min_size=1, max_size=4))
        out = {}
        for P, i, j in words:
            w = "".join(P if t in (i, j) else "I" for t in range(n))
            out[w] = draw(coefficient)
        if all(w[-1] == "I" for w in out):
            # the operator must reach the last qubit of the operand
            out["I" * (n - 1) + "Z"] = draw(coefficient)
        return ["foqcs", [[c, w] for w, c in out.items()]]
    if k == "array":
        return ["array", draw(st.integers(0, 10**6)), draw(st.booleans()), draw(st.booleans())]
    if k == "lcu":
        m = draw(st.sampled_from([1, 2, 2, 3] + ([4, 5] if deep else [])))
        if m == 1:
            cs = [[draw(coefficient), 0.0]]
        else:
            cx = draw(st.sampled_from([0, 1, 2]))
            cs = []
            for _ in range(m):
                c = draw(coefficient)
                cs.append([abs(c) if cx == 0 else c, draw(st.sampled_from([0.0, 0.6, -0.8])) if cx == 2 else 0.0])
        return ["lcu", cs, [draw(st.integers(0, 10**6)) for _ in range(m)]]
    if k == "eye":
        return ["eye", draw(st.sampled_from(list(range(-(2**n) + 1, 2**n))))]
    side = st.one_of(st.tuples(st.just("int"), st.sampled_from(list(range(2**n)))), st.tuples(st.just("state"), st.integers(0, 10**6))).map(list)
    return ["proj", draw(side), draw(st.one_of(st.none(), side)), draw(st.booleans())]


@st.composite
def trees(draw, n, budget):
    if budget == 0:
        return ["leaf", draw(leaves(n))]
    op = draw(st.sampled_from(["add", "sub", "add", "sub", "matmul", "kron", "mul", "neg", "dagger", "qubitize", "cheb"]))
    if op in ("add", "sub", "matmul", "kron"):
        left = draw(st.sampled_from(list(range(budget))))
        a = draw(trees(n, left))
        b = draw(trees(n, budget - 1 - left))
        if op != "kron":
            # both sides need the same number of operands
            while shape(a, n)[0] > 1:
                a = a[1]
            while shape(b, n)[0] > 1:
                b = b[1]
        return [op, a, b]
    a = draw(trees(n, budget - 1))
    if op == "mul":
        return ["mul", a, draw(st.sampled_from([2.0, -1.5, 0.3, -0.25, 3, -1])), draw(st.booleans())]
    if op in ("cheb", "qubitize") and not shape(a, n)[1]:
        return [draw(st.sampled_from(["neg", "dagger"])), a]
    if op == "cheb":
        return ["cheb", a, draw(st.sampled_from([0, 1, 2, 3, 4]))]
    return [op, a]


@st.composite
def algebra(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    return {"n": n, "tree": draw(trees(n, draw(st.sampled_from([1, 2, 2, 3])))), "seed": draw(st.integers(0, 10**6)), "ctrl": draw(st.booleans())}


@st.composite
def leaf_case(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    return {"n": n, "tree": ["leaf", draw(leaves(n, True))], "seed": draw(st.integers(0, 10**6)), "ctrl": draw(st.booleans())}


def words(node):
    if node[0] == "leaf":
        k = node[1]
        out = {k[0]}
        if k[0] in ("op", "foqcs", "lcu") and len(k[1]) > 1:
            out.add("several terms")
        return out
    out = {"op:" + node[0]}
    for ch in node[1:]:
        if isinstance(ch, list) and ch and isinstance(ch[0], str):
            out |= words(ch)
    return out


# ------------------------------------------------------------------ comparison


def block_state(be, sizes, seed, ctrl, what):
    """(operand state, state of [control,] operands with the ancillas in |0>)"""
    from qrisp import QuantumBool, QuantumFloat, control, h

    regs = [QuantumFloat(s) for s in sizes]
    psi = np.ones(1)
    for k, (r, s) in enumerate(zip(regs, sizes)):
        ops = layer(seed + k, s)
        emit(ops, r)
        psi = np.kron(psi, vector(ops, s)[little_index(s)])
    ancs = be.create_ancillas()
    c = []
    if ctrl:
        c = [QuantumBool()]
        h(c[0])
        with control(c[0]):
            be.unitary(*ancs, *regs)
    else:
        be.unitary(*ancs, *regs)
    order = [q for v in c for q in v] + [q for r in regs for q in reversed(list(r))] + [q for a in ancs for q in a]
    qs = regs[0].qs
    # ancillas or operands which never interacted live in other sessions
    alone = [v for v in c + regs + ancs if v.qs is not qs]
    for v in alone:
        from qrisp import merge

        merge(qs, v.qs)
    qs = regs[0].qs
    got = data_state(qs.compile(), order, what)
    na = sum(len(list(a)) for a in ancs)
    return psi, got.reshape(-1, 2**na)[:, 0]


def compare(be, M, sizes, spec, what, tol=TOL, bound=True):
    alpha = float(be.alpha)
    norm = np.linalg.norm(M, 2)
    if bound:
        require(np.isfinite(alpha) and alpha >= norm * (1 - 1e-6) - 1e-9, what + ": the normalisation does not bound the encoded matrix", alpha=alpha, norm=float(norm))
    psi, got = block_state(be, sizes, spec["seed"], spec["ctrl"], what)
    want = M @ psi
    scale = max(alpha, 1.0)
    if spec["ctrl"]:
        half = len(psi)
        want = np.concatenate([psi, want / alpha if alpha else got[half:]]) / np.sqrt(2)
        err = abs(abs(np.vdot(want, got)) - np.linalg.norm(want) ** 2) + abs(np.linalg.norm(want) - np.linalg.norm(got))
        require(err < tol, what + ": state after the controlled block encoding", error=float(err), alpha=alpha)
        return
    got = got * alpha
    err = abs(np.linalg.norm(got) - np.linalg.norm(want))
    if np.linalg.norm(want) > 0.05 * scale:
        err = max(err, np.sqrt(max(0.0, 2 - 2 * min(1.0, abs(np.vdot(want, got)) / (np.linalg.norm(want) * np.linalg.norm(got) + 1e-12)))) * np.linalg.norm(want) / 10)
    require(err < tol * scale * 2, what + ": encoded matrix applied to a state", error=float(err), alpha=alpha)


def check_algebra(spec):
    be, M, sizes, _ = build(spec["tree"], spec["n"])
    what = "block encoding " + describe(spec["tree"])
    compare(be, M, sizes, spec, what)
    out = words(spec["tree"])
    if spec["ctrl"]:
        out.add("controlled")
    return out if spec["tree"][0] != "leaf" or spec["n"] > 1 else set()


def describe(node):
    if node[0] == "leaf":
        return node[1][0]
    return node[0] + "(" + ", ".join(describe(c) for c in node[1:] if isinstance(c, list)) + ")"


# ------------------------------------------------------------------ derived measurements


@st.composite
def measured(draw):
    n = draw(st.sampled_from([1, 2]))
    how = draw(st.sampled_from(["ev", "ev", "ev", "rus"]))
    tree = draw(trees(n, draw(st.sampled_from([0, 1] if how == "ev" else [0]))))
    if how == "ev" and not shape(tree, n)[1]:
        tree = ["leaf", ["op", [[draw(coefficient), "X" * n], [draw(coefficient), "Z" * n]]]]
    return {"n": n, "how": how, "tree": tree, "seed": draw(st.integers(0, 10**6))}


def check_measured(spec):
    from qrisp import QuantumFloat

    be, M, sizes, _ = build(spec["tree"], spec["n"])
    what = "block encoding " + describe(spec["tree"])
    psi = np.ones(1)
    for k, s in enumerate(sizes):
        psi = np.kron(psi, vector(layer(spec["seed"] + k, s), s)[little_index(s)])

    def prep():
        regs = [QuantumFloat(s) for s in sizes]
        for k, (r, s) in enumerate(zip(regs, sizes)):
            emit(layer(spec["seed"] + k, s), r)
        return tuple(regs) if len(regs) > 1 else regs[0]

    if spec["how"] == "ev":
        got = be.expectation_value(prep, shots=1000, backend=exact_backend())()
        want = np.vdot(psi, M @ psi).real
        require(abs(got - want) < 2e-3 * max(1.0, float(be.alpha)), what + ": expectation value", got=float(got), want=float(want))
        return words(spec["tree"]) | {"expectation value"}
    from qrisp.jasp import terminal_sampling

    want = np.abs(M @ psi) ** 2
    p = want.sum() / float(be.alpha) ** 2
    if p < 0.05:
        return set()
    want = want / want.sum()
    got = terminal_sampling(lambda: be.apply_rus(prep)())()
    for i, w in enumerate(want):
        require(abs(got.get(float(i), 0.0) - w) < 3e-3, what + ": repeat-until-success distribution", value=i, got=float(got.get(float(i), 0.0)), want=float(w))
    return words(spec["tree"]) | {"repeat until success"}


FACETS = [
    Facet("algebra", algebra(), check_algebra, quick=150, weight=3),
    Facet("leaf", leaf_case(), check_algebra, quick=150, weight=2),
    Facet("measure", measured(), check_measured, quick=40, weight=2),
]
