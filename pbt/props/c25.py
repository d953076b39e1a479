"""C25: quantum signal processing applies the requested polynomial."""

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, require
from .c05 import data_state
from .c21 import build_leaf, coefficient, compare, leaves, little, pauli_matrix
from .c23 import emit, layer, little_index, matrix, vector

PROPERTY = "C25"
RULE = (
    "(laurent) generalised signal processing of random unitaries on 1-2 qubits with polynomials of degree 0-6 (real, complex, imaginary, with zero coefficients) and Laurent shifts, from coefficients or angles. "
    "(transform) eigenvalue and singular value transformations in both bases, both parities, with and without rescaling, of block encodings built from operators, arrays, projectors, diagonals and linear combinations. "
    "(derived) simulation, inversion (three methods) and threshold pseudo-inversion. (load) cyclic convolution and Fourier series loading. "
    "Oracle: dense polynomial / function of the encoded matrix applied to a random state, scaled by the advertised normalisation. Non-trivial: degree at least one."
)
TOL = 4e-3
coef = st.sampled_from([0.0, 0.0, 1.0, -1.0, 0.5, -0.7, 0.3, 0.25, -0.4])


@st.composite
def polynomial(draw, lo, hi, kind):
    """coefficients as [re, im] pairs, not all zero"""
    d = draw(st.sampled_from(list(range(lo, hi + 1))))
    re = [draw(coef) for _ in range(d + 1)]
    im = [draw(coef) for _ in range(d + 1)]
    if kind == "real":
        im = [0.0] * (d + 1)
    if kind == "imag":
        re = [0.0] * (d + 1)
    if not draw(st.sampled_from([0, 0, 0, 1])) and kind != "imag" and re[-1] == 0:
        re[-1] = 0.6
    out = [[a, b] for a, b in zip(re, im)]
    if all(a == 0 and b == 0 for a, b in out):
        out[draw(st.sampled_from(list(range(d + 1))))] = [0.0, 0.5] if kind == "imag" else [0.5, 0.0]
    return out


def array(p):
    v = np.array([complex(*c) for c in p])
    return v.real if np.abs(v.imag).max() == 0 else v


def direction(got, want, what, tol=TOL):
    """equal up to a factor"""
    a, b = np.linalg.norm(got), np.linalg.norm(want)
    ov = abs(np.vdot(want, got)) / (a * b + 1e-300)
    require(ov > 1 - tol, what, overlap=float(ov))


# ------------------------------------------------------------------ generalised signal processing


@st.composite
def laurent(draw):
    n = draw(st.sampled_from([1, 2]))
    p = draw(polynomial(0, 6, draw(st.sampled_from(["real", "complex", "complex", "imag"]))))
    return {"n": n, "p": p, "k": draw(st.sampled_from(list(range(len(p))))), "angles": draw(st.booleans()), "kwargs": draw(st.booleans()), "u": draw(st.integers(0, 10**6)), "seed": draw(st.integers(0, 10**6))}


def check_laurent(spec):
    from qrisp import QuantumBool, QuantumFloat, merge, p as phase
    from qrisp.algorithms.gqsp import GQSP
    from qrisp.algorithms.gqsp.gqsp_angles import gqsp_angles

    n = spec["n"]
    ops = layer(spec["u"], n)
    prep = layer(spec["seed"], n)
    p = array(spec["p"])
    v = QuantumFloat(n)
    emit(prep, v)
    anc = QuantumBool()

    def U(qv, extra=0.0):
        emit(ops, qv)
        phase(extra, qv[0])

    kw = {"extra": 0.9} if spec["kwargs"] else {}
    (th, ph, la), alpha = gqsp_angles(p)
    if spec["angles"]:
        GQSP(anc, v, unitary=U, angles=(th, ph, la), k=spec["k"], kwargs=kw)
    else:
        GQSP(anc, v, unitary=U, p=p, k=spec["k"], kwargs=kw)
    if anc.qs is not v.qs:
        merge(v.qs, anc.qs)
    what = "generalised signal processing"
    got = data_state(v.qs.compile(), list(v) + list(anc), what).reshape(2**n, 2)[:, 0]
    M = matrix(ops, n)
    if spec["kwargs"]:
        M = np.kron(np.diag([1, np.exp(0.9j)]), np.eye(2 ** (n - 1))) @ M
    psi = vector(prep, n)
    z = np.linalg.matrix_power(M.conj().T, spec["k"]) @ psi
    want = np.zeros_like(psi)
    for c in p:
        want = want + c * z
        z = M @ z
    alpha = float(np.real(alpha))
    require(abs(np.linalg.norm(got) * alpha - np.linalg.norm(want)) < TOL * alpha, what + ": norm of the transformed state", got=float(np.linalg.norm(got) * alpha), want=float(np.linalg.norm(want)))
    if np.linalg.norm(want) > 0.05 * alpha:
        direction(got, want, what)
    return {"degree %d" % (len(p) - 1), "k>0" if spec["k"] else "k=0"} if len(p) > 1 else set()


# ------------------------------------------------------------------ transformations of block encodings


def svt(A, f, parity, conj):
    """U f(S) V^dagger (odd; V f(S) U^dagger if conj), V f(S) V^dagger (even)"""
    U, S, Vh = np.linalg.svd(A)
    F = np.diag([f(s) for s in S])
    if parity == "even":
        return Vh.conj().T @ F @ Vh
    return Vh.conj().T @ F @ U.conj().T if conj else U @ F @ Vh


def eig(A, f):
    w, V = np.linalg.eigh(A)
    return V @ np.diag([f(x) for x in w]) @ V.conj().T


def hermitian_leaf(leaf):
    k = leaf[0]
    return k in ("op", "array", "foqcs") or (k == "eye" and leaf[1] == 0) or (k == "proj" and (leaf[3] or leaf[2] is None))


@st.composite
def transform(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    how = draw(st.sampled_from(["GQET", "QET", "GQSVT", "QSVT"]))
    leaf = draw(leaves(n))
    if how in ("GQET", "QET") and not hermitian_leaf(leaf):
        leaf = ["op", [[draw(coefficient), "X" * n], [draw(coefficient), draw(st.sampled_from(["Z", "Y"])) * n]]]
    pre = draw(st.sampled_from(["", "", "neg", "qubitize", "double", "square", "square", "minus"]))
    if pre == "square" and how in ("GQET", "QET"):
        # terms which do not commute, so the product of the encodings is no Hermitian unitary
        leaf = ["op", [[draw(coefficient), "X" * n], [draw(coefficient), draw(st.sampled_from(["Z", "Y"])) + "X" * (n - 1)]]]
    kind = draw(st.sampled_from(["real", "complex", "imag"])) if how in ("GQET", "GQSVT") else "real"
    p = draw(polynomial(1, 4, kind))
    parity = draw(st.sampled_from(["odd", "even"]))
    if how == "QET":
        p = [c if (i % 2 == 1) == (parity == "odd") else [0.0, 0.0] for i, c in enumerate(p)]
    part = [c for i, c in enumerate(p) if how == "GQET" or (i % 2 == 1) == (parity == "odd")]
    if all(c == [0.0, 0.0] for c in part):
        i = 1 if parity == "odd" else 0
        p[i] = [0.5, 0.0]
    return {
        "n": n, "how": how, "leaf": leaf, "p": p, "parity": parity, "basis": draw(st.sampled_from(["Polynomial", "Chebyshev"])), "rescale": draw(st.sampled_from([True, True, False])),
        "pre": pre, "seed": draw(st.integers(0, 10**6)), "ctrl": draw(st.sampled_from([False, False, False, True])),
    }


def check_transform(spec):
    from qrisp.algorithms import gqsp as G

    n = spec["n"]
    be, A, herm = build_leaf(spec["leaf"], n)
    if spec["pre"] == "neg":
        be, A = -be, -A
    elif spec["pre"] == "qubitize" and herm:
        be = be.qubitization()
    elif spec["pre"] == "square" and spec["leaf"][0] != "foqcs" and (herm or "SVT" in spec["how"]):
        be, A = be @ be, A @ A
    elif spec["pre"] == "minus" and spec["leaf"][0] != "foqcs":
        # A - X/2 is Hermitian if A is
        from qrisp.block_encodings import BlockEncoding
        from qrisp.operators import X

        be, A = be - BlockEncoding.from_operator(0.5 * X(0)), A - pauli_matrix("X" + "I" * (n - 1)) / 2
    elif spec["pre"] == "double":
        be, A = be * 2.0, 2 * A
    what = spec["how"] + " of " + spec["leaf"][0]
    c = array(spec["p"])
    fn = getattr(G, spec["how"])
    kw = {"kind": spec["basis"], "rescale": spec["rescale"]}
    if spec["how"] in ("GQSVT", "QSVT"):
        kw["parity"] = spec["parity"]
        c_eff = np.where((np.arange(len(c)) % 2 == 1) == (spec["parity"] == "odd"), c, 0)
    else:
        c_eff = c
    B = A if spec["rescale"] else A / float(be.alpha)

    def f(x):
        return np.polynomial.chebyshev.chebval(x, c_eff) if spec["basis"] == "Chebyshev" else np.polynomial.polynomial.polyval(x, c_eff)

    want = eig(B, f) if spec["how"] in ("GQET", "QET") else svt(B, f, spec["parity"], spec["how"] == "GQSVT")
    out = fn(be, c, **kw)
    compare(out, want, [n], spec, what, tol=TOL, bound=False)
    return {spec["how"], spec["basis"], spec["leaf"][0], "rescaled" if spec["rescale"] else "raw"}


# ------------------------------------------------------------------ simulation, inversion


@st.composite
def derived(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    how = draw(st.sampled_from(["sim", "sim", "inv", "pinv"]))
    spec = {"n": n, "how": how, "seed": draw(st.integers(0, 10**6)), "ctrl": False}
    if how == "sim":
        leaf = draw(leaves(n))
        if not hermitian_leaf(leaf):
            leaf = ["op", [[draw(coefficient), "X" * n], [draw(coefficient), "Z" * n]]]
        spec |= {"leaf": leaf, "t": draw(st.sampled_from([0.2, 0.5, -0.4, 1.0, 0.0]))}
        return spec
    method = draw(st.sampled_from(["QET", "QSVT", "GQSVT"]))
    spec |= {"method": method, "mat": draw(st.integers(0, 10**6)), "herm": method == "QET" and how == "inv" or draw(st.booleans()), "n": 1}
    return spec


def encoded(spec):
    """a block encoding with singular values of A/alpha in [0.45, 1] (or 0 for some of them)"""
    from qrisp.block_encodings import BlockEncoding

    r = np.random.default_rng(spec["mat"])
    if spec["herm"]:
        a = float(r.uniform(0.75, 0.95)) * (1 if r.random() < 0.5 else -1)
        b = float(r.uniform(0.05, 0.2))
        scale = float(r.choice([1.0, 2.0, 0.5]))
        from qrisp.operators import X, Z

        A = scale * (a * np.diag([1, -1]) + b * np.array([[0, 1], [1, 0]]))
        return BlockEncoding.from_operator(scale * a * Z(0) + scale * b * X(0)), A
    ops = [layer(int(s), 1) for s in r.integers(0, 10**6, 2)]
    cs = np.array([0.8, 0.2]) * float(r.choice([1.0, 2.0, 0.5]))
    us = [(lambda o: lambda v: emit(o, v))(o) for o in ops]
    return BlockEncoding.from_lcu(cs, us), sum(c * little(matrix(o, 1), 1) for c, o in zip(cs, ops))


def check_derived(spec):
    n = spec["n"]
    if spec["how"] == "sim":
        be, A, _ = build_leaf(spec["leaf"], n)
        reach = abs(spec["t"]) * float(be.alpha)
        out = be.sim(spec["t"], int(np.ceil(reach)) + 6)
        compare(out, eig(A, lambda x: np.exp(-1j * spec["t"] * x)), [n], spec, "simulation of " + spec["leaf"][0], tol=TOL, bound=False)
        return {"simulation", spec["leaf"][0]}
    be, A = encoded(spec)
    alpha = float(be.alpha)
    eps = 0.02
    if spec["how"] == "inv":
        out = be.inv(eps, 2.0, method=spec["method"])
        want = np.linalg.inv(A)
        what = "inversion by " + spec["method"]
    else:
        out = be.pseudo_inv(eps, 0.5)
        want = np.linalg.inv(A)
        what = "pseudo-inversion"
    from .c21 import block_state

    psi, got = block_state(out, [n], spec["seed"], False, what)
    got = got * float(out.alpha)
    w = want @ psi
    # precision is stated for A/alpha up to the factor of the normalisation
    ph = np.vdot(got, w)
    err = np.linalg.norm(got * ph / abs(ph) - w)
    require(err < 4 * eps / min(alpha, 1.0), what + ": inverse applied to a state", error=float(err), alpha=alpha)
    return {spec["how"], spec["method"]}


# ------------------------------------------------------------------ convolution and loading


@st.composite
def load(draw):
    how = draw(st.sampled_from(["convolve", "frequencies", "signal", "signal"]))
    n = draw(st.sampled_from([2, 3]))
    d = draw(st.sampled_from([1, 2] if how == "convolve" else [0, 1, 2, 3]))
    m = 2 * d + 1 if how != "signal" else draw(st.sampled_from([8, 16]))
    re = [draw(st.sampled_from([1.0, 0.5, -0.3, 0.8, -1.2, 0.1])) for _ in range(m)]
    im = [draw(st.sampled_from([0.0, 0.4, -0.7])) if draw(st.booleans()) and how != "signal" else 0.0 for _ in range(m)]
    return {"how": how, "n": n, "w": [[a, b] for a, b in zip(re, im)], "k": d if how != "frequencies" else draw(st.sampled_from(list(range(d + 1)))), "mirror": draw(st.booleans()), "seed": draw(st.integers(0, 10**6))}


def check_load(spec):
    from qrisp import QuantumFloat
    from qrisp.algorithms.gqsp import convolve, fourier_series_loader

    n, N = spec["n"], 2 ** spec["n"]
    w = array(spec["w"])
    v = QuantumFloat(n)
    what = "convolution" if spec["how"] == "convolve" else "Fourier series loading from " + spec["how"]
    if spec["how"] == "convolve":
        prep = layer(spec["seed"], n)
        emit(prep, v)
        psi = vector(prep, n)[little_index(n)]
        anc = convolve(v, w)
        d = len(w) // 2
        want = sum(w[k + d] * np.roll(psi, k) for k in range(-d, d + 1))
    else:
        k = spec["k"]
        x = np.arange(N)
        if spec["how"] == "frequencies":
            anc = fourier_series_loader(v, frequencies=w, k=k)
            K = (len(w) - 1) // 2
            want = sum(w[l + K] * np.exp(2j * np.pi * l * x / N) for l in range(-k, k + 1))
        else:
            anc = fourier_series_loader(v, signal=w, k=k, mirror=spec["mirror"])
            s = np.concatenate([w, w[::-1]]) if spec["mirror"] else w
            c = np.fft.fft(s)
            want = sum(c[l] * np.exp(2j * np.pi * l * x / (2 * N if spec["mirror"] else N)) for l in range(-k, k + 1))
    if np.linalg.norm(want) < 0.1:
        return set()
    if anc.qs is not v.qs:
        from qrisp import merge

        merge(v.qs, anc.qs)
    got = data_state(v.qs.compile(), list(reversed(list(v))) + list(anc), what).reshape(N, 2)[:, 0]
    if np.linalg.norm(got) < 0.02:
        return set()
    direction(got, want, what)
    return {spec["how"], "mirror" if spec["mirror"] else "plain"}


FACETS = [
    Facet("laurent", laurent(), check_laurent, quick=150, weight=2),
    Facet("transform", transform(), check_transform, quick=120, weight=4),
    Facet("derived", derived(), check_derived, quick=40, weight=3),
    Facet("load", load(), check_load, quick=60, weight=1),
]
