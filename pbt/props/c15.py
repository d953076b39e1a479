"""C15: state preparation produces the requested amplitudes."""

import math

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, raises, require
from ..jaspkit import distribution, little as probs
from .c11 import apply_all
from .c12 import build, table
from .c14 import final_state, little

RULE = (
    "(static) random target vectors of 1-5 qubits - dense, sparse, single basis states, zero subtrees, real/negative, tiny entries, not normalised - prepared by every method, bit order and "
    "entry point on variables of several types; plain, controlled (both branches, relative phase included), inverted. (jasp) the same in traced programs with the vector as runtime argument, "
    "compared through several read-out bases. (structured) Dicke and unbalanced W states for all sizes/weights, static and traced, controlled, wrong inputs refused. "
    "Oracle: the vector itself. Non-trivial: more than one non-zero amplitude."
)
TOL = 3e-3


@st.composite
def vec_spec(draw, hi=5):
    n = draw(st.sampled_from(range(1, hi + 1)))
    kind = draw(st.sampled_from(["dense", "dense", "sparse", "basis", "real", "subtree", "tiny", "negative", "equal", "two"]))
    return {"n": n, "kind": kind, "seed": draw(st.integers(0, 10**6)), "scale": draw(st.sampled_from([None, 1.0, 7.5, 0.02]))}


def vector(v):
    n, r = v["n"], np.random.default_rng(v["seed"])
    N = 2**n
    a = r.normal(size=N) + 1j * r.normal(size=N)
    k = v["kind"]
    if k == "sparse":
        a = np.where(r.uniform(size=N) < 0.35, a, 0)
    elif k == "basis":
        a = np.zeros(N, dtype=complex)
        a[r.integers(N)] = np.exp(1j * r.uniform(0, 6.28))
    elif k == "two":
        i, j = r.integers(N), r.integers(N)
        b = np.zeros(N, dtype=complex)
        b[i], b[j] = a[0], a[1]
        a = b
    elif k == "real":
        a = a.real + 0j
    elif k == "negative":
        a = -np.abs(a.real) + 0j
    elif k == "equal":
        a = np.exp(1j * r.integers(0, 4, N) * np.pi / 2)
    elif k == "subtree":
        m = r.integers(0, n)
        bit = r.integers(0, 2)
        a = np.where(((np.arange(N) >> m) & 1) == bit, a, 0)
    elif k == "tiny":
        a = np.where(r.uniform(size=N) < 0.5, a, a * 1e-9)
    if np.linalg.norm(a) < 1e-3:
        a[int(r.integers(N))] = 1
    a = a / np.linalg.norm(a)
    return a, a * (v["scale"] or 1.0)


# ------------------------------------------------------------------ static


@st.composite
def static_case(draw):
    v = draw(vec_spec())
    return {
        "vec": v,
        "type": draw(st.sampled_from(["var", "float", "signed", "frac", "modulus"])),
        "api": draw(st.sampled_from(["prepare", "prepare", "init_state", "dict", "setitem"])),
        "method": draw(st.sampled_from(["auto", "qiskit", "qswitch"])),
        "rev": draw(st.booleans()),
        "act": draw(st.sampled_from(["plain", "plain", "control", "zcontrol", "undo", "twice"])),
        "real_dtype": draw(st.booleans()),
        "raw": draw(st.booleans()),
    }


def make_type(spec):
    n, t = spec["vec"]["n"], spec["type"]
    if t == "signed" and n > 1:
        return ["float", n - 1, 0, True]
    if t == "frac":
        return ["float", n, -2, False]
    if t == "modulus":
        return ["modulus", 2**n, 0]
    if t == "float":
        return ["float", n, 0, False]
    return ["var", n]


def check_static(spec):
    from qrisp import QuantumVariable, control, merge, prepare, ry
    from qrisp.environments import invert

    a, given = vector(spec["vec"])
    n = spec["vec"]["n"]
    t = make_type(spec)
    tab = table(t)
    qv = build(t)
    require(qv.size == n, "size of the prepared variable", size=int(qv.size), n=n)
    ctl = QuantumVariable(1)
    merge([qv.qs, ctl.qs])
    if spec["real_dtype"] and np.allclose(given.imag, 0, atol=1e-12):
        given = given.real.copy()
        a = a.real + 0j
    api = spec["api"]
    rev = spec["rev"] and api == "prepare"
    kept = given.copy()

    def go():
        if api == "prepare":
            prepare(qv, given, reversed=rev, method=spec["method"])
        elif api == "init_state":
            qv.init_state(given, method=spec["method"])
        else:
            d = {tab[i]: given[i] for i in range(2**n) if given[i] != 0}
            if api == "dict":
                qv.init_state(d, method=spec["method"])
            else:
                qv[:] = d

    want = a
    if rev:
        want = little(a, n)
    act = spec["act"]
    on = np.array([1.0, 0.0])
    if act in ("control", "zcontrol"):
        ry(1.1, ctl[0])
        on = np.array([math.cos(0.55), math.sin(0.55)])
        with control(ctl[0], ctrl_state=int(act == "control")):
            go()
    elif act == "undo":
        go()
        with invert():
            go()
    elif act == "twice":
        with invert():
            with invert():
                go()
    else:
        go()
    require(np.array_equal(kept, given), "the given vector was modified")
    zero = np.zeros(2**n, dtype=complex)
    zero[0] = 1
    full = np.concatenate([on[0] * (want if act in ("plain", "twice", "zcontrol") else zero), on[1] * (want if act == "control" else zero)])
    got = final_state(qv.qs, list(qv.reg) + list(ctl.reg), "state preparation", raw=spec["raw"])
    ov = abs(np.vdot(full, got))
    require(abs(ov - 1) < TOL, f"prepared state ({api}, {spec['method']}, {act})", overlap=float(ov))
    if spec["vec"]["kind"] == "basis" or np.sum(np.abs(a) > 1e-6) < 2:
        return []
    return sorted({spec["vec"]["kind"], api, spec["method"], act, spec["type"]} | ({"reversed"} if rev else set()))


# ------------------------------------------------------------------ traced


@st.composite
def jasp_case(draw):
    return {
        "vec": draw(vec_spec(hi=4)),
        "vec2": draw(vec_spec(hi=4)),
        "method": draw(st.sampled_from(["auto", "qswitch", "qswitch", "qiskit"])),
        "rev": draw(st.booleans()),
        "api": draw(st.sampled_from(["prepare", "init_state"])),
    }


def check_jasp(spec):
    from qrisp import QuantumFloat, prepare, rx, ry

    n = spec["vec"]["n"]
    vecs = [vector(spec["vec"]), vector({**spec["vec2"], "n": n})]
    traced = spec["method"] != "qiskit"
    rev = spec["rev"] and (spec["api"] == "prepare" or not traced)

    def main(b, s):
        qf = QuantumFloat(n)
        src = b if traced else vecs[0][1]
        if spec["api"] == "prepare" or not traced:
            prepare(qf, src, reversed=rev, method=spec["method"])
        else:
            qf.init_state(src, method=spec["method"])
        for i in range(n):
            rx(s * (0.7 + 0.3 * i), qf[i])
            ry(s * (1.2 - 0.2 * i), qf[i])
        return qf

    for basis in (1, 0):
        for a, given in [vecs[0]] if basis or not traced else [vecs[1]]:
            got = distribution(main, [n], given + 0j, float(basis))
            psi = little(little(a, n) if rev else a, n)  # big-endian vector of the register
            ops = []
            for i in range(n):
                ops += [["rx", [i], [basis * (0.7 + 0.3 * i)]], ["ry", [i], [basis * (1.2 - 0.2 * i)]]]
            want = probs(apply_all(ops, psi, n), n)
            d = float(np.sum(np.abs(got.reshape(-1) - want)))
            require(d < 5e-3, f"traced state preparation ({spec['method']})", d=d, basis=basis)
    if np.sum(np.abs(vecs[0][0]) > 1e-6) < 2:
        return []
    return sorted({spec["vec"]["kind"], spec["method"], spec["api"]} | ({"reversed"} if rev else set()))


# ------------------------------------------------------------------ structured states


@st.composite
def struct_case(draw):
    what = draw(st.sampled_from(["dicke", "dicke", "w", "w"]))
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6]))
    return {
        "what": what,
        "n": n,
        "k": draw(st.sampled_from(range(n + 1))),
        "seed": draw(st.integers(0, 10**6)),
        "zeros": draw(st.sampled_from(["none", "some", "lead", "tail"])),
        "real": draw(st.booleans()),
        "act": draw(st.sampled_from(["plain", "list", "control", "undo", "jasp"])),
        "bad": draw(st.booleans()),
    }


def check_struct(spec):
    from qrisp import QuantumFloat, QuantumVariable, control, dicke_state, merge, ry, rx, unbalanced_w_state, x
    from qrisp.environments import invert

    n, act = spec["n"], spec["act"]
    r = np.random.default_rng(spec["seed"])
    a = r.normal(size=n) + (0 if spec["real"] else 1j * r.normal(size=n))
    if spec["zeros"] == "some":
        a = np.where(r.uniform(size=n) < 0.5, a, 0)
    elif spec["zeros"] == "lead":
        a[: r.integers(0, n)] = 0
    elif spec["zeros"] == "tail":
        a[r.integers(1, n + 1) :] = 0
    if np.linalg.norm(a) < 1e-6:
        a[int(r.integers(n))] = 1.0
    k = spec["k"]
    if spec["what"] == "dicke" and n == 1:
        k = 1
    if spec["what"] == "dicke":
        k = max(k, 1)
    want = np.zeros(2**n, dtype=complex)
    init = np.zeros(2**n, dtype=complex)
    if spec["what"] == "dicke":
        for i in range(2**n):
            if bin(i).count("1") == k:
                want[i] = 1 / math.sqrt(math.comb(n, k))
        init[sum(1 << i for i in range(n - k, n))] = 1
    else:
        for i in range(n):
            want[1 << i] = a[i] / np.linalg.norm(a)
        init[0] = 1

    def start(q):
        if spec["what"] == "dicke":
            for i in range(n - k, n):
                x(q[i])

    def go(q, amps=a, k=k):
        if spec["what"] == "dicke":
            dicke_state(q, k)
        else:
            unbalanced_w_state(q, amps)

    if act == "jasp":

        def main(amps, k, s):
            q = QuantumFloat(n)
            start(q)
            go(q, amps, k)
            for i in range(n):
                rx(s * (0.7 + 0.3 * i), q[i])
            return q

        for s in (0, 1):
            got = distribution(main, [n], a, k, float(s))
            psi = apply_all([["rx", [i], [s * (0.7 + 0.3 * i)]] for i in range(n)], little(want, n), n)
            d = float(np.sum(np.abs(got.reshape(-1) - probs(psi, n))))
            require(d < 5e-3, f"traced {spec['what']} state", d=d, s=s)
        return sorted({spec["what"], act}) if n > 1 else []
    qv = QuantumVariable(n)
    if spec["what"] == "w" and spec["bad"]:
        require(raises(lambda: unbalanced_w_state(qv, np.ones(n + 1)), ValueError), "wrong number of W amplitudes accepted")
        require(raises(lambda: unbalanced_w_state(qv, np.zeros(n)), ValueError), "zero W amplitudes accepted")
    ctl = QuantumVariable(1)
    merge([qv.qs, ctl.qs])
    start(qv)
    on = np.array([1.0, 0.0])
    if act == "control":
        ry(1.1, ctl[0])
        on = np.array([math.cos(0.55), math.sin(0.55)])
        with control(ctl[0]):
            go(qv)
    elif act == "undo":
        go(qv)
        with invert():
            go(qv)
    else:
        go(list(qv) if act == "list" else qv)
    full = np.concatenate([on[0] * (want if act in ("plain", "list") else init), on[1] * (want if act == "control" else init)])
    got = final_state(qv.qs, list(qv.reg) + list(ctl.reg), spec["what"] + " state")
    ov = abs(np.vdot(full, got))
    require(abs(ov - 1) < TOL, f"{spec['what']} state ({act})", overlap=float(ov), k=k)
    return sorted({spec["what"], act, "zeros_" + spec["zeros"] if spec["what"] == "w" else "k"}) if n > 1 else []


FACETS = [
    Facet("static", static_case(), check_static, quick=500),
    Facet("jasp", jasp_case(), check_jasp, quick=32, thorough=200, chunk=4, weight=30.0),
    Facet("structured", struct_case(), check_struct, quick=300),
]
