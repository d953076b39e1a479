"""C08: quantum number arithmetic equals exact fixed-point arithmetic.

Oracle: exact rational arithmetic (Fractions) on every basis value; a generic product state is
pushed through the operation and every amplitude of (operands, results) is compared.
"""

from fractions import Fraction as Fr
from math import ceil, floor, isqrt

import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Facet, Reject, require
from .c01 import op_object
from .c05 import data_state

PROPERTY = "C08"
RULE = (
    "operands of 1-4 bits with exponents -3..2 and optional sign in generic superposition; +, -, *, /, //, powers, polynomials, comparisons (also with "
    "real constants on either side), in-place +=, -=, *=, shifts, bit shifts, floor/ceil/round/fractional, min/max, integer square root, "
    "quotient and remainder, phase polynomials; amplitudes of the joint state of operands and results are compared with exact "
    "arithmetic (in-place: modulo the width), all other qubits must be |0>. In Jasp: joint distribution of the program's outputs. "
    "Non-trivial: formats differ in exponent (mixed), signed operand (signed), fractional operand (frac), wrap-around occurred (wrap), ..."
)
TOL = 1e-3


@st.composite
def fmt(draw, lo=1, hi=3, signed=None, exps=(-2, -1, 0, 0, 1)):
    s = draw(st.booleans()) if signed is None else signed
    return [draw(st.integers(lo, hi)), draw(st.sampled_from(list(exps))), s]


def values(f):
    """value of each encoded integer"""
    m, e, s = f
    n = m + int(s)
    out = []
    for i in range(2**n):
        v = i - 2**n if s and i >= 2**m else i
        out.append(Fr(v) * Fr(2) ** e)
    return out


def size(f):
    return f[0] + int(f[2])


def make(f):
    from qrisp import QuantumFloat

    return QuantumFloat(f[0], f[1], signed=f[2])


def prepare(qvs, seed):
    """generic product state; returns per variable amplitude arrays indexed by the encoded integer"""
    r = np.random.default_rng(seed)
    amps = []
    for v in qvs:
        a = np.ones(1, dtype=complex)
        for i in range(v.size):
            p = [float(x) for x in r.uniform(0.7, 2.3, 3)]
            v.qs.append(op_object(["u3", [0], p]), [v[i]])
            col = ref.u3(*p)[:, 0]
            a = np.concatenate([a * col[0], a * col[1]])  # little endian
        amps.append(a)
    return amps


def encode(v, value, mod, what):
    """encoded integer of an exact value in the (current) format of a variable"""
    from qrisp import QuantumBool

    if isinstance(v, QuantumBool):
        return int(value)
    e, s, n = int(v.exponent), bool(v.signed), int(v.size)
    k = Fr(value) / Fr(2) ** e
    require(k.denominator == 1, what + ": the result format cannot hold the exact result", value=str(value), exponent=e)
    k = int(k)
    lo, hi = (-(2 ** (n - 1)), 2 ** (n - 1)) if s else (0, 2**n)
    if not mod:
        require(lo <= k < hi, what + ": the result format cannot hold the exact result", value=str(value), size=n, exponent=e, signed=s)
    return k % 2**n


def compare(session, outs, terms, what, phase=False):
    """outs: list of variables; terms: list of (amplitude, [encoded integer per variable])"""
    from qrisp.core import merge

    if len({id(v.qs) for v in outs}) > 1:  # e.g. a polynomial which is identically zero
        merge(*outs)
        session = outs[0].qs
    sizes = [int(v.size) for v in outs]
    qubits = [q for v in outs for q in list(v)]
    qc = session.compile()
    if len(qc.qubits) > 19:
        raise Reject()
    got = data_state(qc, qubits, what)
    want = np.zeros(2 ** sum(sizes), dtype=complex)
    for amp, idx in terms:
        pos = 0
        for k, n in zip(idx, sizes):
            pos = (pos << n) | int(format(k, f"0{n}b")[::-1], 2)  # qubit 0 of a variable is its lowest bit
        want[pos] += amp
    d = ref.dist_phase(got, want)
    if d > TOL:
        i = int(np.argmax(np.abs(np.abs(got) - np.abs(want)))) if not phase else -1
        require(False, what + " differs from exact arithmetic", d=float(d), at=i)


# ------------------------------------------------------------------ two operands

QQ = ["add", "sub", "mul", "iadd", "isub", "lt", "gt", "le", "ge", "eq", "ne", "max", "min", "sbp_mult", "inpl_add"]
QQ_UINT = ["floordiv", "divmod", "div", "qshift"]


@st.composite
def qq_case(draw):
    op = draw(st.sampled_from(QQ + QQ_UINT))
    spec = {"op": op, "seed": draw(st.integers(0, 10**6))}
    if op in ("floordiv", "divmod", "div"):
        spec["a"] = draw(fmt(1, 3, False if op == "floordiv" else None, (0, 1) if op == "floordiv" else (-1, 0, 1)))
        spec["b"] = draw(fmt(1, 2, False if op == "floordiv" else None, (0,) if op == "floordiv" else (-1, 0, 1)))
        if op == "divmod":
            spec["prec"] = draw(st.integers(0, 2))
        if op == "div":
            spec["prec"] = draw(st.integers(0, 2))
    elif op == "qshift":
        spec["a"] = draw(fmt(1, 3, False))
        spec["b"] = [draw(st.integers(1, 2)), 0, False]
    else:
        spec["a"] = draw(fmt(1, 4))
        spec["b"] = draw(fmt(1, 3))
        if op in ("iadd", "isub", "inpl_add"):
            # the added number must not be finer than the target; unsigned targets take unsigned numbers
            if spec["b"][1] < spec["a"][1]:
                spec["b"][1] = spec["a"][1] + draw(st.integers(0, 1))
            if spec["b"][2] and not spec["a"][2]:
                spec["b"][2] = False
            if op == "inpl_add":
                top = spec["a"][0] + spec["a"][1]
                spec["b"][1] = max(spec["a"][1], min(spec["b"][1], top - 1))
                spec["b"][0] = max(1, min(spec["b"][0], top - spec["b"][1]))
        if op in ("mul", "sbp_mult"):
            spec["a"][0] = min(spec["a"][0], 3)
    return spec


def run_qq(spec):
    from qrisp import QuantumBool  # noqa: F401
    from qrisp import inpl_add, q_divmod, q_max, q_min, sbp_mult
    from qrisp.alg_primitives.arithmetic import q_div

    op = spec["op"]
    a, b = make(spec["a"]), make(spec["b"])
    amps = prepare([a, b], spec["seed"])
    f = {
        "add": lambda: a + b,
        "sub": lambda: a - b,
        "mul": lambda: a * b,
        "lt": lambda: a < b,
        "gt": lambda: a > b,
        "le": lambda: a <= b,
        "ge": lambda: a >= b,
        "eq": lambda: a == b,
        "ne": lambda: a != b,
        "max": lambda: q_max(a, b),
        "min": lambda: q_min(a, b),
        "sbp_mult": lambda: sbp_mult(a, b),
        "floordiv": lambda: a // b,
        "divmod": lambda: q_divmod(a, b, prec=spec["prec"]),
        "div": lambda: q_div(a, b, prec=spec["prec"]),
    }
    if op in f:
        r = f[op]()
        return a, b, list(r) if isinstance(r, tuple) else [r], amps
    if op == "iadd":
        a += b
    elif op == "isub":
        a -= b
    elif op == "inpl_add":
        inpl_add(a, b)
    elif op == "qshift":
        a.quantum_bit_shift(b)
    return a, b, [], amps


CMP = {
    "lt": lambda x, y: x < y,
    "gt": lambda x, y: x > y,
    "le": lambda x, y: x <= y,
    "ge": lambda x, y: x >= y,
    "eq": lambda x, y: x == y,
    "ne": lambda x, y: x != y,
}


def quot(x, y, prec, q_exp):
    """quotient as computed by non-restoring division: rounded towards minus infinity"""
    k = Fr(x) / Fr(y) * 2**prec
    return Fr(floor(k), 2**prec)


def check_qq(spec):
    from qrisp.core import merge

    op = spec["op"]
    a, b, res, amps = run_qq(spec)
    merge(a, b)
    va, vb = values(spec["a"]), values(spec["b"])
    labels = fmt_labels([spec["a"], spec["b"]])
    if op in ("divmod", "div", "floordiv"):
        return check_division(spec, a, b, res, amps, va, vb) + labels
    terms = []
    for i, x in enumerate(va):
        for j, y in enumerate(vb):
            amp = amps[0][i] * amps[1][j]
            if op in CMP:
                out = [encode(a, x, False, op), encode(b, y, False, op), int(CMP[op](x, y))]
            elif op in ("iadd", "isub", "inpl_add"):
                z = x - y if op == "isub" else x + y
                out = [encode(a, z, True, op), j]
                if z not in va:
                    labels.append("wrap")
            elif op == "qshift":
                out = [encode(a, x * Fr(2) ** int(y), True, op), j]
                if int(y) and x:
                    labels.append("shift")
            else:
                z = {"add": x + y, "sub": x - y, "mul": x * y, "sbp_mult": x * y, "max": max(x, y), "min": min(x, y)}[op]
                out = [i, j, encode(res[0], z, False, op)]
            terms.append((amp, out))
    compare(a.qs, [a, b] + res, terms, op)
    return sorted(set(labels))


def check_division(spec, a, b, res, amps, va, vb):
    """q * d + r = n with |q - n/d| < 2**-prec for every non-zero divisor"""
    from qrisp import multi_measurement

    op, prec = spec["op"], spec.get("prec", 0)
    if len(a.qs.compile().qubits) > 19:
        raise Reject()
    m = multi_measurement([a, b] + res)
    if op != "divmod":
        # the remainder is uncomputed: no other qubit may stay dirty for valid divisors
        pass
    for key, p in m.items():
        if p < 1e-5:
            continue
        key = [Fr(k) for k in key]
        x, y, q = key[:3]
        if y == 0:
            continue
        require(abs(q - x / y) < Fr(1, 2**prec), "quotient is not within its precision", numerator=str(x), divisor=str(y), quotient=str(q), prec=prec)
        if op == "divmod":
            require(q * y + key[3] == x, "quotient * divisor + remainder is not the numerator", numerator=str(x), divisor=str(y), quotient=str(q), remainder=str(key[3]))
        if op == "floordiv":
            require(q == floor(x / y), "wrong floor division", numerator=str(x), divisor=str(y), quotient=str(q))
    # operands keep their distribution
    P = np.outer(np.abs(amps[0]) ** 2, np.abs(amps[1]) ** 2)
    G = np.zeros_like(P)
    for key, p in m.items():
        G[va.index(Fr(key[0])), vb.index(Fr(key[1]))] += p
    require(np.abs(P - G).max() < 2e-3, "division changed an operand", d=float(np.abs(P - G).max()))
    return ["division"]


def fmt_labels(fs):
    out = []
    if len(fs) > 1 and fs[0][1] != fs[1][1]:
        out.append("mixed")
    if any(f[2] for f in fs):
        out.append("signed")
    if any(f[1] < 0 for f in fs):
        out.append("frac")
    if len(fs) > 1 and size(fs[0]) != size(fs[1]):
        out.append("sizes")
    return out


# ------------------------------------------------------------------ one operand

ONE = [
    "addc", "raddc", "subc", "rsubc", "mulc", "rmulc", "iaddc", "isubc", "imulc", "ltc", "gtc", "lec", "gec", "eqc", "nec", "rltc", "rgtc", "rlec", "rgec",
    "shl", "shr", "qshiftc", "incr", "square", "pow", "floor", "ceil", "round", "fractional", "modf", "isqrt", "inv", "init_from", "truncate", "significant",
]  # fmt: skip


@st.composite
def one_case(draw):
    op = draw(st.sampled_from(ONE))
    spec = {"op": op, "seed": draw(st.integers(0, 10**6)), "a": draw(fmt(1, 4, None, (-3, -2, -1, 0, 0, 1)))}
    f = spec["a"]
    if op in ("mulc", "rmulc"):
        spec["c"] = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, -1, -2, -3, -4, -6]))
    elif op == "imulc":
        spec["c"] = draw(st.sampled_from([1, 2, 3, 4, 5, 6, -1, -2, -3, 0.5, 1.5, -0.5, 0.75]))
        if spec["c"] < 0:
            f[2] = True
    elif op in ("shl", "shr"):
        spec["c"] = draw(st.integers(0, 3))
    elif op == "qshiftc":
        spec["c"] = draw(st.integers(-2, 3))
    elif op in ("addc", "raddc", "subc", "rsubc", "iaddc", "isubc", "incr"):
        spec["c"] = draw(st.integers(-6, 9)) * 2.0 ** f[1]
        if spec["c"] == int(spec["c"]):
            spec["c"] = int(spec["c"])
    elif op.endswith("c"):
        spec["c"] = draw(st.sampled_from([0, 1, 2, 3, -1, -2, 0.5, 0.25, -0.75, 1.3, 2.9, 100, -100, 5, 7, 8, -4, -8, 4, 0.1]))
    if op == "incr":
        spec["c"] = draw(st.integers(1 - 2 ** f[0], 2 ** f[0] - 1)) * 2.0 ** f[1]
    if op == "pow":
        spec["c"] = draw(st.integers(0, 3))
        f[0] = min(f[0], 2)
        f[2] = False
        if spec["c"] == 0:
            f[1] = 0
    if op == "square":
        f[0] = min(f[0], 3)
    if op == "isqrt":
        f[1], f[2] = 0, False
    if op in ("inv",):
        f[0] = min(f[0], 2)
        spec["c"] = draw(st.integers(0, 3))
        f[1] = max(f[1], -1)
    if op in ("floor", "ceil", "round", "fractional", "modf"):
        f[1] = draw(st.sampled_from([0, -1, -2, -3]))
        f[0] = max(f[0], 1 - f[1])  # at least one integer bit
        f[0] = min(f[0], 4)
    if op == "init_from":
        g = [f[0] + draw(st.integers(0, 2)), f[1], f[2] or draw(st.booleans())]
        k = draw(st.integers(0, 1))
        g[1] -= k
        g[0] += k
        if g[2] and not f[2]:
            g[0] = g[0]
        spec["g"] = g
    return spec


def check_one(spec):
    from qrisp import QuantumFloat, q_ceil, q_floor, q_fractional, q_isqrt, q_modf, q_round
    from qrisp.alg_primitives.arithmetic import qf_inversion
    from qrisp.core import merge

    op, f, c = spec["op"], spec["a"], spec.get("c")
    a = make(f)
    amps = prepare([a], spec["seed"])[0]
    va = values(f)
    labels = fmt_labels([f])
    C = None if c is None else Fr(c)
    res, mod, keep, fn = [], False, True, None
    if op in ("addc", "raddc", "subc"):
        r = {"addc": lambda: a + c, "raddc": lambda: c + a, "subc": lambda: a - c}[op]()
        res, mod, fn = [r], True, (lambda x: x - C) if op == "subc" else (lambda x: x + C)
    elif op == "rsubc":
        res, mod, fn = [c - a], True, lambda x: C - x
    elif op in ("mulc", "rmulc"):
        r = a * c if op == "mulc" else c * a
        res, fn, mod = [r], mult_by(C, f, va), c < 0 and f[2]
    elif op == "square":
        res, fn = [a * a], lambda x: x * x
    elif op == "pow":
        res, fn = [a**c], lambda x: x**c
        merge(a, res[0])
    elif op in ("iaddc", "isubc", "incr"):
        if op == "iaddc":
            a += c
        elif op == "isubc":
            a -= c
        else:
            a.incr(c)
        mod, keep, fn = True, False, (lambda x: x - C) if op == "isubc" else (lambda x: x + C)
    elif op == "imulc":
        a *= c
        mod, keep, fn = c < 0, False, mult_by(C, f, va)
    elif op == "shl":
        a <<= c
        keep, fn = False, lambda x: x * 2**c
    elif op == "shr":
        a >>= c
        keep, fn = False, lambda x: x / 2**c
    elif op == "qshiftc":
        a.quantum_bit_shift(c)
        keep, fn = False, lambda x: x * Fr(2) ** c
    elif op in ("ltc", "gtc", "lec", "gec", "eqc", "nec"):
        k = op[:-1]
        r = {"lt": lambda: a < c, "gt": lambda: a > c, "le": lambda: a <= c, "ge": lambda: a >= c, "eq": lambda: a == c, "ne": lambda: a != c}[k]()
        res, fn = [r], lambda x: CMP[k](x, C)
    elif op in ("rltc", "rgtc", "rlec", "rgec"):
        k = op[1:-1]
        r = {"lt": lambda: c < a, "gt": lambda: c > a, "le": lambda: c <= a, "ge": lambda: c >= a}[k]()
        res, fn = [r], lambda x: CMP[k](C, x)
    elif op in ("floor", "ceil", "round", "fractional"):
        r = {"floor": q_floor, "ceil": q_ceil, "round": q_round, "fractional": q_fractional}[op](a)
        res, mod = [r], True
        fn = {"floor": floor, "ceil": ceil, "round": lambda x: floor(x + Fr(1, 2)), "fractional": frac}[op]
    elif op == "modf":
        r = q_modf(a)
        res, mod, fn = list(r), True, lambda x: (Fr(floor(x)), frac(x))
    elif op == "isqrt":
        res, keep, fn = [q_isqrt(a)], False, None
        terms = []
        for i, x in enumerate(va):
            s = isqrt(int(x))
            terms.append((amps[i], [encode(a, x - s * s, False, op), encode(res[0], s, False, op)]))
        compare(a.qs, [a] + res, terms, op)
        return labels + ["isqrt"]
    elif op == "inv":
        from qrisp import multi_measurement

        r = qf_inversion(a, prec=c)
        if len(a.qs.compile().qubits) > 19:
            raise Reject()
        for (x, q), p in multi_measurement([a, r]).items():
            x, q = Fr(x), Fr(q)
            if x and p > 1e-5:
                require(abs(q - 1 / x) < Fr(1, 2**c), "inverse is not within its precision", x=str(x), inverse=str(q), prec=c)
        return labels + ["division"]
    elif op == "init_from":
        g = spec["g"]
        r = QuantumFloat(g[0], g[1], signed=g[2])
        r.init_from(a)
        res, fn = [r], lambda x: x
    elif op == "truncate":
        r = np.random.default_rng(spec["seed"])
        lo, hi = min(va), max(va)
        for x in list(r.uniform(float(lo) - 1, float(hi) + 1, 6)):
            t = Fr(a.truncate(float(x)))
            best = min(abs(v - Fr(float(x))) for v in va)
            require(t in va and abs(abs(t - Fr(float(x))) - best) < Fr(1, 10**9), "truncate does not return the closest representable number", x=float(x), got=float(t))
        return labels
    elif op == "significant":
        r = np.random.default_rng(spec["seed"])
        k = int(r.integers(f[1], f[1] + f[0]))
        a.qs.append(op_object(["x", [0]]), [a.significant(k)])
        i0 = k - f[1]
        terms = [(amps[i], [i ^ (1 << i0)]) for i in range(len(va))]
        compare(a.qs, [a], terms, op)
        return labels
    terms = []
    for i, x in enumerate(va):
        z = fn(x)
        zs = list(z) if isinstance(z, tuple) else [z]
        outs = [encode(v, y, mod, op) for v, y in zip(res or [a], zs)]
        if mod and any(Fr(y) not in va for y in zs) and res[:1] != []:
            labels.append("wrap")
        terms.append((amps[i], ([i] if keep else []) + outs))
    compare(a.qs, ([a] if keep else []) + (res or [a]), terms, op)
    return sorted(set(labels))


def mult_by(C, f, va):
    """multiplication with -2**k keeps the width, so that the smallest number has no counterpart and wraps"""
    power = C.numerator & (C.numerator - 1) == 0 if C > 0 else -C.numerator & (-C.numerator - 1) == 0
    if C < 0 and power and f[2]:
        return lambda x: (x if x == min(va) else -x) * abs(C)
    return lambda x: x * C


def frac(x):
    """the fractional part carries the sign of the number"""
    return x - floor(x) if x >= 0 else x - ceil(x)


# ------------------------------------------------------------------ polynomials


@st.composite
def poly_case(draw):
    n = draw(st.integers(1, 2))
    fs = [draw(fmt(1, 2 if n > 1 else 3)) for _ in range(n)]
    terms = draw(st.lists(st.tuples(st.integers(-5, 5), st.lists(st.integers(0, 2), min_size=n, max_size=n)), min_size=1, max_size=3))
    for i in range(n):  # every variable occurs
        if not any(c and e[i] for c, e in terms):
            terms.append((draw(st.sampled_from([-3, -1, 1, 2])), [int(i == j) for j in range(n)]))
    return {
        "fs": fs,
        "terms": [[c, e] for c, e in terms],
        "kind": draw(st.sampled_from(["encode", "encode", "phase"])),
        "out": [draw(st.integers(3, 6)), 0, any(f[2] for f in fs) or draw(st.booleans())],
        "start": draw(st.booleans()),
        "mult": draw(st.sampled_from([1, 1, 3, 5, -1])),
        "t": draw(st.sampled_from([1, 0.37, -0.21])),
        "seed": draw(st.integers(0, 10**6)),
    }


def check_poly(spec):
    import sympy as sp
    from qrisp import app_phase_polynomial, polynomial_encoder
    from qrisp.core import merge

    fs = [list(f) for f in spec["fs"]]
    n = len(fs)
    syms = sp.symbols("x y")[:n]
    poly = sum((c * sp.prod([s**k for s, k in zip(syms, e)]) for c, e in spec["terms"]), sp.Integer(0))
    if any(s not in poly.free_symbols for s in syms):
        raise Reject()
    qfs = [make(f) for f in fs]

    def P(xs):
        return sum((Fr(c) * np.prod([x**k for x, k in zip(xs, e)]) for c, e in spec["terms"]), Fr(0))

    import itertools

    if spec["kind"] == "phase":
        amps = prepare(qfs, spec["seed"])
        app_phase_polynomial(qfs, poly, symbol_list=list(syms), t=spec["t"])
        merge(*qfs) if n > 1 else None
        terms = []
        for idx in itertools.product(*[range(2 ** size(f)) for f in fs]):
            xs = [values(f)[i] for f, i in zip(fs, idx)]
            amp = np.prod([a[i] for a, i in zip(amps, idx)]) * np.exp(1j * spec["t"] * float(P(xs)))
            terms.append((amp, list(idx)))
        compare(qfs[0].qs, qfs, terms, "phase polynomial", phase=True)
        return ["phase"] + fmt_labels(fs)
    e_out = min([sum(f[1] * k for f, k in zip(fs, e)) for _, e in spec["terms"]] + [0])
    out = [spec["out"][0], e_out, spec["out"][2]]
    o = make(out)
    ops = qfs + ([o] if spec["start"] else [])
    amps = prepare(ops, spec["seed"])
    mult = spec["mult"]
    polynomial_encoder(qfs, o, poly, {q: s for q, s in zip(qfs, syms)}, **({"inplace_mult": mult} if mult != 1 else {}))
    terms = []
    for idx in itertools.product(*[range(2 ** size(f)) for f in fs + ([out] if spec["start"] else [])]):
        xs = [values(f)[i] for f, i in zip(fs, idx)]
        amp = np.prod([a[i] for a, i in zip(amps, idx)])
        z = P(xs) + (mult * values(out)[idx[n]] if spec["start"] else 0)
        terms.append((amp, list(idx[:n]) + [encode(o, z, True, "polynomial")]))
    compare(o.qs, qfs + [o], terms, "polynomial")
    return ["poly"] + fmt_labels(fs)


# ------------------------------------------------------------------ Jasp (unsigned integers)

JASP = ["add", "sub", "mul", "square", "lt", "gt", "le", "ge", "eq", "ne", "max", "min", "iadd", "isub"]
JASP_C = ["add", "sub", "iadd", "isub", "lt", "gt", "le", "ge", "eq", "ne", "rlt", "rgt", "rle", "rge"]


@st.composite
def jasp_case(draw):
    second = draw(st.sampled_from(["q", "q", "c", "dyn"]))
    op = draw(st.sampled_from(JASP if second == "q" else JASP_C))
    m = draw(st.integers(1, 4))
    spec = {
        "op": op,
        "second": second,
        "m": m,
        "n": draw(st.integers(1, 4 if op != "mul" else 3)),
        "wrap": draw(st.sampled_from(["none", "none", "control", "invert", "invert_control"])) if op[0] == "i" else "none",
        "seed": draw(st.integers(0, 10**6)),
    }
    if op in ("mul", "square"):
        spec["m"] = min(m, 3)
    if second != "q":
        spec["c"] = draw(st.integers(0, 2**m - 1 if op in ("add", "sub", "iadd", "isub", "eq", "ne") else 2**m + 2))
    return spec


def apply_op(op, a, b):
    from qrisp import q_max, q_min

    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "square":
        return a * a
    if op == "max":
        return q_max(a, b)
    if op == "min":
        return q_min(a, b)
    if op == "iadd":
        a += b
        return None
    if op == "isub":
        a -= b
        return None
    if op[0] == "r":
        a, b, op = b, a, op[1:]
    return {
        "lt": lambda: a < b,
        "gt": lambda: a > b,
        "le": lambda: a <= b,
        "ge": lambda: a >= b,
        "eq": lambda: a == b,
        "ne": lambda: a != b,
    }[op]()


def model_op(op, x, y, m):
    if op in ("add", "iadd"):
        return (x + y) % 2**m
    if op in ("sub", "isub"):
        return (x - y) % 2**m
    if op == "mul":
        return x * y
    if op == "square":
        return x * x
    if op == "max":
        return max(x, y)
    if op == "min":
        return min(x, y)
    if op[0] == "r":
        x, y, op = y, x, op[1:]
    return int({"lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y, "eq": x == y, "ne": x != y}[op])


def check_jasp(spec):
    from qrisp import QuantumBool, QuantumFloat, control, invert, ry
    from qrisp.jasp import terminal_sampling

    op, m, n, wrap = spec["op"], spec["m"], spec["n"], spec["wrap"]
    inpl = op in ("iadd", "isub")
    two = spec["second"] == "q" and op != "square"
    th = [[float(x) for x in row] for row in np.random.default_rng(spec["seed"]).uniform(0.7, 2.4, (2, 4))]
    ctl = "control" in wrap

    def program(c):
        a = QuantumFloat(m)
        for i in range(m):
            ry(th[0][i], a[i])
        outs = [a]
        if two:
            b = QuantumFloat(n)
            for i in range(n):
                ry(th[1][i], b[i])
            outs.append(b)
        else:
            b = c if spec["second"] == "dyn" else spec.get("c")
        if ctl:
            q = QuantumBool()
            ry(1.1, q[0])
            outs.append(q)

        def act():
            return apply_op(op, a, b)

        if wrap == "control":
            with control(q):
                act()
        elif wrap == "invert":
            with invert():
                act()
        elif wrap == "invert_control":
            with control(q):
                with invert():
                    act()
        else:
            r = act()
            if r is not None:
                outs.append(r)
        return tuple(outs) if len(outs) > 1 else outs[0]

    res = terminal_sampling(program)(spec.get("c", 0))
    got = {}
    for key, p in res.items():
        key = key if isinstance(key, tuple) else (key,)
        k = tuple(float(v) for v in key)
        got[k] = got.get(k, 0.0) + float(p)

    def prob(row, k, w):
        p = 1.0
        for i in range(w):
            p *= np.sin(th[row][i] / 2) ** 2 if k >> i & 1 else np.cos(th[row][i] / 2) ** 2
        return p

    eff = op
    if wrap.startswith("invert"):
        eff = {"iadd": "isub", "isub": "iadd"}[op]
    want = {}
    wrapped = False
    for x in range(2**m):
        for y in range(2**n) if two else [spec.get("c")]:
            p = prob(0, x, m) * (prob(1, y, n) if two else 1.0)
            for q in (0, 1) if ctl else (None,):
                pq = p if q is None else p * (np.sin(0.55) ** 2 if q else np.cos(0.55) ** 2)
                z = model_op(eff, x, y, m)
                if inpl:
                    k = [z if q is None or q else x] + ([y] if two else []) + ([q] if ctl else [])
                else:
                    k = [x] + ([y] if two else []) + [z]
                k = tuple(float(v) for v in k)
                want[k] = want.get(k, 0.0) + pq
                wrapped |= op in ("add", "sub", "iadd", "isub") and not 0 <= (x + y if "add" in eff else x - y) < 2**m
    d = max(abs(got.get(k, 0.0) - want.get(k, 0.0)) for k in set(got) | set(want))
    bad = [k for k in set(got) | set(want) if abs(got.get(k, 0.0) - want.get(k, 0.0)) > TOL]
    require(d <= TOL, op + " in Jasp differs from exact arithmetic", d=float(d), outputs=sorted(bad)[:4])
    labs = ["jasp_" + spec["second"]]
    if wrap != "none":
        labs.append("jasp_" + wrap)
    if two and m != n:
        labs.append("mixed")
    if wrapped:
        labs.append("wrap")
    return labs


FACETS = [
    Facet("qq", qq_case(), check_qq, quick=700, weight=2.0),
    Facet("one", one_case(), check_one, quick=900),
    Facet("poly", poly_case(), check_poly, quick=250, weight=2.0),
    Facet("jasp", jasp_case(), check_jasp, quick=250, weight=4.0),
]
