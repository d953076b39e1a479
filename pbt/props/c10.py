"""C10: arithmetic on QuantumModulus is arithmetic in Z_N."""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Facet, Reject, require
from .c05 import data_state

RULE = (
    "modulus 2..15 (odd for products), adder, Montgomery shifts, operands in random superpositions of residues, second operand quantum or "
    "a constant (also negative or beyond the modulus), optional control or inversion; amplitudes of all operands and results are compared "
    "with modular arithmetic, everything else must be |0>, and measured labels must be the residues. Jasp: joint distributions. "
    "Non-trivial: Montgomery shift (shift), constant outside 0..N-1 (wide), control/inversion (env), quantum second operand (qq), ..."
)
TOL = 2e-3
CMP = ["lt", "gt", "le", "ge", "eq", "ne"]


@st.composite
def static_case(draw):
    op = draw(st.sampled_from(["add", "radd", "sub", "rsub", "iadd", "isub", "mul", "rmul", "imul", "imul"] + CMP))
    second = "c" if op in ("imul", "radd", "rsub", "rmul") else draw(st.sampled_from(["q", "c"]))
    prod = "mul" in op
    hi = 15 if second == "c" else 9
    N = draw(st.sampled_from(range(2, hi + 1)))
    spec = {"op": op, "second": second, "seed": draw(st.integers(0, 10**6))}
    if prod:
        N = max(3, N | 1)
    spec["N"] = N
    adders = ["", "", "fourier", "gidney", "cuccaro"]
    if not prod and op[0] != "i" and not (op in CMP and second == "q"):
        adders.append("qcla")
    spec["adder"] = draw(st.sampled_from(adders))
    spec["ma"] = draw(st.sampled_from([0, 0, 0, 1, 3, -2])) if N % 2 else 0
    spec["mb"] = spec["ma"]
    if second == "q" and prod and N % 2:
        spec["mb"] = draw(st.sampled_from([0, 0, 2, -1]))
    if second == "q" and op == "iadd" and N % 2:
        spec["mb"] = draw(st.sampled_from([spec["ma"], spec["ma"], 0, 1]))
    if op in CMP[:4] or (op in CMP and second == "c"):
        # refused for shifted encodings
        spec["ma"] = spec["mb"] = 0
    if second == "c":
        if op in CMP:
            spec["c"] = draw(st.integers(0, N - 1))
        elif prod:
            pool = list(range(-N, 2 * N)) if draw(st.booleans()) else list(range(1, N))
            spec["c"] = draw(st.sampled_from([k for k in pool if op != "imul" or math.gcd(k, N) == 1]))
        else:
            spec["c"] = draw(st.integers(-N, 2 * N))
    spec["wrap"] = "none"
    if op in ("iadd", "isub", "imul"):
        spec["wrap"] = draw(st.sampled_from(["none", "none", "control1", "control0", "invert"]))
    return spec


def make(N, adder, m):
    from qrisp import QuantumModulus, cuccaro_adder, fourier_adder, gidney_adder, qcla

    f = {"fourier": fourier_adder, "gidney": gidney_adder, "cuccaro": cuccaro_adder, "qcla": qcla}.get(adder)
    v = QuantumModulus(N, inpl_adder=f) if f else QuantumModulus(N)
    if m:
        v.m = m
    return v


def amplitudes(r, N):
    a = r.normal(size=N) + 1j * r.normal(size=N)
    a[r.random(N) < 0.3] = 0
    if np.linalg.norm(a) < 0.1:
        a[int(r.integers(N))] = 1
    return a / np.linalg.norm(a)


def encode(value, m, N):
    return value * pow(2, m, N) % N


def operate(op, a, b):
    if op in ("add", "radd"):
        return a + b if op == "add" else b + a
    if op == "sub":
        return a - b
    if op == "rsub":
        return b - a
    if op in ("mul", "rmul"):
        return a * b if op == "mul" else b * a
    if op == "iadd":
        a += b
    elif op == "isub":
        a -= b
    elif op == "imul":
        a *= b
    elif op == "lt":
        return a < b
    elif op == "gt":
        return a > b
    elif op == "le":
        return a <= b
    elif op == "ge":
        return a >= b
    elif op == "eq":
        return a == b
    elif op == "ne":
        return a != b
    return None


def model(op, x, y, N):
    if op in ("add", "radd", "iadd"):
        return (x + y) % N
    if op in ("sub", "isub"):
        return (x - y) % N
    if op == "rsub":
        return (y - x) % N
    if "mul" in op:
        return x * y % N
    return int({"lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y, "eq": x == y, "ne": x != y}[op])


def check_static(spec):
    from qrisp import QuantumBool, control, invert, multi_measurement, ry
    from qrisp.core import merge

    op, N, w = spec["op"], spec["N"], spec["wrap"]
    r = np.random.default_rng(spec["seed"])
    a = make(N, spec["adder"], spec["ma"])
    vs, amps = [a], [amplitudes(r, N)]
    if spec["second"] == "q":
        b = make(N, spec["adder"], spec["mb"])
        vs.append(b)
        amps.append(amplitudes(r, N))
    else:
        b = spec["c"]
    for v, am in zip(vs, amps):
        v[:] = {k: complex(am[k]) for k in range(N) if am[k] != 0}
    names = ["a", "b"][: len(vs)]
    if w.startswith("control"):
        e = QuantumBool()
        ry(1.1, e[0])
        names.append("e")
        vs.append(e)
        amps.append(np.array([np.cos(0.55), np.sin(0.55)]))
    if len(vs) > 1:
        merge(*vs)
    if w == "none":
        res = operate(op, a, b)
    elif w == "invert":
        with invert():
            operate(op, a, b)
        res = None
    else:
        with control(e, ctrl_state=w[-1]):
            operate(op, a, b)
        res = None
    outs = vs + ([res] if res is not None else [])
    eff = op
    y_eff = None
    if w == "invert":
        eff = {"iadd": "isub", "isub": "iadd", "imul": "imul"}[op]
        if op == "imul":
            y_eff = pow(spec["c"], -1, N)
    inpl = op in ("iadd", "isub", "imul")
    # model
    sizes = [int(v.size) for v in outs]
    want = np.zeros(2 ** sum(sizes), dtype=complex)
    labels = {}

    def enc(v, value):
        return encode(value, int(v.m), N) if hasattr(v, "m") and hasattr(v, "modulus") else int(value)

    for vals in itertools.product(*[range(len(am)) for am in amps]):
        amp = np.prod([am[k] for am, k in zip(amps, vals)])
        if amp == 0:
            continue
        d = dict(zip(names, vals))
        y = d["b"] if "b" in d else spec["c"]
        on = d["e"] == int(w[-1]) if "e" in d else True
        z = model(eff, d["a"], y if y_eff is None else y_eff, N)
        if inpl:
            d["a"] = z if on else d["a"]
        row = [d[n] for n in names] + ([] if inpl else [z])
        pos = 0
        for v, k, n in zip(outs, row, sizes):
            pos = (pos << n) | int(format(enc(v, k), f"0{n}b")[::-1], 2)
        want[pos] += amp
        labels[tuple(row)] = labels.get(tuple(row), 0) + abs(amp) ** 2
    if len({id(v.qs) for v in outs}) > 1:
        merge(*outs)
    qc = a.qs.compile()
    if len(qc.qubits) > 20:
        raise Reject()
    got = data_state(qc, [q for v in outs for q in list(v)], op + " modulo N")
    d = ref.dist_phase(got, want)
    require(d < TOL, op + " differs from modular arithmetic", d=float(d))
    if spec["seed"] % 4 == 0:
        mes = multi_measurement(outs)
        keys = {tuple(int(x) for x in k): p for k, p in mes.items() if all(x == x for x in k)}
        bad = max(abs(keys.get(k, 0) - labels.get(k, 0)) for k in set(keys) | set(labels))
        require(bad < 2e-3, op + ": measured labels differ from modular arithmetic", d=float(bad))
    return labs(spec)


def labs(spec):
    out = {("qq" if spec["second"] == "q" else "qc") + "_" + ("cmp" if spec["op"] in CMP else spec["op"])}
    if spec.get("ma") or spec.get("mb"):
        out.add("shift")
    if "c" in spec and not 0 <= spec["c"] < spec["N"]:
        out.add("wide")
    if spec["wrap"] != "none":
        out.add("env")
    if spec["N"] & (spec["N"] - 1) == 0:
        out.add("power_of_two")
    return sorted(out)


# ------------------------------------------------------------------ Jasp


@st.composite
def jasp_case(draw):
    op = draw(st.sampled_from(["add", "sub", "rsub", "iadd", "isub", "mul", "mul", "imul", "imul"] + CMP[:5]))
    second = "c" if op in ("imul", "rsub") else draw(st.sampled_from(["q", "c"]))
    prod = "mul" in op
    N = draw(st.sampled_from(range(2, 14 if second == "c" else 8)))
    if prod:
        N = max(3, N | 1)
    spec = {"op": op, "second": second, "N": N, "seed": draw(st.integers(0, 10**6)), "wrap": "none", "dyn": draw(st.booleans())}
    if second == "c":
        pool = list(range(-N, 2 * N)) if op not in CMP and draw(st.booleans()) else list(range(N))
        spec["c"] = draw(st.sampled_from([k for k in pool if op != "imul" or math.gcd(k, N) == 1]))
    if op in ("iadd", "isub", "imul"):
        spec["wrap"] = draw(st.sampled_from(["none", "none", "control1"]))
    spec["adder"] = draw(st.sampled_from(["", "", "cuccaro", "fourier"]))
    return spec


def check_jasp(spec):
    from qrisp import QuantumBool, QuantumModulus, control, cuccaro_adder, ry
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_fourier_adder
    from qrisp.jasp import terminal_sampling

    op, N, w = spec["op"], spec["N"], spec["wrap"]
    r = np.random.default_rng(spec["seed"])
    adder = {"cuccaro": cuccaro_adder, "fourier": jasp_fourier_adder}.get(spec["adder"])
    two = spec["second"] == "q"
    n = (N - 1).bit_length()
    # superposition of two residues differing in one bit, per operand
    starts = []
    for _ in range(2):
        x = int(r.integers(N))
        bits = [i for i in range(n) if (x ^ 1 << i) < N]
        i = bits[int(r.integers(len(bits)))] if bits else None
        starts.append((x, i, float(r.uniform(0.6, 2.5))))

    def program(c):
        vs = []
        for k in range(2 if two else 1):
            v = QuantumModulus(N, inpl_adder=adder) if adder else QuantumModulus(N)
            v[:] = starts[k][0]
            if starts[k][1] is not None:
                ry(starts[k][2], v[starts[k][1]])
            vs.append(v)
        b = vs[1] if two else c if spec["dyn"] else spec["c"]
        if w == "control1":
            e = QuantumBool()
            ry(1.1, e[0])
            with control(e[0]):
                operate(op, vs[0], b)
            return tuple(vs + [e])
        res = operate(op, vs[0], b)
        outs = vs + ([res] if res is not None else [])
        return tuple(outs) if len(outs) > 1 else outs[0]

    got = {}
    for key, p in terminal_sampling(program)(spec.get("c", 0)).items():
        key = key if isinstance(key, tuple) else (key,)
        k = tuple(int(x) for x in key)
        got[k] = got.get(k, 0.0) + float(p)
    dists = []
    for k in range(2 if two else 1):
        x, i, th = starts[k]
        if i is None:
            dists.append({x: 1.0})
        else:
            p1 = np.sin(th / 2) ** 2
            dists.append({x: 1 - p1, x ^ 1 << i: p1})
    want = {}
    for x, px in dists[0].items():
        for y, py in (dists[1].items() if two else [(spec["c"], 1.0)]):
            z = model(op, x, y, N)
            for e, pe in ((0, np.cos(0.55) ** 2), (1, np.sin(0.55) ** 2)) if w == "control1" else ((None, 1.0),):
                if op in ("iadd", "isub", "imul"):
                    row = [z if e in (None, 1) else x] + ([y] if two else []) + ([] if e is None else [e])
                else:
                    row = [x] + ([y] if two else []) + [z]
                want[tuple(row)] = want.get(tuple(row), 0.0) + px * py * pe
    keys = set(got) | set(want)
    bad = sorted(k for k in keys if abs(got.get(k, 0) - want.get(k, 0)) > 2e-3)
    require(not bad, op + " in Jasp differs from modular arithmetic", outputs=bad[:4], got=[got.get(k, 0) for k in bad[:4]])
    return ["jasp"] + labs(spec)


# ------------------------------------------------------------------ large moduli


@st.composite
def large_case(draw, kind):
    N = draw(st.integers(2**4, 2**21)) | 1
    spec = {"kind": kind, "N": N, "x": draw(st.integers(0, N - 1)), "y": draw(st.integers(0, N - 1)), "on": draw(st.integers(0, 1))}
    c = draw(st.integers(1, N - 1))
    while math.gcd(c, N) != 1:
        c = c % N + 1
    spec["c"] = c
    return spec


_large = {}


def large_program(kind):
    from qrisp import QuantumBool, QuantumModulus, control, measure
    from qrisp.jasp import boolean_simulation

    if kind not in _large:

        @boolean_simulation
        def inplace(N, x, y, c, on):
            a = QuantumModulus(N)
            a[:] = x
            e = QuantumBool()
            e[:] = on
            with control(e[0]):
                a *= c
            b = QuantumModulus(N)
            b[:] = y
            a += b
            return measure(a), measure(b), measure(e)

        @boolean_simulation
        def product(N, x, y, c, on):
            a = QuantumModulus(N)
            a[:] = x
            b = QuantumModulus(N)
            b[:] = y
            a -= c
            r = a * b
            return measure(a), measure(b), measure(r)

        _large["inplace"], _large["product"] = inplace, product
    return _large[kind]


def check_large(spec):
    N, x, y, c, on = (spec[k] for k in ("N", "x", "y", "c", "on"))
    got = tuple(int(v) for v in large_program(spec["kind"])(N, x, y, c, on))
    if spec["kind"] == "inplace":
        want = ((x * (c if on else 1) + y) % N, y, on)
    else:
        want = ((x - c) % N, y, (x - c) * y % N)
    require(got == want, spec["kind"] + " program with a large modulus differs from modular arithmetic", got=list(got), want=list(want))
    return ["large", spec["kind"]]


FACETS = [
    Facet("static", static_case(), check_static, quick=600, weight=2.0),
    Facet("jasp", jasp_case(), check_jasp, quick=140, weight=5.0),
    Facet("large_inplace", large_case("inplace"), check_large, quick=60, thorough=400, chunk=400, weight=8.0),
    Facet("large_product", large_case("product"), check_large, quick=60, thorough=400, chunk=400, weight=8.0),
]
