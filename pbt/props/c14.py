"""C14: synthesised functions and dictionaries implement exactly the given mapping."""

import itertools

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Reject, require
from .c05 import data_state
from .c12 import NOLABEL, build, domain, size, table, type_spec

RULE = (
    "(table) random truth tables (1-5 inputs, 1-3 outputs, given as arrays, bit strings or Boolean polynomials) synthesised with every method on random "
    "input and output states, plain, inverted, controlled or undone by automatic uncomputation. (dictionary) random dictionaries between all variable types, tuple keys, missing keys, "
    "every method. (phase) random phase functions of several variables by Gray synthesis, phase polynomials and semi-Boolean polynomials, scaled, inverted, controlled. Oracle: exact "
    "permutation respectively diagonal on the state vector; other qubits unchanged. Non-trivial: more than one input bit and a non-constant function."
)
TOL = 2e-3
METHODS = ["gray", "gray_pt", "pprm", "pprm_pt", "best"]


def random_state(r, n):
    psi = r.normal(size=2**n) + 1j * r.normal(size=2**n)
    return psi / np.linalg.norm(psi)


def prepare(qs, qubits, seed):
    """product/entangled preparation and the resulting vector (index bit i = qubit i)"""
    from .c01 import op_object
    from .c11 import apply_all, prep_ops

    n = len(qubits)
    ops, r = prep_ops(seed, n)
    ops = ops + [["cx", [i, i + 1], []] for i in range(n - 1)]
    for g in ops:
        qs.append(op_object(g), [qubits[i] for i in g[1]])
    psi = np.zeros(2**n, dtype=complex)
    psi[0] = 1
    return little(apply_all(ops, psi, n), n)


def little(psi, n):
    return np.transpose(np.asarray(psi).reshape([2] * n), range(n)[::-1]).reshape(-1)


def final_state(qs, qubits, what, raw=False):
    qc = qs.copy() if raw else qs.compile()
    return little(data_state(qc, list(qubits), what), len(qubits))


def compare(got, want, what, phase=True, **info):
    """phase=True: equal up to one global phase; phase=False: equal moduli"""
    if not phase:
        d = float(np.max(np.abs(np.abs(got) - np.abs(want))))
        require(d < TOL, what + ": amplitudes", d=d, **info)
        return
    ov = np.vdot(want, got)
    require(abs(abs(ov) - 1) < TOL, what, overlap=float(abs(ov)), **info)


# ------------------------------------------------------------------ truth tables


@st.composite
def table_case(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    m = draw(st.sampled_from([1, 1, 2, 3]))
    kind = draw(st.sampled_from(["random", "random", "sparse", "linear", "monomial", "const"]))
    return {
        "n": n,
        "m": m,
        "kind": kind,
        "cols": [draw(st.sampled_from(range(2 ** (2**n)))) if n < 5 else draw(st.integers(0, 2**32 - 1)) for _ in range(m)],
        "form": draw(st.sampled_from(["array", "strings", "sympy"])) if m == 1 else draw(st.sampled_from(["array", "strings"])),
        "method": draw(st.sampled_from(METHODS)),
        "act": draw(st.sampled_from(["plain", "plain", "inverse", "control", "undo", "gate", "control"])),
        "seed": draw(st.integers(0, 10**6)),
    }


def columns(spec):
    n, out = spec["n"], []
    for c in spec["cols"]:
        if spec["kind"] == "random":
            col = [(c >> i) & 1 for i in range(2**n)]
        elif spec["kind"] == "sparse":
            col = [int(i == c % 2**n or i == (c // 7) % 2**n) for i in range(2**n)]
        elif spec["kind"] == "linear":
            a = c % 2**n
            col = [(bin(i & a).count("1") + (c >> n)) % 2 for i in range(2**n)]
        elif spec["kind"] == "monomial":
            a = c % 2**n
            col = [int(i & a == a) for i in range(2**n)]
        else:
            col = [c % 2] * 2**n
        out.append(col)
    return out


def expression(col, n):
    """algebraic normal form over symbols a0.. (alphabetical order = qubit order)"""
    import sympy as sp

    xs = sp.symbols(" ".join(f"a{i}" for i in range(n)) + " ")
    xs = list(xs) if isinstance(xs, (tuple, list)) else [xs]
    anf = list(col)
    for b in range(n):
        for i in range(2**n):
            if i >> b & 1:
                anf[i] ^= anf[i ^ (1 << b)]
    expr = sp.Integer(0)
    for i in range(2**n):
        if anf[i]:
            t = sp.Integer(1)
            for b in range(n):
                if i >> b & 1:
                    t = t * xs[b]
            expr = expr + t
    return expr, xs


def check_table(spec):
    from qrisp import QuantumVariable, control, merge
    from qrisp.alg_primitives.logic_synthesis import TruthTable
    from qrisp.environments import invert

    n, m, method, act = spec["n"], spec["m"], spec["method"], spec["act"]
    cols = columns(spec)
    if spec["form"] == "array":
        tt = TruthTable(np.array(cols).T)
    elif spec["form"] == "strings":
        tt = TruthTable(["".join(map(str, c)) for c in cols])
    else:
        expr, xs = expression(cols[0], n)
        if len(expr.free_symbols) != n:
            raise Reject()
        tt = TruthTable(expr)
    require(tt.bit_amount == n and tuple(tt.shape) == (2**n, m), "shape of the truth table", shape=str(tt.shape))
    inp = QuantumVariable(n)
    out = QuantumVariable(m)
    ctl = QuantumVariable(1)
    exact = method in ("gray", "pprm")
    fresh = True
    qubits = list(inp.reg) + list(ctl.reg) + list(out.reg)
    live = n + 1 + (0 if fresh else m)
    # everything in one session
    merge([inp.qs, ctl.qs, out.qs])
    psi = prepare(inp.qs, qubits[:live], spec["seed"])
    if live < len(qubits):
        psi = np.concatenate([psi, np.zeros(2 ** len(qubits) - len(psi))])

    def synth():
        if act == "gate":
            inp.qs.append(tt.gate_synth(method=method), list(inp.reg) + list(out.reg))
        else:
            tt.q_synth(inp, out, method=method)

    if act == "inverse":
        with invert():
            synth()
    elif act == "control":
        with control(ctl[0]):
            synth()
    else:
        synth()
    if act == "undo":
        out.uncompute()
    got = final_state(inp.qs, qubits[: n + 1] if act == "undo" else qubits, "truth table synthesis")
    want = np.zeros_like(psi)
    for idx in range(len(psi)):
        i = idx & (2**n - 1)
        y = sum(c[i] << k for k, c in enumerate(cols))
        if act == "undo" or act == "control" and not idx >> n & 1:
            y = 0
        want[idx ^ (y << (n + 1))] += psi[idx]
    if act == "undo":
        want = want[: 2 ** (n + 1)]
    compare(got, want, f"truth table synthesis ({method}, {act})", phase=exact and act != "inverse" or act == "undo", cols=str(cols))
    if n < 2 or all(len(set(c)) == 1 for c in cols):
        return []
    return sorted({method, act, spec["form"]} | ({"multi_output"} if m > 1 else set()))


# ------------------------------------------------------------------ dictionaries

KEYKINDS = ("float", "float", "bool", "modulus", "var", "custom")


@st.composite
def dict_case(draw):
    k = draw(st.sampled_from([1, 1, 2]))
    keys = [draw(type_spec(max_size=3 if k == 2 else 4, kinds=KEYKINDS)) for _ in range(k)]
    ret = draw(type_spec(max_size=4, kinds=KEYKINDS))
    combos = list(itertools.product(*[domain(t) for t in keys]))
    drop = draw(st.sampled_from([0, 0, 1, 2]))
    return {
        "keys": keys,
        "ret": ret,
        "auto": draw(st.booleans()),
        "perm": draw(st.integers(0, 10**6)),
        "drop": min(drop, len(combos) - 1),
        "method": draw(st.sampled_from(["gray", "gray", "gray_pt", "pprm", "pprm_pt"])),
        "seed": draw(st.integers(0, 10**6)),
        "via": draw(st.sampled_from(["getitem", "load", "into"])),
        "post": draw(st.sampled_from(["none", "none", "uncompute"])),
    }


def check_dict(spec):
    from qrisp import QuantumDictionary, QuantumVariable, multi_measurement

    keys, ret = spec["keys"], spec["ret"]
    tabs = [table(t) for t in keys]
    rtab = table(ret)
    r = np.random.default_rng(spec["perm"])
    combos = list(itertools.product(*[domain(t) for t in keys]))
    rdom = domain(ret)
    data = {}
    order = [int(i) for i in r.permutation(len(combos))][: len(combos) - spec["drop"]]
    for i in order:
        label = tuple(tabs[j][c] for j, c in enumerate(combos[i]))
        data[label if len(keys) > 1 else label[0]] = rtab[int(r.choice(rdom))]
    qd = QuantumDictionary(return_type=None if spec["auto"] else build(ret))
    for k, v in data.items():
        qd[k] = v
    kv = [build(t) for t in keys]
    sizes = [v.size for v in kv]
    n = sum(sizes)
    if n > 7:
        raise Reject()
    qubits = [q for v in kv for q in v.reg]
    psi = prepare(kv[0].qs, qubits, spec["seed"])
    key = tuple(kv) if len(kv) > 1 else kv[0]
    for lbl in list(data)[:3]:
        require(qd[lbl] == data[lbl], "classical look-up", key=str(lbl))
    if spec["auto"] and len(set(map(str, data.values()))) < 2 and spec["via"] == "into":
        raise Reject()
    if spec["via"] == "getitem":
        val = qd[key]
        method = "gray"
    elif spec["via"] == "load":
        method = spec["method"]
        val = qd.load(key, synth_method=method)
    else:
        method = spec["method"]
        val = build(ret)
        qd.load(key, val, synth_method=method)
    if spec["post"] == "uncompute":
        val.uncompute()
        got = final_state(kv[0].qs, qubits, "uncomputed dictionary value")
        compare(got, psi, "key state after loading and uncomputing a value")
        return ["uncompute", method] if n > 1 and len(data) > 1 else []
    got = final_state(kv[0].qs, qubits + list(val.reg), "dictionary loading")
    want = np.zeros(2 ** (n + val.size), dtype=complex)
    for idx in range(2**n):
        label, p = [], 0
        for s, tab in zip(sizes, tabs):
            label.append(tab[(idx >> p) & (2**s - 1)])
            p += s
        label = tuple(label) if len(keys) > 1 else label[0]
        y = 0
        if not any(x is NOLABEL for x in (label if isinstance(label, tuple) else (label,))) and label in data:
            v = data[label]
            y = int(val.encoder(v))
            require(val.decoder(y) == v, "value type of the dictionary cannot represent a value", value=str(v))
        want[idx | y << n] = psi[idx]
    # colliding labels such as True and 1 are not told apart by a Python dictionary
    compare(got, want, "dictionary loading (" + method + ")", phase=not method.endswith("pt"), data=str(data)[:300])
    res = multi_measurement(kv + [val])
    tot = 0
    for k, p in res.items():
        lab = k[:-1] if len(keys) > 1 else k[0]
        if lab in data:
            require(k[-1] == data[lab], "measured value is not the dictionary's", key=str(lab), got=str(k[-1]), want=str(data[lab]))
            tot += p
    if n < 2 or len(data) < 2:
        return []
    return sorted({method, spec["via"], "tuple" if len(keys) > 1 else "single"} | ({"missing"} if spec["drop"] else set()) | ({"auto"} if spec["auto"] else set()))


# ------------------------------------------------------------------ phases


@st.composite
def phase_case(draw):
    api = draw(st.sampled_from(["hamiltonian", "method", "list", "sbpoly", "poly", "poly"]))
    k = 1 if api in ("method", "synth") else draw(st.sampled_from([1, 2, 2, 3]))
    if api == "poly":
        types = [["float", draw(st.sampled_from([1, 2, 3])), draw(st.sampled_from([0, 0, -1, -2, 1])), draw(st.booleans())] for _ in range(k)]
    else:
        types = [draw(type_spec(max_size=3 if k > 1 else 5, kinds=("float", "bool", "modulus", "var", "custom"))) for _ in range(k)]
    return {
        "api": api,
        "types": types,
        "fseed": draw(st.integers(0, 10**6)),
        "kind": draw(st.sampled_from(["random", "grid", "sparse", "zero", "step", "parity", "parity"])),
        "t": draw(st.sampled_from([1, 1, 0.5, -2.0])),
        "kw": draw(st.booleans()),
        "act": draw(st.sampled_from(["plain", "control", "invert", "ctrl_invert", "zcontrol"])),
        "raw": draw(st.booleans()),
        "arr": draw(st.booleans()),
        "rev": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
    }


def check_phase(spec):
    import sympy as sp

    from qrisp import QuantumArray, QuantumVariable, app_phase_polynomial, app_sb_phase_polynomial, as_hamiltonian, control, gray_phase_synth, merge
    from qrisp.environments import invert
    from qrisp.misc import app_phase_function

    api, types, t = spec["api"], spec["types"], spec["t"]
    arr = spec["arr"] and api in ("poly", "sbpoly") and len(types) > 1
    if arr:
        types = [types[0]] * len(types)
    if any(x[0] == "modulus" and x[1] & (x[1] - 1) for x in types):
        types = [x if x[0] != "modulus" else ["modulus", 4, 0] for x in types]
    if arr:
        qa = QuantumArray(build(types[0]), shape=(len(types),))
        vs = list(qa)
    else:
        vs = [build(x) for x in types]
    sizes = [v.size for v in vs]
    n = sum(sizes)
    if n > 9:
        raise Reject()
    r = np.random.default_rng(spec["fseed"])

    def draw_phase(size):
        if spec["kind"] == "random":
            return r.uniform(-7, 7, size)
        if spec["kind"] == "grid":
            return r.integers(-8, 9, size) * np.pi / 4
        if spec["kind"] == "zero":
            return np.zeros(size)
        if spec["kind"] == "step":
            return np.where(r.uniform(size=size) < 0.5, np.pi, 0.0)
        return np.where(r.uniform(size=size) < 0.2, r.uniform(-3, 3, size), 0.0)

    ctl = QuantumVariable(1)
    qubits = [q for v in vs for q in v.reg] + list(ctl.reg)
    merge([v.qs for v in vs] + [ctl.qs])
    psi = prepare(vs[0].qs, qubits, spec["seed"])
    shift = 0.25 if spec["kw"] and api in ("hamiltonian", "list") else 0.0
    tabs = [table(x) for x in types]

    def pieces(idx):
        out, p = [], 0
        for s in sizes:
            out.append((idx >> p) & (2**s - 1))
            p += s
        return out

    if api in ("hamiltonian", "method", "list", "synth"):
        if spec["kind"] == "parity":
            vals = np.zeros(2**n)
            for _ in range(int(r.integers(1, 4))):
                a, c = int(r.integers(1, 2**n)), float(r.uniform(-3, 3))
                vals += [c * (bin(i & a).count("1") % 2) for i in range(2**n)]
        else:
            vals = draw_phase(2**n)
        where = {}
        for idx in range(2**n):
            where.setdefault(tuple(map(str, (tab[c] for tab, c in zip(tabs, pieces(idx))))), []).append(idx)
        phi = {k: float(vals[v[0]]) for k, v in where.items()}
        phases = np.zeros(2**n)
        for k, v in where.items():
            phases[v] = phi[k]

        def fn(*labels, shift=0.0):
            return phi[tuple(map(str, labels))] + shift * len(labels)

        if api == "method" or api == "synth":
            t = 1
        phases = (phases + shift * len(types)) * t
        kw = {"shift": shift} if shift else {}
        if api == "hamiltonian":
            go = lambda: as_hamiltonian(fn)(*vs, t=t, **kw)
        elif api == "method":
            go = lambda: vs[0].app_phase_function(fn)
        elif api == "list":
            go = lambda: app_phase_function(vs, fn, t=t, **kw)
        else:
            go = lambda: gray_phase_synth(vs[0], [float(p) for p in phases])
    else:
        count = n if api == "sbpoly" else len(types)
        names = [f"x{i:02d}" for i in range(count)]
        syms = [sp.Symbol(s) for s in names]
        terms = []
        for _ in range(int(r.integers(1, 5))):
            sup = [int(i) for i in r.integers(0, count, int(r.integers(0, 4)))]
            c = float(draw_phase(1)[0]) or 0.5
            terms.append((c, sup))
        for i in range(count):
            terms.append((0.125 * (i + 1), [i]))
        poly = sum((sp.Float(c) * sp.prod([syms[i] for i in sup]) for c, sup in terms), sp.Integer(0))
        phases = np.zeros(2**n)
        for idx in range(2**n):
            if api == "sbpoly":
                x = [(idx >> i) & 1 for i in range(n)]
            else:
                x = [tab[c] for tab, c in zip(tabs, pieces(idx))]
            phases[idx] = sum(c * np.prod([x[i] for i in sup]) for c, sup in terms) * t
        fnc = app_sb_phase_polynomial if api == "sbpoly" else app_phase_polynomial
        arg = qa if arr else vs
        kw = {}
        if spec["rev"]:
            new = [sp.Symbol(f"w{count - i:02d}") for i in range(count)]
            poly = poly.subs(dict(zip(syms, new)))
            kw = {"symbol_list": new}
        go = lambda: fnc(arg, poly, t=t, **kw)
    act = spec["act"]
    if act == "plain":
        go()
    elif act == "invert":
        with invert():
            go()
    elif act == "control":
        with control(ctl[0]):
            go()
    elif act == "zcontrol":
        with control(ctl[0], ctrl_state=0):
            go()
    else:
        with control(ctl[0]):
            with invert():
                go()
    sign = -1 if "invert" in act else 1
    want = psi.copy()
    for idx in range(len(psi)):
        on = {"plain": 1, "invert": 1, "control": idx >> n, "ctrl_invert": idx >> n, "zcontrol": 1 - (idx >> n)}[act]
        if on:
            want[idx] *= np.exp(1j * sign * phases[idx & (2**n - 1)])
    got = final_state(vs[0].qs, qubits, "phase application", raw=spec["raw"] and api not in ("sbpoly", "poly"))
    compare(got, want, f"phases applied by {api} ({act})")
    if n < 2 or np.ptp(phases) < 1e-6:
        return []
    return sorted({api, act, spec["kind"]} | ({"several"} if len(types) > 1 else set()))


FACETS = [
    Facet("table", table_case(), check_table, quick=900),
    Facet("dictionary", dict_case(), check_dict, quick=700),
    Facet("phase", phase_case(), check_phase, quick=900),
]
