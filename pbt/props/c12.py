"""C12: values survive encoding, measurement and decoding for every quantum type."""

import itertools

import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Facet, require
from .c05 import data_state

RULE = (
    "quantum types (QuantumFloat with any size/exponent/sign, QuantumBool, QuantumChar, QuantumString, QuantumModulus, QuantumVariable, "
    "custom label lists, QuantumArray) with values or random superpositions of values; labels are predicted by an independent table of the "
    "type. Joint measurements: several variables, random bit-wise correlations, random order. Non-trivial: label differs from the plain "
    "integer (negative, fractional, text), superposition, more than one variable, rejected value."
)
TOL = 2e-3
NISQ = "abcdefghijklmnopqrstuvwxyz .!?:,"


@st.composite
def type_spec(draw, max_size=8, kinds=("float", "float", "float", "bool", "char", "bigchar", "modulus", "var", "custom")):
    kind = draw(st.sampled_from(kinds))
    if max_size < 2:
        return ["bool"]
    if kind == "float":
        n = draw(st.sampled_from(range(1, min(6, max_size))))
        signed = draw(st.booleans())
        return ["float", n, draw(st.sampled_from([0, 0, 1, 3, -1, -2, -4, -7])), signed]
    if kind == "modulus":
        N = draw(st.sampled_from([k for k in (2, 3, 5, 6, 7, 8, 11, 13, 16, 21) if (k - 1).bit_length() <= max_size]))
        return ["modulus", N, draw(st.sampled_from([0, 0, 1, 3])) if N % 2 else 0]
    if kind == "var":
        return ["var", draw(st.sampled_from(range(1, min(6, max_size + 1))))]
    if kind == "custom":
        k = draw(st.sampled_from([k for k in (1, 2, 3, 4, 5, 7, 8, 9, 11) if max(1, (k - 1).bit_length()) <= max_size]))
        pool = ["red", "green", 7, -1.5, True, "x", "", (1, 2), "blue", 12, "q0", None]
        return ["custom", draw(st.permutations(range(len(pool))))[:k]]
    if kind == "char" and max_size < 5 or kind == "bigchar" and max_size < 8:
        return ["bool"]
    return [kind]


CUSTOM = ["red", "green", 7, -1.5, True, "x", "", (1, 2), "blue", 12, "q0", None]


def build(t):
    from qrisp import QuantumBool, QuantumChar, QuantumFloat, QuantumModulus, QuantumVariable

    k = t[0]
    if k == "float":
        return QuantumFloat(t[1], t[2], signed=t[3])
    if k == "bool":
        return QuantumBool()
    if k == "char":
        return QuantumChar()
    if k == "bigchar":
        return QuantumChar(nisq_char=False)
    if k == "modulus":
        v = QuantumModulus(t[1])
        if t[2]:
            v.m = t[2]
        return v
    if k == "var":
        return QuantumVariable(t[1])
    return QuantumVariable.custom([CUSTOM[i] for i in t[1]])


def table(t):
    """labels by integer; None entry object NOLABEL where the integer is no value of the type"""
    k = t[0]
    if k == "float":
        n = t[1] + int(t[3])
        vals = [i - 2**n if t[3] and i >= 2 ** (n - 1) else i for i in range(2**n)]
        return [v * 2 ** t[2] if t[2] >= 0 else v / 2 ** -t[2] for v in vals]
    if k == "bool":
        return [False, True]
    if k == "char":
        return list(NISQ)
    if k == "bigchar":
        return [chr(i) for i in range(256)]
    if k == "modulus":
        n = max(1, (t[1] - 1).bit_length())
        out = [NOLABEL] * 2**n
        for v in range(t[1]):
            out[v * 2 ** t[2] % t[1]] = v
        return out
    if k == "var":
        return ["".join(str(i >> b & 1) for b in range(t[1])) for i in range(2 ** t[1])]
    labels = [CUSTOM[i] for i in t[1]]
    n = max(1, (len(labels) - 1).bit_length())
    return labels + ["undefined_label_" + str(i) for i in range(len(labels), 2**n)]


NOLABEL = object()


def domain(t):
    tab = table(t)
    stop = len(t[1]) if t[0] == "custom" else len(tab)
    return [i for i in range(stop) if tab[i] is not NOLABEL]


def same(a, b):
    return a == b and isinstance(a, bool) == isinstance(b, bool) and isinstance(a, str) == isinstance(b, str)


def labels_of(t, i):
    tab = table(t)
    return {t[0]} | ({"nontrivial_label"} if tab[i] != i or isinstance(tab[i], bool) else set())


# ------------------------------------------------------------------ single values


@st.composite
def value_case(draw):
    t = draw(type_spec())
    dom = domain(t)
    return {"type": t, "i": draw(st.sampled_from(dom)), "mode": draw(st.sampled_from(["encode", "setitem", "joint", "raw", "copy", "dup"]))}


def check_value(spec):
    from qrisp import multi_measurement

    t, i, mode = spec["type"], spec["i"], spec["mode"]
    tab = table(t)
    v = build(t)
    require(v.size == (len(tab) - 1).bit_length(), "size of " + t[0], size=int(v.size))
    dom = domain(t)
    probe = [i, dom[0], dom[-1]] + [dom[(7 * k + i) % len(dom)] for k in range(6)]
    for j in probe:
        require(same(v.decoder(j), tab[j]), "decoder of " + t[0], i=j, got=str(v.decoder(j)), want=str(tab[j]))
        if not (t[0] == "custom" and any(tab[j] == tab[k] for k in range(j))):
            require(int(v.encoder(tab[j])) == j, "encoder of " + t[0], value=str(tab[j]), got=int(v.encoder(tab[j])), want=j)
    if t[0] == "custom":
        i = next(k for k in range(len(tab)) if tab[k] == tab[i])
    value = tab[i]
    if mode == "encode":
        v.encode(value)
    else:
        v[:] = value
    w = v
    if mode == "copy":
        w = build(t) if t[0] != "custom" else v.duplicate()
        w[:] = v
    elif mode == "dup":
        w = v.duplicate(init=True)
    if mode == "joint":
        got = dict(multi_measurement([v]))
        require(list(got) == [(tab[i],)], "multi_measurement of one " + t[0], got=str(got), want=str(value))
    elif mode == "raw":
        got = dict(v.get_measurement(compile=False))
        require(list(got) == [value], "measurement of " + t[0], got=str(got), want=str(value))
    else:
        got = dict(w.get_measurement())
        require(list(got) == [value] and same(list(got)[0], value) and abs(got[value] - 1) < 1e-4, mode + " of " + t[0], got=str(got), want=str(value))
    if mode not in ("copy", "dup"):
        qc = v.qs.compile()
        psi = data_state(qc, list(v.reg), "encoding")
        pos = int(format(i, f"0{v.size}b")[::-1], 2)
        require(abs(abs(psi[pos]) - 1) < TOL, "encoded basis state of " + t[0], i=i)
    return sorted(labels_of(t, i) | {mode})


# ------------------------------------------------------------------ superpositions


@st.composite
def sup_case(draw):
    t = draw(type_spec(max_size=6))
    return {"type": t, "k": draw(st.sampled_from(range(1, 7))), "seed": draw(st.integers(0, 10**6)), "via": draw(st.sampled_from(["setitem", "init_state", "array"]))}


def amplitudes(r, k):
    a = r.normal(size=k) + 1j * r.normal(size=k)
    if r.random() < 0.3:
        a = np.abs(a)
    a = a + 0.2 * np.exp(1j * np.angle(a))
    return a / np.linalg.norm(a)


def check_sup(spec):
    t = spec["type"]
    tab = table(t)
    dom = domain(t)
    if t[0] == "custom":
        dom = [i for i in dom if all(tab[i] != tab[k] for k in range(i))]
    r = np.random.default_rng(spec["seed"])
    chosen = [int(x) for x in r.choice(dom, size=min(spec["k"], len(dom)), replace=False)]
    amps = amplitudes(r, len(chosen))
    v = build(t)
    if spec["via"] == "array":
        arr = np.zeros(len(tab), dtype=complex)
        arr[chosen] = amps
        v.init_state(arr)
    elif spec["via"] == "init_state":
        v.init_state({tab[i]: complex(a) for i, a in zip(chosen, amps)})
    else:
        v[:] = {tab[i]: complex(a) for i, a in zip(chosen, amps)}
    want = np.zeros(len(tab), dtype=complex)
    for i, a in zip(chosen, amps):
        want[int(format(i, f"0{v.size}b")[::-1], 2)] = a
    got = data_state(v.qs.compile(), list(v.reg), "superposition")
    d = ref.dist_phase(got, want)
    require(d < TOL, "superposition of values of " + t[0], d=float(d))
    mes = v.get_measurement()
    wantp = {tab[i]: abs(a) ** 2 for i, a in zip(chosen, amps)}
    bad = max(abs(mes.get(k, 0) - wantp.get(k, 0)) for k in set(wantp) | {k for k, p in mes.items() if p > 1e-3})
    require(bad < TOL, "measured probabilities of " + t[0], got=str(dict(mes)), want=str(wantp))
    ps = list(mes.values())
    require(all(x >= y - 1e-9 for x, y in zip(ps, ps[1:])), "outcomes are sorted by probability", got=ps)
    require(abs(wantp.get(v.most_likely(), -1) - max(wantp.values())) < TOL, "most_likely", got=str(v.most_likely()))
    out = labels_of(t, chosen[0])
    if len(chosen) > 1:
        out.add("superposed")
    return sorted(out)


# ------------------------------------------------------------------ joint measurements


@st.composite
def joint_case(draw):
    types, left = [], 11
    for _ in range(draw(st.integers(2, 4))):
        kinds = ("float", "bool", "char", "modulus", "var", "custom", "string", "array")
        if left < 1:
            break
        k = draw(st.sampled_from(kinds))
        if k == "string" and left >= 10:
            t = ["string", 2]
        elif k == "array":
            inner = draw(type_spec(max_size=2, kinds=("float", "bool", "var")))
            shape = draw(st.sampled_from([[2], [3], [2, 2], [1, 2]]))
            t = ["array", inner, shape]
        else:
            t = draw(type_spec(max_size=min(left, 5), kinds=(k if k not in ("string", "array") else "float",)))
        n = size(t)
        if n > left:
            continue
        left -= n
        types.append(t)
    if not types:
        types = [["bool"]]
    order = draw(st.permutations(range(len(types))))
    keep = draw(st.integers(1, len(types)))
    return {"types": types, "order": list(order)[:keep], "seed": draw(st.integers(0, 10**6)), "shots": draw(st.sampled_from([None, None, 400]))}


def size(t):
    if t[0] == "string":
        return 5 * t[1]
    if t[0] == "array":
        return size(t[1]) * int(np.prod(t[2]))
    return max(1, (len(table(t)) - 1).bit_length())


def check_joint(spec):
    from qrisp import QuantumArray, QuantumString, cx, h, merge, multi_measurement, ry, x

    r = np.random.default_rng(spec["seed"])
    vs, regs, alls = [], [], []
    for t in spec["types"]:
        if t[0] == "string":
            v = QuantumString(t[1])
            parts = list(v.flatten())
        elif t[0] == "array":
            v = QuantumArray(build(t[1]), shape=tuple(t[2]))
            parts = list(v.flatten())
        else:
            v = build(t)
            parts = [v]
        vs.append(v)
        regs.append([[q for q in p.reg] for p in parts])
        alls += [q for p in parts for q in p.reg]
    merge(vs)
    n = len(alls)
    psi = np.zeros(2**n, dtype=complex)
    psi[0] = 1
    psi = {0: 1.0 + 0j}
    # a few rotations, then bit-wise correlations; modulus registers must stay in their domain
    fixed = set()
    for t, reg in zip(spec["types"], regs):
        if t[0] == "modulus":
            fixed |= {q for p in reg for q in p}
    idx = {q: k for k, q in enumerate(alls)}
    for t, reg in zip(spec["types"], regs):
        if t[0] == "modulus":
            tab = table(t)
            i = int(r.choice(domain(t)))
            for b, q in enumerate(reg[0]):
                if i >> b & 1:
                    x(q)
                    psi = {s ^ 1 << idx[q]: a for s, a in psi.items()}
    free = [q for q in alls if q not in fixed]
    for q in free:
        c = r.random()
        if c < 0.35 and len(psi) < 64:
            th = float(r.uniform(0.4, 2.7))
            ry(th, q)
            new = {}
            for s, a in psi.items():
                new[s] = new.get(s, 0) + a * np.cos(th / 2)
                new[s ^ 1 << idx[q]] = new.get(s ^ 1 << idx[q], 0) + a * np.sin(th / 2)
            psi = new
        elif c < 0.6:
            x(q)
            psi = {s ^ 1 << idx[q]: a for s, a in psi.items()}
    for _ in range(int(r.integers(0, 2 * n))):
        if len(free) < 1 or n < 2:
            break
        c, tq = alls[int(r.integers(n))], free[int(r.integers(len(free)))]
        if c is tq or c == tq:
            continue
        cx(c, tq)
        psi = {(s ^ 1 << idx[tq] if s >> idx[c] & 1 else s): a for s, a in psi.items()}
    want = {}
    for s, a in psi.items():
        row = []
        for k in spec["order"]:
            t = spec["types"][k]
            ints = [sum((s >> idx[q] & 1) << b for b, q in enumerate(p)) for p in regs[k]]
            if t[0] == "string":
                row.append("".join(NISQ[i] for i in ints))
            elif t[0] == "array":
                tab = table(t[1])
                row.append(("array", tuple(t[2]), tuple(tab[i] for i in ints)))
            else:
                row.append(table(t)[ints[0]])
        want[tuple(row)] = want.get(tuple(row), 0) + abs(a) ** 2
    sel = [vs[k] for k in spec["order"]]
    mes = multi_measurement(sel, shots=spec["shots"])
    got = {}
    for key, p in mes.items():
        row = []
        require(len(key) == len(spec["order"]), "length of a joint label")
        for k, lab in zip(spec["order"], key):
            t = spec["types"][k]
            if t[0] == "array":
                lab = ("array", tuple(np.shape(lab)), tuple(y.item() if hasattr(y, "item") else y for y in np.asarray(lab, dtype=object).flatten()))
            row.append(lab)
        got[tuple(row)] = got.get(tuple(row), 0) + p
    if spec["shots"] is None:
        bad = [k for k in set(got) | set(want) if abs(got.get(k, 0) - want.get(k, 0)) > TOL]
    else:
        bad = [k for k, p in got.items() if p > 1e-6 and want.get(k, 0) < 1e-6]
        require(abs(sum(got.values()) - 1) < 1e-6, "probabilities of a sampled measurement add up to one", total=float(sum(got.values())))
        bad += [k for k, p in want.items() if abs(got.get(k, 0) - p) > 6 * np.sqrt(p * (1 - p) / spec["shots"]) + 0.02]
    require(not bad, "joint measurement", labels=str(bad[:3]), got=[float(got.get(k, 0)) for k in bad[:3]], want=[float(want.get(k, 0)) for k in bad[:3]])
    # every variable on its own
    for pos, v in enumerate(sel):
        if not isinstance(v, (QuantumArray,)):
            one = v.get_measurement()
            marg = {}
            for k, p in want.items():
                marg[k[pos]] = marg.get(k[pos], 0) + p
            bad = [k for k in set(one) | set(marg) if abs(one.get(k, 0) - marg.get(k, 0)) > TOL]
            require(not bad, "single measurement", labels=str(bad[:3]))
    out = {t[0] for t in spec["types"]}
    if len(want) > 1:
        out.add("superposed")
    if spec["order"] != sorted(spec["order"]):
        out.add("reordered")
    return sorted(out)


# ------------------------------------------------------------------ rejected values


@st.composite
def reject_case(draw):
    t = draw(type_spec())
    kind = draw(st.sampled_from(["outside", "outside", "dirty", "dict"]))
    spec = {"type": t, "kind": kind, "far": draw(st.integers(1, 40)), "low": draw(st.booleans())}
    return spec


def outside(t, far, low):
    k = t[0]
    if k == "float":
        tab = table(t)
        step = 2.0 ** t[2]
        v = (min(tab) - far * step) if low else (max(tab) + far * step)
        return int(v) if t[2] >= 0 else v
    if k == "modulus":
        return -far if low else t[1] - 1 + far
    if k == "bool":
        return 1 + far
    if k in ("char", "bigchar"):
        return "AZ1#"[far % 4] if k == "char" else chr(300 + far)
    if k == "var":
        return "0" * (t[1] + far) if low else "2" * t[1]
    return "missing" + str(far)


def refused(fn, what, **info):
    try:
        fn()
    except Exception:
        return
    require(False, what, **info)


def check_reject(spec):
    t = spec["type"]
    v = build(t)
    tab, dom = table(t), domain(t)
    if spec["kind"] == "dirty":
        from qrisp import x

        x(v[0])
        refused(lambda: v.__setitem__(slice(None), tab[dom[0]]), "writing into a used register was accepted")
        return ["dirty"]
    bad = outside(t, spec["far"], spec["low"])
    if spec["kind"] == "dict":
        good = {tab[dom[0]]: 0.6}
        good[bad] = 0.8
        refused(lambda: v.init_state(good), "superposition with a value outside the domain was accepted", value=str(bad))
    else:
        refused(lambda: v.__setitem__(slice(None), bad), "value outside the domain was accepted", value=str(bad))
    return ["rejected", t[0]]


# ------------------------------------------------------------------ Jasp


@st.composite
def jasp_case(draw):
    types = [draw(type_spec(max_size=5, kinds=("float", "float", "float", "bool", "modulus", "var"))) for _ in range(draw(st.integers(1, 3)))]
    types = [["modulus", t[1], 0] if t[0] == "modulus" else t for t in types]
    return {"types": types, "seed": draw(st.integers(0, 10**6)), "dyn": draw(st.booleans()), "run": draw(st.sampled_from(["jaspify", "sampling"]))}


def check_jasp(spec):
    from qrisp import QuantumVariable, cx, measure, ry
    from qrisp.jasp import jaspify, terminal_sampling

    r = np.random.default_rng(spec["seed"])
    ints = [int(r.choice(domain(t))) for t in spec["types"]]
    values = [i if t[0] == "var" else table(t)[i] for t, i in zip(spec["types"], ints)]
    sup = spec["run"] == "sampling" and spec["types"][0][0] in ("float", "bool", "var")
    th = float(r.uniform(0.5, 2.6))
    bit = int(r.integers(size(spec["types"][0])))

    def program(*args):
        out = []
        for k, t in enumerate(spec["types"]):
            v = build(t)
            val = args[k] if spec["dyn"] else values[k]
            if t[0] == "var":
                for b in range(t[1]):
                    from qrisp import control, x

                    if not spec["dyn"]:
                        if ints[k] >> b & 1:
                            x(v[b])
                    else:
                        with control((val >> b) & 1):
                            x(v[b])
            else:
                v[:] = val
            out.append(v)
        if sup:
            ry(th, out[0][bit])
        if spec["run"] == "jaspify":
            return tuple(measure(v) for v in out)
        return tuple(out) if len(out) > 1 else out[0]

    def lab(t, i):
        return i if t[0] == "var" else table(t)[i]

    want = {}
    p1 = np.sin(th / 2) ** 2
    for flip, p in ((0, 1 - p1), (1, p1)) if sup else ((0, 1.0),):
        row = [lab(t, i ^ (flip << bit) if k == 0 else i) for k, (t, i) in enumerate(zip(spec["types"], ints))]
        want[tuple(float(x) for x in row)] = p
    if spec["run"] == "jaspify":
        res = jaspify(program)(*values)
        got = {tuple(float(x) for x in res): 1.0}
    else:
        got = {}
        for k, p in terminal_sampling(program)(*values).items():
            k = k if isinstance(k, tuple) else (k,)
            k = tuple(float(x) for x in k)
            got[k] = got.get(k, 0) + float(p)
    bad = [k for k in set(got) | set(want) if abs(got.get(k, 0) - want.get(k, 0)) > TOL]
    require(not bad, "values in Jasp", labels=str(bad[:3]), got=str(got)[:200], want=str(want)[:200])
    out = {"jasp"} | {t[0] for t in spec["types"]}
    if sup:
        out.add("superposed")
    return sorted(out)


FACETS = [
    Facet("value", value_case(), check_value, quick=900, weight=1.0),
    Facet("superposition", sup_case(), check_sup, quick=500, weight=1.0),
    Facet("joint", joint_case(), check_joint, quick=700, weight=1.5),
    Facet("reject", reject_case(), check_reject, quick=400, weight=0.5),
    Facet("jasp", jasp_case(), check_jasp, quick=260, weight=3.0),
]
