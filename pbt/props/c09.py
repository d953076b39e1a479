"""C09: in-place adders compute b += a modulo 2**n, restore everything else and leave no phases."""

import itertools

import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Facet, Reject, require
from .c01 import op_object
from .c05 import data_state
from .c11 import apply_all, check_mcm

RULE = (
    "adder, addend (register of 1-5 bits or constant, also negative or wider than the target), target of 1-5 bits (up to 11 in Jasp), "
    "optional carry in, carry out, control (as argument or by an environment, control state 0 or 1, two controls) and inversion; all "
    "registers start in a generic product state and the full state vector afterwards is compared with the permuted one (ancillas |0>), "
    "also with the measurement based compilation; in Jasp the distribution after generic final rotations. "
    "Non-trivial: sizes differ (sizes), carry qubits (carry), control (ctrl), inversion (inv), constants outside the range (wide), ..."
)
TOL = 1e-3

ADDERS = {
    "gidney": ["q", "c"],
    "cuccaro": ["q", "c"],
    "fourier": ["q", "c"],
    "qcla": ["q", "q", "c"],
    "remaud": ["q"],
    "inpl_add": ["q"],
}


@st.composite
def static_case(draw):
    adder = draw(st.sampled_from(["gidney", "gidney", "cuccaro", "cuccaro", "fourier", "qcla", "qcla"]))
    kind = draw(st.sampled_from(ADDERS[adder]))
    nb = draw(st.integers(1, 5 if kind == "c" else 4))
    spec = {"adder": adder, "kind": kind, "nb": nb, "seed": draw(st.integers(0, 10**6)), "wrap": "none"}
    if kind == "c":
        lo, hi = 0, 2**nb - 1
        if adder in ("gidney", "fourier"):
            lo, hi = -(2**nb), 2 ** (nb + 1)
        spec["c"] = draw(st.integers(lo, hi))
        if adder in ("gidney", "qcla"):
            spec["cform"] = draw(st.sampled_from(["int", "int", "str"]))
            if spec["cform"] == "str":
                spec["c"] %= 2**nb
    else:
        spec["na"] = draw(st.integers(1, nb if adder in ("fourier", "qcla") else nb + 1 if nb < 4 else nb))
    if adder == "remaud":
        spec["na"] = nb = spec["nb"] = max(2, nb)
    spec["aform"] = draw(st.sampled_from(["qv", "list"])) if adder in ("gidney", "fourier", "qcla") else "qv"
    if adder in ("gidney", "cuccaro"):
        spec["cin"] = draw(st.sampled_from(["", "", "bool", "qubit"]))
        spec["cout"] = draw(st.sampled_from(["", "", "bool", "qubit"]))
    if adder == "qcla":
        spec["radix"] = [draw(st.sampled_from([2, 2, 3])), draw(st.integers(0, 2))]
        spec["tred"] = draw(st.booleans())
        if spec["radix"][1] == 0 and (kind == "c" or not spec["tred"]):
            spec["radix"][1] = 1  # radix one is refused otherwise
        if kind == "q" and not spec["tred"]:
            spec["na"] = nb  # narrower addends are refused by this variant
    wraps = ["none", "none", "control1", "control0", "invert", "control_invert", "control2", "twice"]
    if adder in ("gidney", "cuccaro") or (adder == "qcla" and kind == "c"):
        wraps += ["arg", "arg"]
    spec["wrap"] = draw(st.sampled_from(wraps))
    spec["mcm"] = spec["wrap"] in ("none", "arg", "twice") and draw(st.booleans())
    return spec


def permute(spec, parts, inverse):
    """permutation of the data index (registers in order of parts, each little endian) done by one application"""
    names = [p[0] for p in parts]
    sizes = [p[1] for p in parts]
    nb = spec["nb"]
    table = {}
    for vals in itertools.product(*[range(2**s) for s in sizes]):
        v = dict(zip(names, vals))
        a = v["a"] if "a" in v else spec["c"]
        if active(spec, v):
            total = (a if "a" not in v else a % 2**nb) % 2**nb + v["b"] + v.get("cin", 0)
            if "cout" in v:
                v["cout"] ^= (total >> nb) & 1
            v["b"] = total % 2**nb
        table[vals] = tuple(v[n] for n in names)
    if inverse:
        table = {b: a for a, b in table.items()}
    return table


def active(spec, v):
    w = spec["wrap"]
    if w == "control0":
        return not v["e"]
    if w in ("control1", "control_invert", "arg"):
        return v["e"] == 1
    if w == "control2":
        return v["e"] == 3
    return True


def position(vals, sizes):
    pos = 0
    for k, n in zip(vals, sizes):
        pos = (pos << n) | int(format(k, f"0{n}b")[::-1], 2)
    return pos


def apply_table(table, sizes, psi):
    out = np.zeros_like(psi)
    for a, b in table.items():
        out[position(b, sizes)] = psi[position(a, sizes)]
    return out


def call(spec, a, b, cin, cout, ctrl=None):
    from qrisp import cuccaro_adder, fourier_adder, gidney_adder, qcla, remaud_adder

    kw = {}
    if cin is not None:
        kw["c_in"] = cin
    if cout is not None:
        kw["c_out"] = cout
    if ctrl is not None:
        kw["ctrl"] = ctrl
    if spec["adder"] == "gidney":
        gidney_adder(a, b, **kw)
    elif spec["adder"] == "cuccaro":
        cuccaro_adder(a, b, **kw)
    elif spec["adder"] == "fourier":
        fourier_adder(a, b)
    elif spec["adder"] == "qcla":
        qcla(a, b, radix_base=spec["radix"][0], radix_exponent=spec["radix"][1], t_depth_reduction=spec["tred"], **kw)
    elif spec["adder"] == "remaud":
        remaud_adder(a, b, cout)


def check_static(spec):
    from qrisp import QuantumBool, QuantumFloat, QuantumVariable, control, invert
    from qrisp.core import merge

    nb = spec["nb"]
    parts, regs = [], {}

    def reg(name, size, v):
        parts.append((name, size))
        regs[name] = v

    if spec["kind"] == "q":
        reg("a", spec["na"], QuantumFloat(spec["na"]))
    reg("b", nb, QuantumFloat(nb))
    if spec.get("cin"):
        reg("cin", 1, QuantumBool())
    if spec.get("cout") or spec["adder"] == "remaud":
        reg("cout", 1, QuantumFloat(1) if spec["adder"] == "remaud" else QuantumBool())
    w = spec["wrap"]
    if w in ("control0", "control1", "control_invert", "arg"):
        reg("e", 1, QuantumVariable(1))
    elif w == "control2":
        reg("e", 2, QuantumVariable(2))
    if len(regs) > 1:
        merge(*regs.values())
    qs = regs["b"].qs
    sizes = [s for _, s in parts]
    data = [q for n, _ in parts for q in list(regs[n])]
    r = np.random.default_rng(spec["seed"])
    ops = [["u3", [i], [float(x) for x in r.uniform(0.7, 2.4, 3)]] for i in range(len(data))]
    for o in ops:
        qs.append(op_object(o), [data[o[1][0]]])
    psi = ref.statevector({"n": len(data), "ops": ops})

    a = regs.get("a", spec.get("c"))
    if spec.get("cform") == "str":
        a = format(spec["c"], f"0{nb}b")[::-1]
    b = regs["b"]
    if spec["aform"] == "list":
        b = list(b)
        if spec["kind"] == "q":
            a = list(a)
    cin = None if not spec.get("cin") else regs["cin"] if spec["cin"] == "bool" else regs["cin"][0]
    cout = None
    if spec["adder"] == "remaud":
        cout = regs["cout"]
    elif spec.get("cout"):
        cout = regs["cout"] if spec["cout"] == "bool" else regs["cout"][0]

    def act(ctrl=None):
        call(spec, a, b, cin, cout, ctrl)

    inverse, reps = False, 1
    if w == "none":
        act()
    elif w == "twice":
        act()
        act()
        reps = 2
    elif w == "arg":
        act(regs["e"][0])
    elif w in ("control0", "control1"):
        with control(regs["e"][0], ctrl_state=w[-1]):
            act()
    elif w == "control2":
        with control(list(regs["e"])):
            act()
    elif w == "control_invert":
        with control(regs["e"][0]):
            with invert():
                act()
        inverse = True
    elif w == "invert":
        with invert():
            act()
        inverse = True
    table = permute(spec, parts, inverse)
    for _ in range(reps):
        psi = apply_table(table, sizes, psi)
    qc = qs.compile()
    if len(qc.qubits) > 21:
        raise Reject()
    got = data_state(qc, data, "after an addition")
    d = ref.dist_phase(got, psi)
    require(d < TOL, "the adder does not add", d=float(d))
    if spec["mcm"]:
        check_mcm(qs.compile(compile_mcm=True), data, psi, r)
    return labels(spec)


def labels(spec):
    out = {spec["adder"] + "_" + spec["kind"]}
    if spec.get("na", spec["nb"]) != spec["nb"]:
        out.add("sizes")
    if spec.get("cin") or spec.get("cout"):
        out.add("carry")
    w = spec["wrap"]
    if w.startswith("control") or w == "arg":
        out.add("ctrl")
    if "inv" in w:
        out.add("inv")
    if spec["kind"] == "c" and not 0 <= spec["c"] < 2 ** spec["nb"]:
        out.add("wide")
    if spec.get("mcm"):
        out.add("mcm")
    if spec["nb"] == 1 and w == "none" and not spec.get("cin"):
        return []
    return sorted(out)


# ------------------------------------------------------------------ Jasp


@st.composite
def jasp_case(draw):
    adder = draw(st.sampled_from(["gidney", "gidney", "cuccaro", "fourier", "venting", "venting", "venting", "remaud"]))
    kind = "c" if adder == "venting" else "q" if adder == "remaud" else draw(st.sampled_from(["q", "c"]))
    nb = draw(st.sampled_from([1, 3, 5, 6, 6, 7, 7, 8, 9, 10, 11]) if adder == "venting" else st.integers(1, 5 if kind == "c" else 4))
    spec = {"adder": adder, "kind": kind, "nb": nb, "seed": draw(st.integers(0, 10**6)), "dyn": draw(st.booleans())}
    if kind == "c":
        spec["c"] = draw(st.integers(0, 2**nb - 1))
        spec["big"] = adder != "cuccaro" and draw(st.integers(0, 5)) == 0
    else:
        spec["na"] = draw(st.integers(1, 4))
    if adder == "remaud":
        spec["na"] = spec["nb"] = max(3, nb)
    if adder == "fourier" and kind == "q":
        spec["na"] = min(spec["na"], nb)
    if adder in ("gidney", "cuccaro", "venting"):
        spec["cin"] = draw(st.sampled_from(["", "", "qubit"]))
        spec["cout"] = draw(st.sampled_from(["", "", "qubit"]))
    wraps = ["none", "none", "control1", "control0"]
    if adder != "venting":
        wraps += ["invert", "control_invert"]
    if adder in ("gidney", "cuccaro", "venting"):
        wraps += ["arg"]
    spec["wrap"] = draw(st.sampled_from(wraps))
    if adder == "venting" and spec["wrap"] != "none" and not spec["cin"] and nb + bool(spec["cout"]) >= 6:
        spec["c"] &= -2  # known finding: controlled addition of odd constants without carry in leaves phases
    return spec


def check_jasp(spec):
    from qrisp import (
        QuantumBool,
        QuantumFloat,
        control,
        cuccaro_adder,
        gidney_adder,
        gidney_cq_venting_adder,
        invert,
        remaud_adder,
        u3,
    )
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic import BigInteger, jasp_fourier_adder
    from qrisp.jasp import terminal_sampling

    nb, w = spec["nb"], spec["wrap"]
    parts = []
    if spec["kind"] == "q":
        parts.append(("a", spec["na"]))
    parts.append(("b", nb))
    if spec.get("cin"):
        parts.append(("cin", 1))
    if spec.get("cout") or spec["adder"] == "remaud":
        parts.append(("cout", 1))
    if w.startswith("control") or w == "arg":
        parts.append(("e", 1))
    sizes = [s for _, s in parts]
    n = sum(sizes)
    r = np.random.default_rng(spec["seed"])
    first = [[float(x) for x in r.uniform(0.7, 2.4, 3)] for _ in range(n)]
    last = [[float(x) for x in r.uniform(0.4, 2.6, 3)] for _ in range(n)]
    fns = {
        "gidney": gidney_adder,
        "cuccaro": cuccaro_adder,
        "venting": gidney_cq_venting_adder,
        "fourier": jasp_fourier_adder,
        "remaud": remaud_adder,
    }
    words = max(1, -(-(nb + 2) // 32))

    def program(c):
        regs = {name: QuantumBool() if name in ("cin", "cout") and spec["adder"] != "remaud" else QuantumFloat(s) for name, s in parts}
        k = 0
        for name, s in parts:
            for i in range(s):
                u3(*first[k], regs[name][i])
                k += 1
        a = regs["a"] if spec["kind"] == "q" else c if spec["dyn"] else spec["c"]
        if spec.get("big"):
            a = BigInteger.create_dynamic(c, words) if False else BigInteger.create(spec["c"], words)
        b = regs["b"]
        kw = {}
        if spec.get("cin"):
            kw["c_in"] = regs["cin"][0]
        if spec.get("cout"):
            kw["c_out"] = regs["cout"] if spec["adder"] == "venting" else regs["cout"][0]
        if w == "arg":
            kw["ctrl"] = regs["e"][0]
        args = (a, b, regs["cout"]) if spec["adder"] == "remaud" else (a, b)

        def act():
            fns[spec["adder"]](*args, **kw)

        if w in ("none", "arg"):
            act()
        elif w in ("control0", "control1"):
            with control(regs["e"][0], ctrl_state=int(w[-1])):
                act()
        elif w == "invert":
            with invert():
                act()
        else:
            with control(regs["e"][0]):
                with invert():
                    act()
        k = 0
        for name, s in parts:
            for i in range(s):
                u3(*last[k], regs[name][i])
                k += 1
        out = tuple(regs[name] for name, _ in parts)
        return out if len(out) > 1 else out[0]

    res = terminal_sampling(program)(spec.get("c", 0))
    got = np.zeros(2**n)
    for key, p in res.items():
        key = key if isinstance(key, tuple) else (key,)
        got[position([int(v) for v in key], sizes)] += float(p)
    psi = ref.statevector({"n": n, "ops": [["u3", [i], first[i]] for i in range(n)]})
    psi = apply_table(permute(spec, parts, "invert" in w), sizes, psi)
    psi = apply_all([["u3", [i], last[i]] for i in range(n)], psi, n)
    d = float(np.abs(got - np.abs(psi) ** 2).sum()) / 2
    require(d < 0.05, "the adder does not add (Jasp)", total_variation=d)
    return ["jasp"] + labels(dict(spec, mcm=False))


FACETS = [
    Facet("static", static_case(), check_static, quick=900, weight=1.0),
    Facet("jasp", jasp_case(), check_jasp, quick=260, weight=4.0),
]
