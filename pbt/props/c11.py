"""C11: multi-controlled gates are the ideal gates, whatever the synthesis.

Oracle: the dense ideal multi-controlled gate applied to a generic product state.
"""

import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Facet, require
from ..jaspkit import distribution, little
from .c01 import op_object
from .c05 import data_state
from .c06 import mcx_matrix

PROPERTY = "C11"
RULE = (
    "mcx / mcz / mcp / controlled rotations with 1-8 controls, every synthesis method, control states as string or integer, "
    "ancilla counts, controls given as qubits in any order or as a whole variable, plain / inverted / inside a quantum control environment, on generic "
    "product states; the compiled circuit must prepare the ideal state with all other qubits in |0> (also with mid-circuit measurements); "
    "phase-tolerant methods are used as compute - diagonal gates - inverse. In Jasp: the output distribution in a random product basis. "
    "Non-trivial: at least 3 controls (big), control state other than all ones (zeros), wrapped in an environment (env), ..."
)
TOL = 6e-4

EXACT = ["auto", "gray", "maslov", "balauca", "balauca_dirty", "yong", "hybrid", "amy", "jones", "khattar"]


def method_fits(m, k):
    if m in ("amy", "jones", "gidney"):
        return k == 2
    if m == "maslov":
        return k <= 4
    if m == "balauca_dirty":
        return k >= 4
    return True


@st.composite
def static_case(draw):
    what = draw(st.sampled_from(["mcx"] * 6 + ["mcz", "mcz", "mcp", "mcp", "rot", "rot"]))
    k = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8]))
    spec = {"what": what, "k": k, "state": draw(ref.bitstring(k)), "form": draw(st.sampled_from(["str", "int"])), "seed": draw(st.integers(0, 10**6))}
    if what == "mcx":
        spec["method"] = draw(st.sampled_from([m for m in EXACT if method_fits(m, k)]))
        spec["na"] = draw(st.integers(0, k))
        spec["as"] = draw(st.sampled_from(["list", "list", "qv", "perm", "target_bool"]))
    elif what == "mcz":
        spec["method"] = draw(st.sampled_from([m for m in EXACT if method_fits(m, k - 1) and m not in ("hybrid", "balauca_dirty")])) if k > 1 else "auto"
    elif what == "mcp":
        spec["method"] = draw(st.sampled_from(["auto", "gray", "balauca", "khattar"]))
        spec["phi"] = draw(ref.angles())
    else:
        spec["gate"] = draw(st.sampled_from(["rx", "ry", "rz", "p", "h", "y", "u3", "s", "z", "gphase"]))
        spec["par"] = [draw(ref.angles()) for _ in range({"u3": 3}.get(spec["gate"], 1))]
        spec["method"] = draw(st.sampled_from(["auto", "gray", "env"]))
    spec["wrap"] = draw(st.sampled_from(["none", "none", "none", "invert", "control0", "control1", "twice"]))
    spec["mcm"] = draw(st.sampled_from([False, False, True]))
    return spec


def ideal(spec):
    """matrix over the first k (+1 target) data qubits; big-endian"""
    k, s = spec["k"], spec["state"]
    if spec["what"] == "mcx":
        return mcx_matrix(k, s), k + 1
    if spec["what"] in ("mcz", "mcp"):
        M = np.eye(2**k, dtype=complex)
        i = int(s, 2)
        M[i, i] = -1 if spec["what"] == "mcz" else np.exp(1j * spec["phi"])
        return M, k
    G = gate_matrix(spec)
    return ref.ctrl(G, k, list(s)), k + 1


def gate_matrix(spec):
    g, par = spec["gate"], spec["par"]
    if g == "gphase":
        return np.exp(1j * par[0]) * np.eye(2)
    np_ = ref.GATES[g][1]
    return ref.unitary({"n": 1, "ops": [[g, [0], par[:np_]]]})


def prep_ops(seed, n):
    r = np.random.default_rng(seed)
    return [["u3", [q], [float(x) for x in r.uniform(0.5, 2.5, 3)]] for q in range(n)], r


def ctrl_arg(spec, k):
    s = spec["state"]
    if spec["form"] == "str":
        return s
    v = sum(int(c) << j for j, c in enumerate(s))
    return -1 if v == 2**k - 1 else v


def apply_static(spec, qb):
    from qrisp import mcp, mcx, mcz
    from qrisp.circuit import XGate  # noqa: F401
    from qrisp.environments import control

    k = spec["k"]
    cs = ctrl_arg(spec, k)
    if spec["what"] == "mcx":
        kw = {"num_ancilla": spec["na"]} if spec["method"] in ("hybrid", "balauca_dirty") else {}
        mcx(qb["ctrl"], qb["target"], method=spec["method"], ctrl_state=cs, **kw)
    elif spec["what"] == "mcz":
        mcz(qb["ctrl"], method=spec["method"], ctrl_state=cs)
    elif spec["what"] == "mcp":
        mcp(spec["phi"], qb["ctrl"], method=spec["method"], ctrl_state=cs)
    else:
        g, par = spec["gate"], spec["par"]
        op = op_object([g, [0], par[: 1 if g == "gphase" else ref.GATES[g][1]]])
        ctrl = list(qb["ctrl"])
        if spec["method"] == "env":
            with control(ctrl, ctrl_state=cs):
                ctrl[0].qs().append(op, [qb["target"]])
        else:
            ctrl[0].qs().append(op.control(k, ctrl_state=cs, method=spec["method"]), ctrl + [qb["target"]])


def check_static(spec):
    from qrisp import QuantumBool, QuantumVariable
    from qrisp.core import merge
    from qrisp.environments import control, invert

    M, n = ideal(spec)
    k = spec["k"]
    c = QuantumVariable(k)
    t = QuantumBool()
    e = QuantumVariable(1)
    merge(c, t, e)
    ctrl = list(c)
    data = ctrl + [t[0], e[0]]
    ops, r = prep_ops(spec["seed"], k + 2)
    perm = [int(i) for i in r.permutation(k)] if spec.get("as") == "perm" else list(range(k))
    for o in ops:
        c.qs.append(op_object(o), [data[i] for i in o[1]])
    qb = {"ctrl": c if spec.get("as") == "qv" else [ctrl[i] for i in perm], "target": t if spec.get("as") == "target_bool" else t[0]}
    psi = ref.statevector({"n": k + 2, "ops": ops})
    wrap = spec["wrap"]
    reps = 1
    if wrap == "invert":
        with invert():
            apply_static(spec, qb)
        M = M.conj().T
    elif wrap.startswith("control"):
        with control(e[0], ctrl_state=wrap[-1]):
            apply_static(spec, qb)
    else:
        reps = 2 if wrap == "twice" else 1
        for _ in range(reps):
            apply_static(spec, qb)
    # model
    qs = [perm[i] for i in range(k)] + [k]
    qs = qs[:n]
    if wrap.startswith("control"):
        M, qs = ref.ctrl(M, 1, [wrap[-1]]), [k + 1] + qs
    for _ in range(reps):
        psi = apply_dense(M, qs, psi, k + 2)
    got = data_state(c.qs.compile(), data, "after a multi-controlled gate")
    d = ref.dist_phase(got, psi)
    require(d < TOL, "the multi-controlled gate is not the ideal one", d=float(d))
    if spec["mcm"]:
        check_mcm(c.qs.compile(compile_mcm=True), data, psi, r)
    return labels(spec)


def check_mcm(qc, qbs, want, r):
    n = len(qbs)
    rot = [["u3", [i], [float(x) for x in r.uniform(0, 3, 3)]] for i in range(n)]
    for o, q in zip(rot, qbs):
        qc.append(op_object(o), [q])
    cl = [qc.add_clbit() for _ in qbs]
    for q, b in zip(qbs, cl):
        qc.measure(q, b)
    got = np.zeros(2**n)
    for key, p in qc.run(shots=None).items():
        got[int(key[:n][::-1], 2)] += p
    exp = np.abs(apply_all(rot, want, n)) ** 2
    require(np.abs(got - exp).max() < 2e-3, "with mid-circuit measurements the gate is not the ideal one", d=float(np.abs(got - exp).max()))


def apply_dense(M, qs, psi, n):
    k = len(qs)
    psi = psi.reshape([2] * n)
    out = np.tensordot(np.asarray(M).reshape([2] * (2 * k)), psi, axes=(list(range(k, 2 * k)), qs))
    return np.moveaxis(out, list(range(k)), qs).reshape(-1)


def apply_all(ops, psi, n):
    for o in ops:
        psi = apply_dense(ref.unitary({"n": len(o[1]), "ops": [[o[0], list(range(len(o[1]))), o[2]]]}), o[1], psi, n)
    return psi


def labels(spec):
    out = set()
    if spec["k"] >= 3:
        out.add("big")
    if "0" in spec["state"]:
        out.add("zeros")
    if spec.get("wrap", "none") != "none":
        out.add("env")
    if spec.get("mcm"):
        out.add("mcm")
    return sorted(out)


# ------------------------------------------------------- phase tolerant methods


@st.composite
def pt_case(draw):
    m = draw(st.sampled_from(["gray_pt", "gray_pt", "gidney"]))
    k = 2 if m == "gidney" else draw(st.integers(1, 6))
    return {
        "method": m,
        "k": k,
        "state": draw(ref.bitstring(k)),
        "form": draw(st.sampled_from(["str", "int"])),
        "seed": draw(st.integers(0, 10**6)),
        "inv": draw(st.sampled_from(["method", "env", "conjugate", "swapped"])),
        "mid": draw(st.lists(st.sampled_from(["rz_t", "cz", "p_t", "cx_out", "rz_c"]), max_size=4)),
        "phi": draw(ref.angles()),
        "mcm": draw(st.booleans()),
    }


def check_pt(spec):
    """compute with the phase-tolerant method, act diagonally, take the inverse"""
    from qrisp import QuantumBool, QuantumVariable, conjugate, cx, cz, invert, mcx, p, rz
    from qrisp.core import merge

    k, m = spec["k"], spec["method"]
    c, t, e = QuantumVariable(k), QuantumBool(), QuantumVariable(1)
    merge(c, t, e)
    data = list(c) + [t[0], e[0]]
    ops, r = prep_ops(spec["seed"], k + 2)
    if m == "gidney":
        ops = [o for o in ops if o[1] != [k]]
    for o in ops:
        c.qs.append(op_object(o), [data[i] for i in o[1]])
    psi = ref.statevector({"n": k + 2, "ops": ops})
    cs = ctrl_arg(spec, k)
    M = mcx_matrix(k, spec["state"])
    first, second = m, m + "_inv"
    if spec["inv"] == "swapped" and m == "gray_pt":
        first, second = second, first

    def compute():
        mcx(list(c), t, method=first, ctrl_state=cs)

    def middle():
        for a in spec["mid"]:
            if a == "rz_t":
                rz(spec["phi"], t[0])
            elif a == "p_t":
                p(spec["phi"], t[0])
            elif a == "cz":
                cz(t[0], c[0])
            elif a == "rz_c":
                rz(spec["phi"], c[k - 1])
            else:
                cx(t[0], e[0])

    psi = apply_dense(M, list(range(k + 1)), psi, k + 2)
    if spec["inv"] == "conjugate":
        with conjugate(compute)():
            middle()
    else:
        compute()
        half = data_state(c.qs.compile(), data, "after the phase-tolerant gate")
        require(np.abs(np.abs(half) - np.abs(psi)).max() < TOL, "magnitudes differ from the ideal gate", d=float(np.abs(np.abs(half) - np.abs(psi)).max()))
        middle()
        if spec["inv"] == "env":
            with invert():
                compute()
        else:
            mcx(list(c), t, method=second, ctrl_state=cs)
    names = {"rz_t": ("rz", [k]), "p_t": ("p", [k]), "cz": ("cz", [k, 0]), "rz_c": ("rz", [k - 1]), "cx_out": ("cx", [k, k + 1])}
    for a in spec["mid"]:
        g, qs = names[a]
        psi = apply_dense(ref.unitary({"n": len(qs), "ops": [[g, list(range(len(qs))), [spec["phi"]] if g in ("rz", "p") else []]]}), qs, psi, k + 2)
    psi = apply_dense(M, list(range(k + 1)), psi, k + 2)
    got = data_state(c.qs.compile(), data, "after computing and inverting")
    d = ref.dist_phase(got, psi)
    require(d < TOL, "the inverse does not undo the phase of a phase-tolerant gate", d=float(d))
    if spec["mcm"]:
        check_mcm(c.qs.compile(compile_mcm=True), data, psi, r)
    return labels(spec) + (["mid"] if spec["mid"] else [])


# ------------------------------------------------------- Jasp


@st.composite
def jasp_case(draw):
    what = draw(st.sampled_from(["mcx"] * 3 + ["mcz", "mcp"]))
    k = draw(st.integers(1, 6))
    spec = {
        "what": what,
        "k": k,
        "state": draw(ref.bitstring(k)),
        "form": draw(st.sampled_from(["str", "int", "dyn"])),
        "seed": draw(st.integers(0, 10**6)),
        "as": draw(st.sampled_from(["list", "qv", "slice"])),
        "wrap": draw(st.sampled_from(["none", "none", "invert", "control0", "control1", "twice"])),
    }
    if spec["as"] == "list" and k < 3:
        spec["as"] = "slice"  # short lists are refused with an IndexError by most Jasp methods
    if what == "mcp":
        spec["method"] = draw(st.sampled_from(["auto", "balauca", "khattar"]))
        spec["phi"] = draw(ref.angles())
        if spec["method"] == "khattar" and k < 6 and spec["as"] == "list":
            spec["as"] = "qv"
    elif what == "mcz":
        spec["method"] = draw(st.sampled_from(["auto", "balauca", "khattar"]))
    else:
        ms = ["auto", "balauca", "khattar"] + (["gray"] if spec["as"] == "list" and spec["form"] != "dyn" else [])
        spec["method"] = draw(st.sampled_from(ms))
        if spec["method"] == "auto" and spec["as"] == "list" and spec["form"] == "dyn":
            spec["form"] = "int"
    return spec


def check_jasp(spec):
    from qrisp import QuantumBool, QuantumFloat, mcp, mcx, mcz, u3
    from qrisp.environments import control, invert

    k = spec["k"]
    M, n = ideal(spec)
    N = k + 2
    ops, r = prep_ops(spec["seed"], N)
    rot = [["u3", [i], [float(x) for x in r.uniform(0, 3, 3)]] for i in range(N)]
    cs = ctrl_arg(spec, k)
    dyn = spec["form"] == "dyn"

    def program(state, phi):
        c, t, e = QuantumFloat(k), QuantumBool(), QuantumBool()
        qb = [c[i] for i in range(k)] + [t[0], e[0]]
        for o in ops:
            u3(*o[2], qb[o[1][0]])
        ctrls = {"list": qb[:k], "qv": c, "slice": c[0:k]}[spec["as"]]
        if not dyn:
            state = cs

        def act():
            if spec["what"] == "mcx":
                mcx(ctrls, t[0], method=spec["method"], ctrl_state=state)
            elif spec["what"] == "mcz":
                mcz(ctrls, method=spec["method"], ctrl_state=state)
            else:
                mcp(phi, ctrls, method=spec["method"], ctrl_state=state)

        if spec["wrap"] == "invert":
            with invert():
                act()
        elif spec["wrap"].startswith("control"):
            with control(e[0], ctrl_state=int(spec["wrap"][-1])):
                act()
        else:
            act()
            if spec["wrap"] == "twice":
                act()
        for o in rot:
            u3(*o[2], qb[o[1][0]])
        return c, t, e

    got = distribution(program, [k, 1, 1], cs if dyn else 0, spec.get("phi", 0.0))
    psi = ref.statevector({"n": N, "ops": ops})
    qs = list(range(n))
    if spec["wrap"] == "invert":
        M = M.conj().T
    if spec["wrap"].startswith("control"):
        M, qs = ref.ctrl(M, 1, [spec["wrap"][-1]]), [k + 1] + qs
    for _ in range(2 if spec["wrap"] == "twice" else 1):
        psi = apply_dense(M, qs, psi, N)
    P = np.abs(apply_all(rot, psi, N)) ** 2
    P = np.transpose(P.reshape([2] * N), list(range(k))[::-1] + [k, k + 1]).reshape(2**k, 2, 2)
    d = np.abs(P - got).max()
    require(d < 1e-3, "in Jasp the multi-controlled gate is not the ideal one", d=float(d))
    return labels(spec)


@st.composite
def jasp_pt_case(draw):
    spec = draw(pt_case())
    spec["k"] = min(spec["k"], 3)  # larger phase-tolerant gates are refused in Jasp
    spec["state"] = spec["state"][: spec["k"]]
    spec["inv"] = draw(st.sampled_from(["method", "env", "conjugate"]))
    spec["mcm"] = False
    return spec


def check_jasp_pt(spec):
    from qrisp import QuantumBool, QuantumFloat, conjugate, cx, cz, mcx, p, rz, u3
    from qrisp.environments import invert

    k, m = spec["k"], spec["method"]
    N = k + 2
    ops, r = prep_ops(spec["seed"], N)
    if m == "gidney":
        ops = [o for o in ops if o[1] != [k]]
    rot = [["u3", [i], [float(x) for x in r.uniform(0, 3, 3)]] for i in range(N)]
    cs = ctrl_arg(spec, k)
    phi = spec["phi"]

    def program():
        c, t, e = QuantumFloat(k), QuantumBool(), QuantumBool()
        qb = [c[i] for i in range(k)] + [t[0], e[0]]
        for o in ops:
            u3(*o[2], qb[o[1][0]])

        def compute():
            mcx(qb[:k], qb[k], method=m, ctrl_state=cs)

        def middle():
            for a in spec["mid"]:
                if a == "rz_t":
                    rz(phi, qb[k])
                elif a == "p_t":
                    p(phi, qb[k])
                elif a == "cz":
                    cz(qb[k], qb[0])
                elif a == "rz_c":
                    rz(phi, qb[k - 1])
                else:
                    cx(qb[k], qb[k + 1])

        if spec["inv"] == "conjugate":
            with conjugate(compute)():
                middle()
        else:
            compute()
            middle()
            if spec["inv"] == "env":
                with invert():
                    compute()
            else:
                mcx(qb[:k], qb[k], method=m + "_inv", ctrl_state=cs)
        for o in rot:
            u3(*o[2], qb[o[1][0]])
        return c, t, e

    got = distribution(program, [k, 1, 1])
    psi = ref.statevector({"n": N, "ops": ops})
    M = mcx_matrix(k, spec["state"])
    psi = apply_dense(M, list(range(k + 1)), psi, N)
    names = {"rz_t": ("rz", [k]), "p_t": ("p", [k]), "cz": ("cz", [k, 0]), "rz_c": ("rz", [k - 1]), "cx_out": ("cx", [k, k + 1])}
    for a in spec["mid"]:
        g, qs = names[a]
        psi = apply_dense(ref.unitary({"n": len(qs), "ops": [[g, list(range(len(qs))), [phi] if g in ("rz", "p") else []]]}), qs, psi, N)
    psi = apply_dense(M, list(range(k + 1)), psi, N)
    P = np.abs(apply_all(rot, psi, N)) ** 2
    P = np.transpose(P.reshape([2] * N), list(range(k))[::-1] + [k, k + 1]).reshape(2**k, 2, 2)
    d = np.abs(P - got).max()
    require(d < 1e-3, "in Jasp the inverse does not undo a phase-tolerant gate", d=float(d))
    return labels(spec) + (["mid"] if spec["mid"] else [])


FACETS = [
    Facet("static", static_case(), check_static, quick=2000),
    Facet("pt", pt_case(), check_pt, quick=800),
    Facet("jasp", jasp_case(), check_jasp, quick=600, weight=8.0),
    Facet("jasp_pt", jasp_pt_case(), check_jasp_pt, quick=200, weight=8.0),
]
