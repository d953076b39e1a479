"""C02: inverting, controlling, wrapping and binding circuits act as linear algebra."""

import numpy as np
from hypothesis import strategies as st

from pbt import ref
from pbt.core import Facet, require

PROPERTY = "C02"
RULE = (
    "Random circuit specs and gates pushed through random chains of inverse/control/to_gate/extend/compose/"
    "copy/transpile/bind_parameters, compared with the same matrix operations on the textbook unitary; the "
    "fully transpiled circuit is compared as well, so the synthesised decomposition is judged and not only "
    "the stored matrix. Non-trivial: a chain with a control or inverse, a parametrised circuit with a bound "
    "symbol, or a structural operation on a circuit with an entangling gate."
)
ASSUMPTIONS = ["complex64 unitaries compared with absolute tolerance 3e-4"]
TOL = 3e-4


def snapshot(qc):
    """Observable content of a circuit (used to show it was not modified)."""
    return [(i.op.name, [str(p) for p in i.op.params], [q.identifier for q in i.qubits]) for i in qc.data]


def same(U, W, what):
    d = ref.dist(U, W)
    require(d < TOL, what, d=d)


# ------------------------------------------------------------------ chains on a gate


@st.composite
def chains(draw):
    total = 5
    kind = draw(st.sampled_from(["gate", "gate", "circuit"]))
    if kind == "gate":
        name = draw(st.sampled_from(list(ref.GATES) + ["xxyy"]))
        k, npar = (ref.GATES[name][0], ref.GATES[name][1]) if name != "xxyy" else (2, 2)
        base = ["gate", name, [draw(ref.angles()) for _ in range(npar)]]
    else:
        c = draw(ref.circuit(1, 3, 5, [g for g in ref.ALL if g != "barrier"], nested=1))
        k = c["n"]
        base = ["circuit", c]
    trs = []
    w = k
    for _ in range(draw(st.integers(1, 4))):
        t = draw(st.sampled_from(["inv", "ctrl", "ctrl", "wrap", "copy"]))
        if t == "ctrl" and w < total:
            c = draw(st.integers(1, min(3, total - w)))
            trs.append(["ctrl", draw(ref.bitstring(c)), draw(st.sampled_from(["str", "int", "default"])), draw(st.sampled_from([None, "gray", "auto"]))])
            if trs[-1][2] == "default":
                trs[-1][1] = "1" * c
            w += c
        else:
            trs.append(["inv" if t == "ctrl" else t])
    return {"base": base, "chain": trs, "width": w}


def check_chain(spec):
    from qrisp import QuantumCircuit

    b = spec["base"]
    if b[0] == "gate":
        op = ref.base_gate(b[1], b[2])
        U = ref.op_matrix([b[1], list(range(op.num_qubits)), b[2]])
    else:
        op = ref.build(b[1]).to_gate()
        U = ref.unitary(b[1])
    ops = [(op, U)]
    for t in spec["chain"]:
        if t[0] == "inv":
            op, U = op.inverse(), U.conj().T
        elif t[0] == "ctrl":
            c = len(t[1])
            if t[2] == "str":
                cs = t[1]
            elif t[2] == "int":  # bit j of the integer belongs to control qubit j
                cs = sum(int(ch) << j for j, ch in enumerate(t[1]))
            else:
                cs = -1
            op = op.control(c, ctrl_state=cs, method=t[3])
            U = ref.ctrl(U, c, [int(ch) for ch in t[1]])
        elif t[0] == "wrap":
            qc = QuantumCircuit(op.num_qubits)
            qc.append(op, qc.qubits)
            op = qc.to_gate()
        else:
            op = op.copy()
        ops.append((op, U))
    # evaluate from the last to the first: earlier objects must be unaffected by later operations
    for i, (op, U) in reversed(list(enumerate(ops))):
        require(op.num_qubits == int(np.log2(len(U))), "wrong number of qubits", step=i)
        qc = QuantumCircuit(op.num_qubits)
        qc.append(op, qc.qubits)
        same(qc.transpile().get_unitary(), U, f"decomposition after step {i} of the chain differs from matrix algebra")
        same(qc.get_unitary(), U, f"unitary after step {i} of the chain differs from matrix algebra")
        same(qc.inverse().get_unitary(), U.conj().T, f"circuit inverse after step {i} differs")
        same(qc.inverse().transpile().get_unitary(), U.conj().T, f"decomposed circuit inverse after step {i} differs")
    kinds = [t[0] for t in spec["chain"]]
    labels = []
    if "ctrl" in kinds:
        labels.append("control")
        if any(t[0] == "ctrl" and "0" in t[1] for t in spec["chain"]):
            labels.append("control on 0")
        if kinds.count("ctrl") > 1:
            labels.append("nested control")
    if "inv" in kinds:
        labels.append("inverse")
    return labels


# ------------------------------------------------------------------ structure


@st.composite
def structure(draw):
    a = draw(ref.circuit(1, 4, 6, nested=1))
    k = draw(st.integers(1, a["n"]))
    b = draw(ref.circuit(k, k, 5, nested=1))
    place = draw(ref.qubit_choice(a["n"], k))
    how = draw(st.sampled_from(["extend", "append_gate", "compose", "compose_copy", "append_op", "index"]))
    return {"a": a, "b": b, "place": place, "how": how, "level": draw(st.sampled_from([0, 1, 2, None])),
            "amount": draw(st.integers(1, 2))}


def check_structure(spec):
    a, b = ref.build(spec["a"]), ref.build(spec["b"])
    Ua, Ub = ref.unitary(spec["a"]), ref.unitary(spec["b"])
    n = spec["a"]["n"]
    W = ref.apply(Ua, Ub, spec["place"], n)
    sa, sb = snapshot(a), snapshot(b)
    res = a.copy()
    tgt = [res.qubits[i] for i in spec["place"]]
    how = spec["how"]
    if how == "extend":
        res.extend(b, {q: t for q, t in zip(b.qubits, tgt)})
    elif how == "append_gate":
        res.append(b.to_gate(), tgt)
    elif how == "append_op":
        res.append(b.to_op(name="my_gate"), tgt)
    elif how == "index":
        res.append(b.to_gate(), list(spec["place"]))
    elif how == "compose":
        res.compose(b, tgt)
    else:
        r2 = res.compose(b, tgt, inplace=False)
        require(snapshot(res) == sa, "compose(inplace=False) modified the circuit")
        res = r2
    require(snapshot(a) == sa, "operation on a copy changed the original circuit", how=how)
    require(snapshot(b) == sb, "operation changed the appended circuit", how=how)
    same(res.get_unitary(), W, f"{how} gives the wrong operator")
    same(res.inverse().get_unitary(), W.conj().T, "inverse of the combined circuit is not the adjoint")
    same(res.transpile(*([spec["level"]] if spec["level"] is not None else [])).get_unitary(), W, "transpile changed the operator")
    inv = res.inverse()
    require([q for q in inv.qubits] == [q for q in res.qubits], "inverse changed the qubits")
    if n + spec["amount"] <= 5:
        c = res.control(spec["amount"]) if "barrier" not in ref.gate_names(spec["a"]) | ref.gate_names(spec["b"]) else None
        if c is not None:
            same(c.get_unitary(), ref.ctrl(W, spec["amount"]), "QuantumCircuit.control gives the wrong operator")
    require(a.compare_unitary(ref.build(spec["a"])), "compare_unitary rejects an identical circuit")
    want = ref.dist(Ua, W) < 1e-6
    far = ref.dist(Ua, W) > 1e-2
    got = a.compare_unitary(res)
    if want or far:
        require(bool(got) == want, "compare_unitary verdict wrong", want=want)
    require(snapshot(a) == sa, "circuit modified by inspection")
    ent = any(len(o[1]) > 1 and o[0] != "barrier" for o in spec["a"]["ops"] + spec["b"]["ops"])
    return [how] if ent and spec["b"]["ops"] else []


# ------------------------------------------------------------------ broadcasting


@st.composite
def broadcast(draw):
    n = draw(st.integers(2, 5))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["one", "one_param", "ctrl_many", "many_many", "many_tgt", "range", "slice"]))
        if kind in ("one", "one_param"):
            k = draw(st.integers(1, n))
            qs = draw(ref.qubit_choice(n, k))
            g = draw(st.sampled_from(["x", "y", "z", "h", "s", "t", "sx", "s_dg", "t_dg", "sx_dg"] if kind == "one" else ["rx", "ry", "rz", "p"]))
            ops.append([kind, g, qs, draw(ref.angles()), draw(st.sampled_from(["index", "object"]))])
        elif kind in ("ctrl_many", "many_tgt"):
            k = draw(st.integers(2, n))
            qs = draw(ref.qubit_choice(n, k))
            g = draw(st.sampled_from(["cx", "cy", "cz", "cp", "crx", "rxx", "rzz"]))
            ops.append([kind, g, qs, draw(ref.angles()), draw(st.sampled_from(["index", "object"]))])
        elif kind == "many_many":
            k = draw(st.integers(1, n // 2))
            qs = draw(ref.qubit_choice(n, 2 * k))
            g = draw(st.sampled_from(["cx", "cy", "cz", "cp", "crx", "rxx", "rzz", "swap"]))
            ops.append([kind, g, qs, draw(ref.angles()), draw(st.sampled_from(["index", "object"]))])
        else:
            a = draw(st.integers(0, n - 1))
            b = draw(st.integers(a + 1, n))
            ops.append([kind, draw(st.sampled_from(["x", "h", "t", "sx"])), [a, b], 0, "index"])
    return {"n": n, "ops": ops}


def check_broadcast(spec):
    from qrisp import QuantumCircuit

    n = spec["n"]
    qc = QuantumCircuit(n)
    W = np.eye(2**n, dtype=complex)
    lab = []
    for kind, g, qs, ang, rep in spec["ops"]:
        f = getattr(qc, g)
        par = [ang] if ref.GATES[g][1] else []
        M = ref.matrix(g, par)
        r = lambda q: q if rep == "index" else qc.qubits[q]
        if kind in ("one", "one_param"):
            f(*par, [r(q) for q in qs])
            for q in qs:
                W = ref.apply(W, M, [q], n)
        elif kind == "range":
            f(range(*qs))
            for q in range(*qs):
                W = ref.apply(W, M, [q], n)
        elif kind == "slice":
            f(qc.qubits[qs[0] : qs[1]])
            for q in range(*qs):
                W = ref.apply(W, M, [q], n)
        elif kind == "ctrl_many":
            f(*par, r(qs[0]), [r(q) for q in qs[1:]])
            for q in qs[1:]:
                W = ref.apply(W, M, [qs[0], q], n)
        elif kind == "many_tgt":
            f(*par, [r(q) for q in qs[1:]], r(qs[0]))
            for q in qs[1:]:
                W = ref.apply(W, M, [q, qs[0]], n)
        else:
            k = len(qs) // 2
            f(*par, [r(q) for q in qs[:k]], [r(q) for q in qs[k:]])
            for a, b in zip(qs[:k], qs[k:]):
                W = ref.apply(W, M, [a, b], n)
        lab.append(kind)
    same(qc.get_unitary(), W, "broadcast gate application gives the wrong operator")
    return sorted(set(lab))


# ------------------------------------------------------------------ gate functions on variables

FN1 = ["x", "y", "z", "h", "s", "t", "s_dg", "t_dg", "sx", "sx_dg", "rx", "ry", "rz", "p", "gphase", "u3", "unitary"]
FN2 = ["cx", "cy", "cz", "cp", "crz", "swap", "rxx", "rzz", "xxyy"]
FNMANY = ["mcx", "mcz", "mcp"]
NPAR = {"rx": 1, "ry": 1, "rz": 1, "p": 1, "gphase": 1, "u3": 3, "unitary": 1, "cp": 1, "crz": 1, "rxx": 1, "rzz": 1, "xxyy": 2, "mcp": 1}


@st.composite
def functions(draw):
    sizes = [draw(st.sampled_from([1, 2])), draw(st.sampled_from([1, 2])), draw(st.sampled_from([0, 1]))]
    n = sum(sizes)
    ops = []
    traced = draw(st.sampled_from([False, False, True]))
    for _ in range(draw(st.sampled_from(range(1, 6)))):
        g = draw(st.sampled_from((FN1[:-1] if traced else FN1) * 2 + FN2 * 2 + ([] if traced else FNMANY)))
        par = [draw(ref.angles()) for _ in range(NPAR.get(g, 0))]
        if g == "unitary":
            par = [draw(st.sampled_from(range(1000)))]
        if g in FN1:
            form = draw(st.sampled_from(["qubit", "qubit", "variable"] + ([] if traced else ["list"]))) if g not in ("gphase", "unitary") else "qubit"
            if form == "variable":
                tgt = [draw(st.sampled_from([0, 1]))]
            elif form == "list":
                tgt = draw(ref.qubit_choice(n, draw(st.sampled_from(range(1, n + 1)))))
            else:
                tgt = [draw(st.sampled_from(range(n)))]
        elif g in FN2:
            form = draw(st.sampled_from(["qubit", "qubit", "variable"] if sizes[0] == sizes[1] and g not in ("xxyy",) else ["qubit"]))
            tgt = draw(ref.qubit_choice(n, 2)) if form == "qubit" else draw(st.sampled_from([[0, 1], [1, 0]]))
        else:
            form = "list"
            tgt = draw(ref.qubit_choice(n, n))
            if n < 3:
                continue
        ops.append([g, par, form, tgt, draw(st.sampled_from(range(2**8)))])
    return {"sizes": sizes, "ops": ops, "traced": traced}


def fn_matrix(g, par, k, cs):
    if g == "unitary":
        return ref.random_unitary(1, par[0])
    if g == "crz":
        return ref.ctrl(ref.rz(par[0]))
    if g == "xxyy":
        return ref.xxyy(*par)
    if g in FNMANY:
        base = ref.matrix({"mcx": "x", "mcz": "z", "mcp": "p"}[g], par)
        if g == "mcx":
            return ref.ctrl(base, k - 1, cs)
        # the phase is applied to exactly one basis state
        M = np.eye(2**k, dtype=complex)
        i = int(cs, 2)
        M[i, i] = base[1, 1]
        return M
    return ref.matrix(g, par)


def check_functions(spec):
    import qrisp
    from qrisp import QuantumVariable
    from qrisp.jasp import make_jaspr

    sizes = [s for s in spec["sizes"] if s]
    n = sum(sizes)
    offs = [0, sizes[0]]
    W = np.eye(2**n, dtype=complex)
    args, plan = [], []
    for g, par, form, tgt, raw in spec["ops"]:
        f = getattr(qrisp, g)
        if form == "variable":
            groups = [[offs[t] + i for t in tgt] for i in range(sizes[tgt[0]])]
        elif form == "list" and g not in FNMANY:
            groups = [[q] for q in tgt]
        else:
            groups = [tgt]
        k = len(groups[0])
        nctl = k - 1 if g == "mcx" else k
        cs = format(raw % 2**nctl, f"0{nctl}b") if g in FNMANY else None
        M = fn_matrix(g, par, k, cs)
        for grp in groups:
            W = ref.apply(W, M, grp, n)
        plan.append((g, f, len(args), len(par), form, tgt, cs))
        args += [] if g == "unitary" else [float(p) for p in par]
        if g == "unitary":
            plan[-1] += (M,)

    def body(qvs, args):
        qb = [qv[i] for qv, size in zip(qvs, sizes) for i in range(size)]
        for g, f, a, k, form, tgt, cs, *mat in plan:
            par = mat if mat else list(args[a : a + k])
            if g == "mcx":
                f([qb[q] for q in tgt[:-1]], qb[tgt[-1]], ctrl_state=cs)
            elif g in FNMANY:
                f(*par, [qb[q] for q in tgt], ctrl_state=cs)
            elif form == "variable":
                f(*par, *[qvs[t] for t in tgt])
            elif form == "list":
                f(*par, [qb[q] for q in tgt])
            else:
                f(*par, *[qb[q] for q in tgt])

    if spec["traced"]:

        def fn(*args):
            qvs = [QuantumVariable(s) for s in sizes]
            body(qvs, args)
            return tuple(qv.reg for qv in qvs)

        *regs, qc = make_jaspr(fn)(*args).to_qc(*args)
        qubits = [q for r in regs for q in r]
    else:
        qvs = [QuantumVariable(s) for s in sizes]
        for qv in qvs[1:]:
            qrisp.merge([qvs[0].qs, qv.qs])
        body(qvs, args)
        qc = qvs[0].qs.copy()
        qubits = [q for qv in qvs for q in qv]
    qc = qc.copy()
    extra = [q for q in qc.qubits if q not in qubits]
    qc.qubits = qubits + extra
    qc.data = [i for i in qc.data if i.op.name not in ("qb_alloc", "qb_dealloc")]
    U = qc.get_unitary()
    if extra:
        # ancillas of multi-controlled gates start and end in the zero state
        m = 2 ** len(extra)
        require(ref.dist(U[::m, ::m] @ U[::m, ::m].conj().T, np.eye(2**n)) < TOL, "ancillas are not returned clean")
        U = U[::m, ::m]
    same(U, W, "gate function applies the wrong operator")
    return sorted({("traced " if spec["traced"] else "") + op[0] for op in spec["ops"]})


# ------------------------------------------------------------------ parameters

PARAM_GATES = ["rx", "ry", "rz", "p", "gphase", "u3", "r", "cp", "crx", "rxx", "rzz", "xxyy"]


@st.composite
def symbolic(draw):
    n = draw(st.integers(1, 3))
    nsym = draw(st.integers(1, 3))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.booleans()):
            g = draw(st.sampled_from([g for g in PARAM_GATES if ref.arity(g) <= n]))
            npar = ref.GATES[g][1] if g in ref.GATES else 2
            pars = []
            for _ in range(npar):
                if draw(st.integers(0, 3)):
                    pars.append([draw(st.integers(0, nsym - 1)), draw(st.sampled_from([1, -1, 2, 0.5])), draw(st.sampled_from([0, 0, 0.3]))])
                else:
                    pars.append(draw(ref.angles()))
            wrapc = draw(ref.bitstring(draw(st.integers(1, n - ref.arity(g))))) if n > ref.arity(g) and draw(st.booleans()) else ""
            ops.append([g, draw(ref.qubit_choice(n, ref.arity(g) + len(wrapc))), pars, wrapc, draw(st.sampled_from(["", "inv", "wrap"]))])
        else:
            o = draw(ref.op(n, ["x", "h", "cx", "t", "swap", "y"]))
            ops.append([o[0], o[1], [], "", ""])
    return {"n": n, "ops": ops, "vals": [draw(ref.angles()) for _ in range(nsym)], "inv": draw(st.booleans()), "wrap": draw(st.booleans())}


def check_symbolic(spec):
    import sympy
    from qrisp import QuantumCircuit

    n = spec["n"]
    syms = sympy.symbols(f"a0:{len(spec['vals'])}")
    qc = QuantumCircuit(n)
    W = np.eye(2**n, dtype=complex)
    used = set()
    for g, qs, pars, wrapc, mode in spec["ops"]:
        ps, vs = [], []
        for p in pars:
            if isinstance(p, list):
                ps.append(syms[p[0]] * p[1] + p[2])
                vs.append(spec["vals"][p[0]] * p[1] + p[2])
                used.add(syms[p[0]])
            else:
                ps.append(p)
                vs.append(p)
        gate = ref.base_gate(g, ps)
        M = ref.op_matrix([g, list(range(ref.arity(g))), vs])
        if mode == "inv":
            gate, M = gate.inverse(), M.conj().T
        elif mode == "wrap":
            t = QuantumCircuit(gate.num_qubits)
            t.append(gate, t.qubits)
            gate = t.to_gate()
        if wrapc:
            gate = gate.control(len(wrapc), ctrl_state=wrapc)
            M = ref.ctrl(M, len(wrapc), [int(c) for c in wrapc])
        qc.append(gate, [qc.qubits[i] for i in qs])
        W = ref.apply(W, M, qs, n)
    if spec["inv"]:
        qc, W = qc.inverse(), W.conj().T
    if spec["wrap"]:
        t = QuantumCircuit(n)
        t.append(qc.to_gate(), t.qubits)
        qc = t
    dic = {s: v for s, v in zip(syms, spec["vals"])}
    before = snapshot(qc)
    bound = qc.bind_parameters({s: dic[s] for s in syms})
    require(snapshot(qc) == before, "bind_parameters modified the circuit")
    same(bound.get_unitary(), W, "bound circuit differs from the circuit written with numbers")
    same(bound.transpile().get_unitary(), W, "decomposition of the bound circuit differs")
    # binding again with other values must not be influenced by the first binding
    other = {s: 0.1 + 0.2 * i for i, s in enumerate(syms)}
    b2 = qc.bind_parameters(other)
    b3 = qc.bind_parameters(dic)
    same(b3.get_unitary(), W, "second binding of the same circuit differs")
    require(not len(b2.abstract_params), "bound circuit still lists abstract parameters")
    if used and n <= 2 and not spec["wrap"]:
        S = np.array(qc.get_unitary())
        f = sympy.lambdify(syms, sympy.Matrix(S.tolist()), modules="numpy")
        same(np.array(f(*spec["vals"]), dtype=complex), W, "symbolic unitary evaluated at the values differs")
    return (["symbols"] + (["controlled symbol"] if any(o[3] for o in spec["ops"]) else [])) if used else []


FACETS = [
    Facet("chain", chains(), check_chain, quick=3000),
    Facet("structure", structure(), check_structure, quick=1600),
    Facet("broadcast", broadcast(), check_broadcast, quick=600),
    Facet("functions", functions(), check_functions, quick=500),
    Facet("symbolic", symbolic(), check_symbolic, quick=1500),
]
