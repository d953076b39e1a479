"""C04: converting circuits to and from other formats preserves the circuit."""

import math

import numpy as np
from hypothesis import strategies as st

from pbt import ref
from pbt.core import Facet, Reject, require
from pbt.props.c01 import build_meas, meas_circuit, ref_distribution

PROPERTY = "C04"
RULE = (
    "Random circuits (gate set incl. controlled/nested composites, control states, symbolic parameters, measurements, "
    "resets, conditioned gates) exported to Qiskit, Cirq, pytket, PennyLane and OpenQASM 2/3 and evaluated with the "
    "matrices of that framework against the numpy reference; random Qiskit/Cirq/QASM circuits imported and compared "
    "with the framework's own operator. Non-trivial: at least one multi-qubit or parametrised gate."
)
ASSUMPTIONS = [
    "the matrices the installed frameworks attach to their own gates are right",
    "a conversion that raises a clear 'not supported' error is not counted as a wrong conversion; the generators "
    "avoid gates the converter documents as unsupported",
]
TOL = 3e-4


def labels(spec):
    out = []
    for o in spec["ops"]:
        if o[0] in ("meas", "reset", "cif"):
            out.append(o[0])
        elif len(o[1]) > 1:
            out.append("multi-qubit")
            if o[0] in ("ctrl", "mcx"):
                out.append("controlled")
            if o[0] == "sub":
                out.append("nested")
        elif len(o) > 2:
            out.append("parametrised")
    return sorted(set(out))


def reverse_endian(U):
    n = int(math.log2(len(U)))
    idx = [int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(2**n)]
    return U[np.ix_(idx, idx)]


# ------------------------------------------------------------- Qiskit


def qiskit_unitary(c):
    from qiskit.quantum_info import Operator

    return reverse_endian(Operator(c).data)


def check_qiskit(spec):
    qc = ref.build(spec)
    c = qc.to_qiskit()
    require(c.num_qubits == spec["n"], "number of qubits changed")
    d = ref.dist_phase(qiskit_unitary(c), ref.unitary(spec))
    require(d < TOL, "the exported Qiskit circuit has another operator", d=d)
    from qrisp import QuantumCircuit

    back = QuantumCircuit.from_qiskit(c)
    d = ref.dist_phase(back.get_unitary(), ref.unitary(spec))
    require(d < TOL, "exporting to Qiskit and importing again changed the operator", d=d)
    return labels(spec)


def qiskit_distribution(c):
    """Exact distribution of a Qiskit circuit with measurements, resets and if_else, using the
    matrices of the Qiskit gates. Keys: all classical bits, highest index leftmost."""
    from qiskit.circuit import IfElseOp
    from qiskit.quantum_info import Operator

    n, m = c.num_qubits, c.num_clbits
    s = np.zeros(2**n, dtype=complex)
    s[0] = 1
    branches = [([0] * m, s)]

    def run(circ, qmap, cmap, branches):
        for ins in circ.data:
            qs = [qmap[q] for q in ins.qubits]
            cs = [cmap[b] for b in ins.clbits]
            op = ins.operation
            new = []
            if op.name in ("measure", "reset"):
                for cl, v in branches:
                    for val in (0, 1):
                        P = np.zeros((2, 2))
                        P[val, val] = 1
                        w = ref.apply(v, P, qs, n)
                        if np.vdot(w, w).real < 1e-14:
                            continue
                        if op.name == "reset":
                            if val:
                                w = ref.apply(w, ref.X, qs, n)
                            new.append((cl, w))
                        else:
                            cl2 = list(cl)
                            cl2[cs[0]] = val
                            new.append((cl2, w))
            elif isinstance(op, IfElseOp):
                target, val = op.condition
                bits = [target] if not hasattr(target, "size") else list(target)
                idx = [circ.clbits.index(b) if b not in cmap else cmap[b] for b in bits]
                for br in branches:
                    x = sum(br[0][i] << k for k, i in enumerate(idx))
                    body = op.blocks[0] if x == int(val) else (op.blocks[1] if len(op.blocks) > 1 else None)
                    if body is None:
                        new.append(br)
                    else:
                        new += run(body, dict(zip(body.qubits, qs)), {**cmap, **dict(zip(body.clbits, cs))}, [br])
            elif op.name == "barrier":
                continue
            elif ins.clbits:
                d = op.definition
                for br in branches:
                    new += run(d, dict(zip(d.qubits, qs)), dict(zip(d.clbits, cs)), [br])
            else:
                U = reverse_endian(Operator(op).data)
                new = [(cl, ref.apply(v, U, qs, n)) for cl, v in branches]
            branches = new
        return branches

    branches = run(c, {q: i for i, q in enumerate(c.qubits)}, {b: i for i, b in enumerate(c.clbits)}, branches)
    res = {}
    for cl, v in branches:
        k = "".join(map(str, cl[::-1]))
        res[k] = res.get(k, 0) + np.vdot(v, v).real
    return res


def full_key_distribution(spec):
    """Reference distribution with keys over all classical bits (unmeasured ones are 0)."""
    used = sorted({o[2] for o in spec["ops"] if o[0] == "meas"}, reverse=True)
    out = {}
    for k, p in ref_distribution(spec).items():
        full = ["0"] * spec["nc"]
        for c, b in zip(used, k):
            full[spec["nc"] - 1 - c] = b
        k2 = "".join(full)
        out[k2] = out.get(k2, 0) + p
    return out


def compare(want, got, msg):
    for k in set(want) | set(got):
        require(abs(want.get(k, 0) - got.get(k, 0)) < 1e-3, msg, key=k, want=want, got=got)


def check_qiskit_meas(spec):
    from qrisp import QuantumCircuit

    qc = build_meas(spec)
    c = qc.to_qiskit()
    want = full_key_distribution(spec)
    compare(want, qiskit_distribution(c), "the exported Qiskit circuit has another outcome distribution")
    back = QuantumCircuit.from_qiskit(c)
    compare(ref_distribution(spec), dict(back.run(shots=None)), "exporting to Qiskit and importing again changed the distribution")
    return labels(spec)


@st.composite
def symbolic_case(draw):
    c = draw(ref.circuit(1, 3, 8, names=["rx", "ry", "rz", "p", "cp", "rzz", "rxx", "u3", "h", "cx", "x", "crx", "gphase"], min_ops=1))
    # replace some angles by expressions in a, b
    binds = {"a": draw(ref.angles()), "b": draw(ref.angles())}
    ops = []
    for o in c["ops"]:
        if len(o) > 2 and draw(st.booleans()):
            o = [o[0], o[1], [draw(st.sampled_from(["a", "b", "2*a", "a+b", "a-b/2", "-b"])) if o[0] != "u3" else v for v in o[2]]]
        ops.append(o)
    return {"n": c["n"], "ops": ops, "bind": binds}


def num(e, b):
    return eval(e, {}, dict(b)) if isinstance(e, str) else e


def check_symbolic(spec):
    from sympy import sympify

    from qrisp import QuantumCircuit

    sym = {"n": spec["n"], "ops": [o[:2] + ([[sympify(p) if isinstance(p, str) else p for p in o[2]]] if len(o) > 2 else []) for o in spec["ops"]]}
    nums = {"n": spec["n"], "ops": [o[:2] + ([[num(p, spec["bind"]) for p in o[2]]] if len(o) > 2 else []) for o in spec["ops"]]}
    qc = QuantumCircuit(spec["n"])
    for o in sym["ops"]:
        ref.append(qc, o, [qc.qubits[i] for i in o[1]])
    c = qc.to_qiskit()
    names = {str(p) for p in c.parameters}
    used = set()
    for o in spec["ops"]:
        for p in o[2] if len(o) > 2 else []:
            if isinstance(p, str):
                used |= {x for x in "ab" if x in p}
    require(names == used, "parameters of the exported circuit differ", names=names, used=used)
    bound = c.assign_parameters({p: spec["bind"][str(p)] for p in c.parameters})
    d = ref.dist_phase(qiskit_unitary(bound), ref.unitary(nums))
    require(d < TOL, "exported parametrised circuit has another operator after binding", d=d)
    back = QuantumCircuit.from_qiskit(c)
    from sympy import Symbol

    b2 = back.bind_parameters({s: spec["bind"][str(s)] for s in back.abstract_params})
    d = ref.dist_phase(b2.get_unitary(), ref.unitary(nums))
    require(d < TOL, "re-imported parametrised circuit has another operator after binding", d=d)
    return ["symbolic"] if used else []


# ------------------------------------------------------------- Qiskit -> Qrisp

QK1 = ["x", "y", "z", "h", "s", "sdg", "t", "tdg", "sx", "sxdg", "id"]
QK = {g: (1, 0) for g in QK1}
QK.update({"rx": (1, 1), "ry": (1, 1), "rz": (1, 1), "p": (1, 1), "u": (1, 3), "r": (1, 2)})
QK.update({"cx": (2, 0), "cy": (2, 0), "cz": (2, 0), "ch": (2, 0), "csx": (2, 0), "cs": (2, 0), "csdg": (2, 0), "swap": (2, 0), "iswap": (2, 0), "ecr": (2, 0), "dcx": (2, 0)})
QK.update({"cp": (2, 1), "crx": (2, 1), "cry": (2, 1), "crz": (2, 1), "rxx": (2, 1), "ryy": (2, 1), "rzz": (2, 1), "rzx": (2, 1), "cu": (2, 4)})
QK.update({"ccx": (3, 0), "ccz": (3, 0), "cswap": (3, 0), "rccx": (3, 0)})


@st.composite
def qk_gate(draw, n):
    g = draw(st.sampled_from([k for k in QK if QK[k][0] <= n] + (["xxyy", "mcx", "mcp", "ctrl"] if n > 1 else []) + ["unitary"]))
    if g == "xxyy":
        return [g, draw(ref.qubit_choice(n, 2)), [draw(ref.angles()), draw(ref.angles())]]
    if g in ("mcx", "mcp"):
        k = draw(st.integers(2, n))
        return [g, draw(ref.qubit_choice(n, k)), [draw(ref.angles())]]
    if g == "ctrl":
        base = draw(st.sampled_from([k for k in QK if QK[k][0] < n and k not in ("id", "cu")]))
        k = draw(st.integers(1, min(2, n - QK[base][0])))
        return [g, draw(ref.qubit_choice(n, k + QK[base][0])), [base, [draw(ref.angles()) for _ in range(QK[base][1])], k, draw(st.integers(0, 2**k - 1))]]
    if g == "unitary":
        k = draw(st.integers(1, min(n, 2)))
        return [g, draw(ref.qubit_choice(n, k)), [draw(st.integers(0, 10**6))]]
    return [g, draw(ref.qubit_choice(n, QK[g][0])), [draw(ref.angles()) for _ in range(QK[g][1])]]


@st.composite
def qk_case(draw):
    n = draw(st.integers(1, 4))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        if draw(st.integers(0, 5)) == 0:
            k = draw(st.integers(1, n))
            inner = [draw(qk_gate(k)) for _ in range(draw(st.integers(1, 4)))]
            c = draw(st.integers(0, min(2, n - k)))
            ops.append(["sub", draw(ref.qubit_choice(n, k + c)), [inner, c, draw(st.integers(0, 2**c - 1)), draw(st.booleans())]])
        else:
            ops.append(draw(qk_gate(n)))
    regs = draw(st.sampled_from(["plain", "split", "named"]))
    return {"n": n, "ops": ops, "regs": regs, "gphase": draw(st.sampled_from([0, 0, 0.3, -1.2]))}


def qk_append(c, o):
    from qiskit import QuantumCircuit
    from qiskit.circuit.library import standard_gates as sg
    from qiskit.circuit.library import UnitaryGate, XXPlusYYGate

    g, qs, pr = o
    if g == "xxyy":
        c.append(XXPlusYYGate(*pr), qs)
    elif g == "mcx":
        c.mcx(qs[:-1], qs[-1])
    elif g == "mcp":
        c.mcp(pr[0], qs[:-1], qs[-1])
    elif g == "unitary":
        c.append(UnitaryGate(ref.random_unitary(len(qs), pr[0])), qs)
    elif g == "ctrl":
        t = QuantumCircuit(QK[pr[0]][0])
        getattr(t, pr[0])(*pr[1], *range(QK[pr[0]][0]))
        c.append(t.data[0].operation.control(pr[2], ctrl_state=pr[3]), qs)
    elif g == "sub":
        inner, k, state, inv = pr
        t = QuantumCircuit(len(qs) - k)
        for i in inner:
            qk_append(t, i)
        gate = t.to_gate()
        if inv:
            gate = gate.inverse()
        if k:
            gate = gate.control(k, ctrl_state=state)
        c.append(gate, qs)
    else:
        getattr(c, g)(*pr, *qs)


def qk_build(spec):
    from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister

    n = spec["n"]
    if spec["regs"] == "plain":
        c = QuantumCircuit(n)
    elif spec["regs"] == "named":
        c = QuantumCircuit(QuantumRegister(n, "data"))
    else:
        c = QuantumCircuit(QuantumRegister(1, "one"))
        if n > 1:
            c.add_register(QuantumRegister(n - 1, "rest"))
    for o in spec["ops"]:
        qk_append(c, o)
    c.global_phase += spec.get("gphase", 0)
    return c


def check_from_qiskit(spec):
    from qrisp import QuantumCircuit

    c = qk_build(spec)
    U = qiskit_unitary(c)
    qc = QuantumCircuit.from_qiskit(c)
    d = ref.dist_phase(qc.get_unitary(), U)
    require(d < TOL, "the imported circuit has another operator than Qiskit computes", d=d)
    d = ref.dist_phase(qc.transpile().get_unitary(), U)
    require(d < TOL, "the transpiled imported circuit has another operator than Qiskit computes", d=d)
    return sorted({"multi-qubit" for o in spec["ops"] if len(o[1]) > 1} | {"composite" for o in spec["ops"] if o[0] == "sub"} | {"controlled" for o in spec["ops"] if o[0] == "ctrl"})


@st.composite
def qk_meas_case(draw):
    n = draw(st.integers(1, 3))
    regs = draw(st.lists(st.integers(1, 3), min_size=1, max_size=2))
    m = sum(regs)
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        k = draw(st.sampled_from(["gate", "gate", "meas", "meas", "reset", "ifbit", "ifreg"]))
        if k == "gate":
            ops.append(draw(qk_gate(n)))
        elif k == "meas":
            ops.append(["measure", draw(st.integers(0, n - 1)), draw(st.integers(0, m - 1))])
        elif k == "reset":
            ops.append(["reset", draw(st.integers(0, n - 1))])
        elif k == "ifbit":
            ops.append(["ifbit", draw(qk_gate(n)), draw(st.integers(0, m - 1)), draw(st.integers(0, 1))])
        else:
            r = draw(st.integers(0, len(regs) - 1))
            ops.append(["ifreg", draw(qk_gate(n)), r, draw(st.integers(0, 2 ** regs[r] - 1))])
    return {"n": n, "cregs": regs, "ops": ops}


def check_from_qiskit_meas(spec):
    from qiskit import ClassicalRegister, QuantumCircuit as QK_

    from qrisp import QuantumCircuit

    c = QK_(spec["n"])
    regs = [ClassicalRegister(k, f"r{i}") for i, k in enumerate(spec["cregs"])]
    c.add_register(*regs)
    used = set()
    for o in spec["ops"]:
        if o[0] == "measure":
            c.measure(o[1], o[2])
            used.add(o[2])
        elif o[0] == "reset":
            c.reset(o[1])
        elif o[0] in ("ifbit", "ifreg"):
            cond = (c.clbits[o[2]], o[3]) if o[0] == "ifbit" else (regs[o[2]], o[3])
            with c.if_test(cond):
                qk_append(c, o[1])
        else:
            qk_append(c, o)
    want = qiskit_distribution(c)
    qc = QuantumCircuit.from_qiskit(c)
    require(len(qc.clbits) == c.num_clbits, "number of classical bits changed")
    got = {}
    order = sorted(used, reverse=True)
    for k, p in dict(qc.run(shots=None)).items():
        full = ["0"] * c.num_clbits
        for cb, b in zip(order, k):
            full[c.num_clbits - 1 - cb] = b
        got["".join(full)] = got.get("".join(full), 0) + p
    compare(want, got, "the imported circuit has another outcome distribution than Qiskit defines")
    out = sorted({o[0] for o in spec["ops"]} & {"measure", "reset", "ifbit", "ifreg"})
    return out if used else []


# ------------------------------------------------------------- QASM


@st.composite
def qasm_case(draw):
    s = draw(ref.circuit(1, 3, 6, nested=1, min_ops=1))
    return {"n": s["n"], "ops": s["ops"], "v": draw(st.sampled_from([2, 2, 3])), "meas": draw(st.booleans())}


def check_qasm(spec):
    from qiskit import QuantumCircuit as QK_

    from qrisp import QuantumCircuit

    qc = QuantumCircuit(spec["n"], spec["n"] if spec["meas"] else 0)
    ref.build(spec, qc)
    if spec["meas"]:
        for i in range(spec["n"]):
            qc.measure(qc.qubits[i], qc.clbits[(i + 1) % spec["n"]])
    if spec["v"] == 3:
        text = qc.to_qasm3()
        require(text.startswith("OPENQASM 3"), "not an OpenQASM 3 program", text=text)
        return []
    text = qc.to_qasm2()
    c = QK_.from_qasm_str(text)
    if spec["meas"]:
        want = {}
        for i, a in enumerate(np.abs(ref.statevector(spec)) ** 2):
            b = ref.bits_of(i, spec["n"])
            key = ["0"] * spec["n"]
            for q in range(spec["n"]):
                key[spec["n"] - 1 - (q + 1) % spec["n"]] = str(b[q])
            want["".join(key)] = want.get("".join(key), 0) + a
        compare(want, qiskit_distribution(c), "the QASM text has another outcome distribution")
        back = QuantumCircuit.from_qasm_str(text)
        compare(want, dict(back.run(shots=None)), "the re-imported QASM text has another outcome distribution")
    else:
        d = ref.dist_phase(qiskit_unitary(c), ref.unitary(spec))
        require(d < TOL, "the QASM text describes another operator", d=d, text=text)
        back = QuantumCircuit.from_qasm_str(text)
        d = ref.dist_phase(back.get_unitary(), ref.unitary(spec))
        require(d < TOL, "the re-imported QASM text describes another operator", d=d, text=text)
    return labels(spec)


# ------------------------------------------------------------- Cirq


def check_cirq(spec):
    import cirq

    from qrisp import QuantumCircuit

    qc = ref.build(spec)
    try:
        c = qc.to_cirq()
    except ValueError as e:
        # documented error for gates without Cirq equivalent
        if "could not be decomposed" in str(e) and any(g in str(e) for g in ("u3", "cy")):
            return []
        raise
    U = c.unitary(qubit_order=cirq.LineQubit.range(spec["n"]), qubits_that_should_be_present=cirq.LineQubit.range(spec["n"]), dtype=np.complex128)
    d = ref.dist_phase(U, ref.unitary(spec))
    require(d < TOL, "the exported Cirq circuit has another operator", d=d)
    if len(c.all_qubits()) == spec["n"]:
        back = QuantumCircuit.from_cirq(c)
        d = ref.dist_phase(back.get_unitary(), ref.unitary(spec))
        require(d < TOL, "exporting to Cirq and importing again changed the operator", d=d)
    return labels(spec)


CQ1 = ["X", "Y", "Z", "H", "S", "T", "I"]


@st.composite
def cirq_gate(draw, n):
    g = draw(st.sampled_from(["fixed", "pow", "rot", "gphase"] + (["two", "ctrl"] if n > 1 else [])))
    if g == "fixed":
        return [g, draw(st.sampled_from(CQ1)), draw(ref.qubit_choice(n, 1))]
    if g == "pow":
        e = draw(st.one_of(st.sampled_from([0.25, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, -0.5, -0.25, -1.0, 0.75, 3.75]), st.integers(-4000, 4000).map(lambda k: k / 1000)))
        return [g, draw(st.sampled_from(["X", "Y", "Z"])), e, draw(ref.qubit_choice(n, 1))]
    if g == "rot":
        return [g, draw(st.sampled_from(["rx", "ry", "rz"])), draw(ref.angles()), draw(ref.qubit_choice(n, 1))]
    if g == "gphase":
        return [g, draw(ref.angles())]
    if g == "two":
        return [g, draw(st.sampled_from(["CNOT", "CZ", "SWAP"])), draw(st.sampled_from([1, 1, -1, 3])), draw(ref.qubit_choice(n, 2))]
    inner = draw(cirq_gate(n - 1).filter(lambda x: x[0] != "gphase"))
    k = len(inner[-1])
    c = draw(st.integers(1, min(2, n - k)))
    return [g, inner[:-1] + [list(range(k))], draw(ref.bitstring(c)), draw(st.booleans()), draw(ref.qubit_choice(n, c + k))]


@st.composite
def cirq_case(draw):
    n = draw(st.integers(1, 4))
    return {"n": n, "ops": [draw(cirq_gate(n)) for _ in range(draw(st.integers(1, 8)))], "qubits": draw(st.sampled_from(["line", "named", "grid"]))}


def cirq_op(o, qs):
    import cirq

    if o[0] == "fixed":
        return getattr(cirq, o[1])(qs[0])
    if o[0] == "pow":
        return (getattr(cirq, o[1]) ** o[2])(qs[0])
    if o[0] == "rot":
        return getattr(cirq, o[1])(o[2])(qs[0])
    if o[0] == "two":
        return (getattr(cirq, o[1]) ** o[2])(*qs)
    if o[0] == "ctrl":
        c = len(o[2])
        inner = cirq_op(o[1], qs[c:])
        vals = [int(x) for x in o[2]]
        if o[3]:
            return inner.gate.controlled(num_controls=c, control_values=vals)(*qs)
        return inner.controlled_by(*qs[:c], control_values=vals)
    raise KeyError(o)


def check_from_cirq(spec):
    import cirq

    from qrisp import QuantumCircuit

    n = spec["n"]
    qs = {"line": cirq.LineQubit.range(n), "named": [cirq.NamedQubit(f"q{i}") for i in range(n)], "grid": [cirq.GridQubit(i // 2, i % 2) for i in range(n)]}[spec["qubits"]]
    c = cirq.Circuit([cirq.I(q) for q in qs])
    for o in spec["ops"]:
        if o[0] == "gphase":
            c.append(cirq.GlobalPhaseGate(np.exp(1j * o[1]))())
        else:
            c.append(cirq_op(o, [qs[i] for i in o[-1]]))
    U = c.unitary(qubit_order=qs, dtype=np.complex128)
    try:
        qc = QuantumCircuit.from_cirq(c)
    except ValueError as e:
        # documented error; Cirq turns controlled phase gates into powers of CZ by itself
        if ("Only the full" in str(e) or "TOFFOLI" in str(e) or "CCZ" in str(e) or "CCX" in str(e)) and any(o[0] == "ctrl" for o in spec["ops"]):
            return []
        raise
    d = ref.dist_phase(qc.get_unitary(), U)
    require(d < TOL, "the imported circuit has another operator than Cirq computes", d=d)
    return sorted({o[0] for o in spec["ops"]} & {"ctrl", "two", "pow", "rot"})


@st.composite
def cirq_meas_case(draw):
    s = draw(ref.circuit(1, 4, 8, names=["h", "x", "ry", "cx", "cz", "swap", "s", "p", "ccx"], min_ops=1))
    k = draw(st.integers(1, s["n"]))
    return {"n": s["n"], "ops": s["ops"], "order": draw(ref.qubit_choice(s["n"], k))}


def check_cirq_meas(spec):
    import cirq

    from qrisp import QuantumCircuit

    qc = QuantumCircuit(spec["n"], len(spec["order"]))
    ref.build(spec, qc)
    for c, q in enumerate(spec["order"]):
        qc.measure(qc.qubits[q], qc.clbits[c])
    c = qc.to_cirq()
    measured = [q for op in c.all_operations() if cirq.is_measurement(op) for q in op.qubits]
    require(sorted(measured) == sorted(cirq.LineQubit(q) for q in spec["order"]), "other qubits are measured in the exported Cirq circuit", measured=measured)
    nomeas = cirq.Circuit(op for op in c.all_operations() if not cirq.is_measurement(op))
    sv = nomeas.final_state_vector(qubit_order=cirq.LineQubit.range(spec["n"]), dtype=np.complex128)
    d = ref.dist_phase(sv, ref.statevector(spec))
    require(d < TOL, "state of the exported Cirq circuit differs", d=d)
    if len(c.all_qubits()) == spec["n"]:
        back = QuantumCircuit.from_cirq(c)
        want = {}
        order = [back.qubits.index(i.qubits[0]) for i in back.data if i.op.name == "measure"]
        require(sorted(order) == sorted(spec["order"]), "other qubits measured after the round trip", order=order)
        for i, a in enumerate(np.abs(ref.statevector(spec)) ** 2):
            b = ref.bits_of(i, spec["n"])
            key = "".join(str(b[q]) for q in order)[::-1]
            want[key] = want.get(key, 0) + a
        compare(want, dict(back.run(shots=None)), "outcome distribution after the Cirq round trip differs")
    return ["measured"]


# ------------------------------------------------------------- pytket / PennyLane


def check_pytket(spec):
    qc = ref.build(spec)
    c = qc.to_pytket()
    from pytket.passes import DecomposeBoxes

    c = c.copy()
    DecomposeBoxes().apply(c)
    names = [str(q) for q in c.qubits]
    order = []
    for i, q in enumerate(qc.qubits):
        j = [k for k, nm in enumerate(c.qubits) if nm.reg_name == q.identifier]
        require(len(j) == 1, "qubit missing in the exported pytket circuit", names=names)
        order.append(j[0])
    U = c.get_unitary()
    # pytket orders the qubits lexicographically, most significant first
    P = np.zeros_like(U)
    n = spec["n"]
    idx = []
    for i in range(2**n):
        b = ref.bits_of(i, n)
        o = [0] * n
        for q in range(n):
            o[order[q]] = b[q]
        idx.append(int("".join(map(str, o)), 2))
    U = U[np.ix_(idx, idx)]
    d = ref.dist_phase(U, ref.unitary(spec))
    require(d < TOL, "the exported pytket circuit has another operator", d=d)
    return labels(spec)


PL_NAMES = [g for g in ref.ONEQ] + ["cx", "cy", "cz", "cp", "crx", "swap", "rxx", "rzz", "ccx", "mcx", "ctrl", "xxyy"]


def check_pennylane(spec):
    import pennylane as qml

    qc = ref.build(spec)
    f = qc.to_pennylane()
    U = qml.matrix(f, wire_order=list(range(spec["n"])))(wires=list(range(spec["n"]))) if spec["ops"] else np.eye(2 ** spec["n"])
    d = ref.dist_phase(U, ref.unitary(spec))
    require(d < TOL, "the exported PennyLane function has another operator", d=d)
    return labels(spec)


FACETS = [
    Facet("to_qiskit", ref.circuit(1, 4, 8, nested=2, min_ops=1), check_qiskit, quick=1500),
    Facet("to_qiskit_meas", meas_circuit(4, 10), check_qiskit_meas, quick=1200),
    Facet("symbolic", symbolic_case(), check_symbolic, quick=500),
    Facet("from_qiskit", qk_case(), check_from_qiskit, quick=1200),
    Facet("from_qiskit_meas", qk_meas_case(), check_from_qiskit_meas, quick=700),
    Facet("qasm", qasm_case(), check_qasm, quick=500),
    Facet("to_cirq", ref.circuit(1, 4, 8, nested=2, names=[g for g in ref.ALL if g not in ("barrier", "u3", "unitary", "r")], min_ops=1), check_cirq, quick=900),
    Facet("cirq_meas", cirq_meas_case(), check_cirq_meas, quick=400),
    Facet("from_cirq", cirq_case(), check_from_cirq, quick=1000),
    Facet("pytket", ref.circuit(1, 4, 8, nested=2, names=[g for g in ref.ALL if g != "barrier"], min_ops=1), check_pytket, quick=900),
    Facet("pennylane", ref.circuit(1, 4, 8, nested=1, names=PL_NAMES, min_ops=1), check_pennylane, quick=600),
]
