"""Independent reference: textbook gate matrices, a numpy simulator over *specs*, and
Hypothesis strategies for circuit specs.

A circuit spec is ``{"n": qubits, "ops": [op, ...]}``; an op is ``[name, [qubits], [params]]``.
Qubit 0 is the most significant bit of a basis index (the ordering Qrisp documents for
``get_unitary`` and ``statevector_array``).
"""

import cmath
import math

import numpy as np
from hypothesis import strategies as st

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)


def _exp(P, phi):
    """exp(-i phi/2 P) for an involution P"""
    return math.cos(phi / 2) * np.eye(len(P)) - 1j * math.sin(phi / 2) * P


def rx(t):
    return _exp(X, t)


def ry(t):
    return _exp(Y, t)


def rz(t):
    return _exp(Z, t)


def p(t):
    return np.diag([1, cmath.exp(1j * t)])


def u3(t, f, l):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c, -cmath.exp(1j * l) * s], [cmath.exp(1j * f) * s, cmath.exp(1j * (f + l)) * c]])


def ctrl(U, k=1, state=None):
    """Controls come first (more significant). state: list of 0/1 for the controls."""
    d = len(U)
    idx = 2**k - 1 if state is None else int("".join(map(str, state)), 2)
    M = np.eye(d * 2**k, dtype=complex)
    M[idx * d : (idx + 1) * d, idx * d : (idx + 1) * d] = U
    return M


SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)


def rxx(t):
    return _exp(np.kron(X, X), t)


def rzz(t):
    return _exp(np.kron(Z, Z), t)


# name -> (qubits, params, matrix function)
GATES = {
    "x": (1, 0, lambda: X),
    "y": (1, 0, lambda: Y),
    "z": (1, 0, lambda: Z),
    "h": (1, 0, lambda: H),
    "s": (1, 0, lambda: np.diag([1, 1j])),
    "t": (1, 0, lambda: p(math.pi / 4)),
    "s_dg": (1, 0, lambda: np.diag([1, -1j])),
    "t_dg": (1, 0, lambda: p(-math.pi / 4)),
    "sx": (1, 0, lambda: rx(math.pi / 2)),
    "sx_dg": (1, 0, lambda: rx(-math.pi / 2)),
    "id": (1, 0, lambda: I2),
    "rx": (1, 1, rx),
    "ry": (1, 1, ry),
    "rz": (1, 1, rz),
    "p": (1, 1, p),
    "gphase": (1, 1, lambda t: cmath.exp(1j * t) * I2),
    "u3": (1, 3, u3),
    # the matrix given in the documentation of QuantumCircuit.r
    "r": (1, 2, lambda t, f: np.array([[math.cos(t / 2), cmath.exp(-1j * f) * math.sin(t / 2)], [-cmath.exp(1j * f) * math.sin(t / 2), math.cos(t / 2)]])),
    "cx": (2, 0, lambda: ctrl(X)),
    "cy": (2, 0, lambda: ctrl(Y)),
    "cz": (2, 0, lambda: ctrl(Z)),
    "cp": (2, 1, lambda t: ctrl(p(t))),
    "crx": (2, 1, lambda t: ctrl(rx(t))),
    "swap": (2, 0, lambda: SWAP),
    "rxx": (2, 1, rxx),
    "rzz": (2, 1, rzz),
    "ccx": (3, 0, lambda: ctrl(X, 2)),
}


def matrix(name, params):
    return np.asarray(GATES[name][2](*params), dtype=complex)


def apply(state, U, qubits, n):
    """state: array (2**n, ...) -> U applied on the given qubits (first qubit most significant)."""
    k = len(qubits)
    rest = state.shape[1:]
    t = state.reshape((2,) * n + rest)
    Ut = np.asarray(U, dtype=complex).reshape((2,) * (2 * k))
    t = np.tensordot(Ut, t, axes=(list(range(k, 2 * k)), list(qubits)))
    t = np.moveaxis(t, list(range(k)), list(qubits))
    return t.reshape((2**n,) + rest)


def embed(U, qubits, n):
    return apply(np.eye(2**n, dtype=complex), U, qubits, n)


def op_matrix(op):
    """Matrix of a spec op on its own qubits (in the order listed)."""
    name, qubits = op[0], op[1]
    params = op[2] if len(op) > 2 else []
    if name in GATES:
        return matrix(name, params)
    if name == "xxyy":
        return xxyy(*params)
    if name == "mcx":  # params: ctrl_state string
        return ctrl(X, len(qubits) - 1, [int(c) for c in params[0]])
    if name == "ctrl":  # params: base gate name, base params, ctrl_state string, (method ignored)
        base = matrix(params[0], params[1])
        return ctrl(base, len(params[2]), [int(c) for c in params[2]])
    if name == "unitary":
        return random_unitary(len(qubits), params[0])
    if name == "sub":  # nested circuit: params: spec, transform list
        return sub_matrix(params[0], params[1])
    raise KeyError(name)


def sub_matrix(spec, transforms):
    U = unitary(spec)
    for t in transforms:
        if t == "inv":
            U = U.conj().T
        else:  # control state string
            U = ctrl(U, len(t), [int(c) for c in t])
    return U


def unitary(spec, state=None):
    n = spec["n"]
    M = np.eye(2**n, dtype=complex) if state is None else state
    for op in spec["ops"]:
        if op[0] == "barrier":
            continue
        M = apply(M, op_matrix(op), op[1], n)
    return M


def statevector(spec):
    s = np.zeros(2 ** spec["n"], dtype=complex)
    s[0] = 1
    return unitary(spec, s)


def random_unitary(k, seed):
    rng = np.random.default_rng(seed)
    A = rng.normal(size=(2**k, 2**k)) + 1j * rng.normal(size=(2**k, 2**k))
    Q, R = np.linalg.qr(A)
    return Q * (np.diag(R) / abs(np.diag(R)))


def xxyy(phi, beta):
    """Convention documented for the Qiskit gate of the same name (little endian there)."""
    c, s = math.cos(phi / 2), math.sin(phi / 2)
    return np.array(
        [
            [1, 0, 0, 0],
            [0, c, -1j * s * cmath.exp(1j * beta), 0],
            [0, -1j * s * cmath.exp(-1j * beta), c, 0],
            [0, 0, 0, 1],
        ]
    )


# ----------------------------------------------------------------- comparing


def dist(A, B):
    A, B = np.asarray(A), np.asarray(B)
    if A.shape != B.shape:
        return float("inf")
    if A.size == 0:
        return 0.0
    d = np.abs(A - B).max()
    return float("inf") if np.isnan(d) else float(d)


def dist_phase(A, B):
    """Distance up to a global phase."""
    A, B = np.asarray(A, dtype=complex), np.asarray(B, dtype=complex)
    if A.shape != B.shape:
        return float("inf")
    ov = np.vdot(A.ravel(), B.ravel())
    if abs(ov) < 1e-12:
        return dist(A, B)
    return dist(A * (ov / abs(ov)), B)


# ----------------------------------------------------------------- building with the public API


def build(spec, qc=None, qubits=None):
    from qrisp import QuantumCircuit

    if qc is None:
        qc = QuantumCircuit(spec["n"])
    if qubits is None:
        qubits = qc.qubits
    for op in spec["ops"]:
        append(qc, op, [qubits[i] for i in op[1]])
    return qc


def append(qc, op, qb):
    import qrisp

    name = op[0]
    params = op[2] if len(op) > 2 else []
    if name == "barrier":
        qc.barrier(qb)
    elif name == "mcx":
        qc.append(qrisp.MCXGate(len(qb) - 1, ctrl_state=params[0]), qb)
    elif name == "ctrl":
        qc.append(base_gate(params[0], params[1]).control(len(params[2]), ctrl_state=params[2]), qb)
    elif name == "unitary":
        qc.unitary(random_unitary(len(qb), params[0]), qb)
    elif name == "sub":
        qc.append(sub_gate(params[0], params[1]), qb)
    elif name == "xxyy":
        qc.xxyy(params[0], params[1], *qb)
    elif name == "ccx":
        qc.ccx(*qb)
    else:
        getattr(qc, name)(*params, *qb)


def base_gate(name, params):
    """The gate as an Operation object."""
    import qrisp
    from qrisp.circuit import standard_operations as so

    table = {
        "x": so.XGate, "y": so.YGate, "z": so.ZGate, "h": so.HGate, "s": so.SGate, "t": so.TGate,
        "sx": so.SXGate, "sx_dg": so.SXDGGate, "id": so.IDGate, "rx": so.RXGate, "ry": so.RYGate,
        "rz": so.RZGate, "p": so.PGate, "gphase": so.GPhaseGate, "u3": so.u3Gate, "r": so.RGate,
        "cx": so.CXGate, "cy": so.CYGate, "cz": so.CZGate, "cp": so.CPGate, "swap": so.SwapGate,
        "rxx": so.RXXGate, "rzz": so.RZZGate, "xxyy": so.XXYYGate,
    }
    if name == "s_dg":
        return so.SGate().inverse()
    if name == "t_dg":
        return so.TGate().inverse()
    if name == "crx":
        return so.RXGate(*params).control()
    if name == "ccx":
        return so.XGate().control(2)
    return table[name](*params)


def sub_gate(spec, transforms):
    g = build(spec).to_gate()
    for t in transforms:
        g = g.inverse() if t == "inv" else g.control(len(t), ctrl_state=t)
    return g


# ----------------------------------------------------------------- strategies

SPECIAL = [math.pi * k / 8 for k in range(-16, 17)]


def angles():
    return st.one_of(
        st.sampled_from(SPECIAL),
        st.integers(-7000, 7000).map(lambda k: k / 1000),
    )


ONEQ = ["x", "y", "z", "h", "s", "t", "s_dg", "t_dg", "sx", "sx_dg", "id", "rx", "ry", "rz", "p", "gphase", "u3", "r"]
CLASSICAL = ["x", "cx", "swap", "ccx", "mcx"]
CLIFFORD = ["x", "y", "z", "h", "s", "s_dg", "sx", "sx_dg", "cx", "cy", "cz", "swap"]


@st.composite
def op(draw, n, names, methods=False):
    names = [g for g in names if arity(g) <= n]
    name = draw(st.sampled_from(names))
    if name in GATES or name == "xxyy":
        k, np_ = (GATES[name][0], GATES[name][1]) if name in GATES else (2, 2)
        qs = draw(qubit_choice(n, k))
        return [name, qs, [draw(angles()) for _ in range(np_)]] if np_ else [name, qs]
    if name == "mcx":
        k = draw(st.integers(2, min(n, 5)))
        qs = draw(qubit_choice(n, k))
        return [name, qs, [draw(bitstring(k - 1))]]
    if name == "ctrl":
        base = draw(st.sampled_from([g for g in GATES if GATES[g][0] < n]))
        bk, bp = GATES[base][0], GATES[base][1]
        k = draw(st.integers(1, min(n - bk, 3)))
        qs = draw(qubit_choice(n, bk + k))
        return [name, qs, [base, [draw(angles()) for _ in range(bp)], draw(bitstring(k))]]
    if name == "unitary":
        return [name, draw(qubit_choice(n, 1)), [draw(st.integers(0, 10**6))]]
    if name == "barrier":
        k = draw(st.integers(1, n))
        return [name, draw(qubit_choice(n, k))]
    raise KeyError(name)


def arity(g):
    if g in GATES:
        return GATES[g][0]
    return {"mcx": 2, "ctrl": 2, "unitary": 1, "barrier": 1, "xxyy": 2, "sub": 1}[g]


def bitstring(k):
    return st.lists(st.sampled_from("10"), min_size=k, max_size=k).map("".join)


def qubit_choice(n, k):
    return st.permutations(list(range(n))).map(lambda l: list(l[:k]))


ALL = list(GATES) + ["xxyy", "mcx", "ctrl", "unitary", "barrier"]


@st.composite
def circuit(draw, nmin=1, nmax=5, max_ops=12, names=None, nested=0, min_ops=0):
    n = draw(st.integers(nmin, nmax))
    names = list(names or ALL)
    ops = []
    m = draw(st.integers(min_ops, max_ops))
    for _ in range(m):
        if nested and draw(st.integers(0, 4)) == 0:
            ops.append(draw(sub_op(n, names, nested - 1)))
        else:
            ops.append(draw(op(n, names)))
    return {"n": n, "ops": ops}


@st.composite
def sub_op(draw, n, names, depth=0):
    k = draw(st.integers(1, n))
    trs = []
    width = k
    # choose transforms fitting into n qubits
    for _ in range(draw(st.integers(0, 2))):
        if n - width >= 1 and draw(st.booleans()):
            c = draw(st.integers(1, min(2, n - width)))
            trs.append(draw(bitstring(c)))
            width += c
        else:
            trs.append("inv")
    inner = draw(circuit(k, k, 5, [g for g in names if g != "barrier"], depth))
    return ["sub", draw(qubit_choice(n, width)), [inner, trs]]


def gate_names(spec):
    out = set()
    for o in spec["ops"]:
        out.add(o[0])
        if o[0] == "sub":
            out |= gate_names(o[2][0])
        if o[0] == "ctrl":
            out.add("c:" + o[2][0])
    return out


def bits_of(i, n):
    return [(i >> (n - 1 - k)) & 1 for k in range(n)]
