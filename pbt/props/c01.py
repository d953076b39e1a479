"""C01: simulating a circuit yields the outcome its gates define."""

import numpy as np
from hypothesis import strategies as st

from pbt import ref
from pbt.core import Facet, require

PROPERTY = "C01"
RULE = (
    "Random circuit specs over the public gate set (nested composites, controls, custom unitaries, "
    "measurements, resets, classically conditioned gates; wide sparse circuits) compared with a numpy "
    "simulation of the textbook matrices. Non-trivial: at least 3 gates with at least one entangling or "
    "controlled gate (statevector/unitary), at least one outcome uncertain or one mid-circuit "
    "measurement/reset (run), at least 12 qubits (sparse)."
)
ASSUMPTIONS = ["complex64 simulation: amplitudes compared with absolute tolerance 2e-4, probabilities 1e-3"]
TOL = 2e-4


def interesting(spec):
    labels = []
    ent = [o for o in spec["ops"] if len(o[1]) > 1 and o[0] != "barrier"]
    if len(spec["ops"]) >= 3 and ent:
        labels.append("entangling")
        if any(o[0] == "sub" for o in spec["ops"]):
            labels.append("nested")
        if any(o[0] in ("ctrl", "mcx") for o in spec["ops"]):
            labels.append("controlled")
        if any(o[0] == "unitary" for o in spec["ops"]):
            labels.append("custom unitary")
        if spec["n"] >= 5:
            labels.append(">=5 qubits")
    return labels


def check_statevector(spec):
    qc = ref.build(spec)
    sv = qc.statevector_array()
    d = ref.dist(sv, ref.statevector(spec))
    require(d < TOL, "statevector_array differs from the gate definitions", d=d)
    # simulating must not change the circuit
    d2 = ref.dist(qc.statevector_array(), sv)
    require(d2 < TOL, "second simulation of the same circuit differs", d=d2)
    return interesting(spec)


def check_unitary(spec):
    qc = ref.build(spec)
    U = qc.get_unitary()
    d = ref.dist(U, ref.unitary(spec))
    require(d < TOL, "get_unitary differs from the gate definitions", d=d)
    d = ref.dist(qc.to_gate().get_unitary(), ref.unitary(spec))
    require(d < TOL, "unitary of the wrapped gate differs", d=d)
    return interesting(spec)


# ------------------------------------------------------------- measurements

# op forms: ["meas", q, c], ["reset", q], ["cif", gate op, [clbits], state string], or a gate op


@st.composite
def meas_circuit(draw, nmax=4, max_ops=12):
    n = draw(st.integers(1, nmax))
    nc = draw(st.integers(1, 4))
    names = ref.ONEQ + ["cx", "cz", "cy", "swap", "ccx", "mcx", "ctrl", "cp", "rzz", "rxx", "unitary", "barrier"]
    free = list(range(nc))
    used = []
    ops = []
    for _ in range(draw(st.integers(1, max_ops))):
        kind = draw(st.sampled_from(["gate", "gate", "gate", "meas", "reset", "cif"]))
        if kind == "meas" and used and (not free or draw(st.integers(0, 4)) == 0):
            # overwrite a classical bit that already holds a result
            ops.append(["meas", draw(st.integers(0, n - 1)), draw(st.sampled_from(used))])
            continue
        if kind == "gate":
            ops.append(draw(ref.op(n, names)))
        elif kind == "meas":
            c = free.pop(draw(st.integers(0, len(free) - 1)))
            used.append(c)
            ops.append(["meas", draw(st.integers(0, n - 1)), c])
        elif kind == "reset":
            ops.append(["reset", draw(st.integers(0, n - 1))])
        else:
            # mostly bits that hold a result, sometimes bits that were never written
            pool = used if used and draw(st.integers(0, 3)) else list(range(nc))
            k = draw(st.integers(1, min(2, len(pool))))
            cl = draw(st.permutations(pool))[:k]
            g = draw(ref.op(n, ref.ONEQ + ["cx", "cz", "swap", "cp", "unitary"]))
            ops.append(["cif", g, list(cl), draw(ref.bitstring(k))])
    # measure a random subset at the end (at least one measurement in total)
    rest = list(range(n))
    if not used or draw(st.booleans()):
        perm = draw(st.permutations(rest))
        for q in perm[: draw(st.integers(1, max(1, min(len(free), n)))) if free else 0]:
            if free:
                c = free.pop(0)
                used.append(c)
                ops.append(["meas", q, c])
    return {"n": n, "nc": nc, "ops": ops}


def build_meas(spec):
    from qrisp import QuantumCircuit

    qc = QuantumCircuit(spec["n"], spec["nc"])
    qb, cb = qc.qubits, qc.clbits
    for o in spec["ops"]:
        if o[0] == "meas":
            qc.measure(qb[o[1]], cb[o[2]])
        elif o[0] == "reset":
            qc.reset(qb[o[1]])
        elif o[0] == "cif":
            g = o[1]
            gate = op_object(g)
            qc.append(gate.c_if(len(o[2]), ctrl_state=o[3]), [qb[i] for i in g[1]], [cb[i] for i in o[2]])
        else:
            ref.append(qc, o, [qb[i] for i in o[1]])
    return qc


def op_object(g):
    """Operation object of a spec gate."""
    from qrisp import QuantumCircuit

    if g[0] in ref.GATES:
        return ref.base_gate(g[0], g[2] if len(g) > 2 else [])
    k = len(g[1])
    qc = QuantumCircuit(k)
    ref.append(qc, [g[0], list(range(k))] + g[2:], qc.qubits)
    return qc.data[0].op


def ref_distribution(spec):
    """dict: tuple of measured clbit values (by clbit index) -> probability"""
    n = spec["n"]
    s = np.zeros(2**n, dtype=complex)
    s[0] = 1
    branches = {(): s}  # key: sorted tuple of (clbit, value); list of states
    branches = [({}, s)]
    for o in spec["ops"]:
        new = []
        for cl, v in branches:
            if o[0] in ("meas", "reset"):
                for val in (0, 1):
                    P = np.zeros((2, 2))
                    P[val, val] = 1
                    w = ref.apply(v, P, [o[1]], n)
                    if np.vdot(w, w).real < 1e-14:
                        continue
                    if o[0] == "reset":
                        if val:
                            w = ref.apply(w, ref.X, [o[1]], n)
                        new.append((cl, w))
                    else:
                        new.append(({**cl, o[2]: val}, w))
            elif o[0] == "cif":
                if all(cl.get(c, 0) == int(b) for c, b in zip(o[2], o[3])):
                    v = ref.apply(v, ref.op_matrix(o[1]), o[1][1], n)
                new.append((cl, v))
            elif o[0] == "barrier":
                new.append((cl, v))
            else:
                new.append((cl, ref.apply(v, ref.op_matrix(o), o[1], n)))
        branches = new
    res = {}
    for cl, v in branches:
        key = "".join(str(cl[c]) for c in sorted(cl, reverse=True))
        res[key] = res.get(key, 0) + np.vdot(v, v).real
    return res


def check_run(spec):
    qc = build_meas(spec)
    want = ref_distribution(spec)
    got = dict(qc.run(shots=None))
    for k in set(want) | set(got):
        d = abs(want.get(k, 0) - got.get(k, 0))
        require(d < 1e-3, "outcome probability differs from the Born rule", key=k, want=want.get(k, 0), got=got.get(k, 0))
    shots = 37
    cnt = dict(qc.run(shots=shots))
    require(sum(cnt.values()) == shots, "counts do not add up to the shots", counts=cnt)
    for k in cnt:
        require(want.get(k, 0) > 1e-7, "sampled an outcome of probability zero", key=k, want=want)
    labels = []
    names = [o[0] for o in spec["ops"]]
    if len(want) > 1:
        labels.append("uncertain")
    last = max((i for i, o in enumerate(spec["ops"]) if o[0] not in ("meas", "barrier")), default=-1)
    if any(o[0] == "meas" and i < last for i, o in enumerate(spec["ops"])):
        labels.append("mid-circuit measurement")
    if "reset" in names:
        labels.append("reset")
    if "cif" in names:
        labels.append("classically conditioned")
    return labels


# ------------------------------------------------------------- wide sparse circuits


@st.composite
def wide(draw, nmin=8, nmax=70, max_h=4):
    n = draw(st.one_of(st.integers(nmin, 30), st.integers(nmin, nmax), st.integers(44, nmax)))
    ops = []
    m = draw(st.integers(5, 40))
    hs = 0
    for _ in range(m):
        k = draw(st.sampled_from(["x", "cx", "ccx", "swap", "mcx", "z", "s", "t", "cz", "h", "y", "p", "sx"]))
        if k in ("h", "sx"):
            if hs >= max_h:
                k = "x"
            else:
                hs += 1
        kq = {"cx": 2, "swap": 2, "cz": 2, "ccx": 3}.get(k, 1)
        if k == "mcx":
            kq = draw(st.integers(2, 5))
        # draw distinct qubits without permuting all n
        qs = []
        for i in range(kq):
            q = draw(st.integers(0, n - 1 - i))
            for a in sorted(qs):
                if q >= a:
                    q += 1
            qs.append(q)
        o = [k, qs]
        if k == "mcx":
            o.append([draw(ref.bitstring(kq - 1))])
        if k == "p":
            o.append([draw(ref.angles())])
        ops.append(o)
    k = draw(st.integers(1, min(n, 8)))
    order = []
    for i in range(k):
        q = draw(st.integers(0, n - 1 - i))
        for a in sorted(order):
            if q >= a:
                q += 1
        order.append(q)
    if draw(st.booleans()):
        order = list(range(n))
        if draw(st.booleans()):
            order = order[::-1]
    return {"n": n, "ops": ops, "order": order}


def sparse_state(spec):
    """dict basis tuple-int (qubit i = bit i) -> amplitude"""
    state = {0: 1.0 + 0j}
    for o in spec["ops"]:
        U = ref.op_matrix(o)
        k = len(o[1])
        new = {}
        for b, amp in state.items():
            idx = 0
            for q in o[1]:
                idx = (idx << 1) | ((b >> q) & 1)
            for j in np.nonzero(np.abs(U[:, idx]) > 1e-12)[0]:
                nb = b
                for pos, q in enumerate(o[1]):
                    bit = (int(j) >> (k - 1 - pos)) & 1
                    nb = (nb & ~(1 << q)) | (bit << q)
                new[nb] = new.get(nb, 0) + amp * U[j, idx]
        state = {b: a for b, a in new.items() if abs(a) > 1e-10}
    return state


def check_wide(spec):
    from qrisp import QuantumCircuit

    qc = QuantumCircuit(spec["n"], len(spec["order"]))
    for o in spec["ops"]:
        ref.append(qc, o, [qc.qubits[i] for i in o[1]])
    for c, q in enumerate(spec["order"]):
        qc.measure(qc.qubits[q], qc.clbits[c])
    want = {}
    for b, a in sparse_state(spec).items():
        key = "".join(str((b >> q) & 1) for q in spec["order"])[::-1]
        want[key] = want.get(key, 0) + abs(a) ** 2
    got = dict(qc.run(shots=None))
    for k in set(want) | set(got):
        require(abs(want.get(k, 0) - got.get(k, 0)) < 1e-3, "outcome probability of a wide circuit differs", key=k, want=want.get(k, 0), got=got.get(k, 0))
    labels = []
    if spec["n"] >= 12:
        labels.append(">=12 qubits")
    if spec["n"] > 45:
        labels.append(">45 qubits")
    if len(spec["order"]) >= 63:
        labels.append(">=63 measured")
    if len(want) > 1:
        labels.append("superposition")
    return labels


FACETS = [
    Facet("statevector", ref.circuit(1, 7, 25, nested=2), check_statevector, quick=2000),
    Facet("unitary", ref.circuit(1, 5, 16, nested=2), check_unitary, quick=1500),
    Facet("run", meas_circuit(), check_run, quick=3500),
    Facet("wide", wide(), check_wide, quick=900),
]
