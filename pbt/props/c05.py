"""C05: quantum environments act as their quantum control-flow meaning."""

import numpy as np
from hypothesis import strategies as st

from pbt import ref
from pbt.core import Facet, Reject, require
from pbt.props.c01 import op_object

ID = "C05"
TECHNIQUE = "property-based testing of random nestings of environments against an operator-level reference"
RULE = (
    "Program trees over five data qubits (a two-qubit variable, a two-bit number, a boolean) built from gates and control, "
    "inversion, conjugation, comparison, gate-wrap, iteration and custom-control blocks with temporaries are executed from "
    "a random product state; the compiled session's state must equal the state given by the operator the tree denotes and "
    "every other qubit must be back in |0>. Non-trivial: at least one environment with a non-empty body."
)
ASSUMPTIONS = ["blocks do not modify the qubits they are conditioned on (documented requirement)"]
N = 5
TOL = 1e-3
GN = ["x", "y", "z", "h", "s", "t", "sx", "rx", "ry", "rz", "p", "gphase", "cx", "cz", "cp", "swap", "rzz", "ccx", "mcx", "ctrl", "unitary"]
CMP = ["eq", "ne", "lt", "le", "gt", "ge"]


@st.composite
def gate(draw, free):
    names = [g for g in GN if ref.arity(g) <= len(free)]
    o = draw(ref.op(len(free), names))
    return ["g", [o[0], [free[i] for i in o[1]]] + o[2:]]


@st.composite
def body(draw, free, depth, kinds):
    out = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3] if depth < 2 else [1, 1, 1, 2]))):
        out.append(draw(node(free, depth, kinds)))
    return out


@st.composite
def basis_change(draw, free, nested):
    """a conjugator: gates, some of them inside an environment of their own"""
    out = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        out.append(draw(node(free, 1, ["ctrl", "ctrl", "inv", "wrap"])) if nested and draw(st.booleans()) else draw(gate(free)))
    return out


@st.composite
def node(draw, free, depth, kinds):
    if depth == 0 or not free or draw(st.integers(0, 4)) == 0:
        return draw(gate(free)) if free else ["inv", []]
    kind = draw(st.sampled_from(kinds))
    if kind in ("ctrl", "tmp") and len(free) < 2:
        kind = "inv"
    if kind == "cond" and not (2 in free and 3 in free and len(free) > 2):
        kind = "ctrl" if len(free) > 1 else "inv"
    if kind == "ctrl":
        # mostly keep the bits of the number free for a comparison inside
        pool = [q for q in free if q not in (2, 3)] if draw(st.integers(0, 2)) else free
        pool = pool or free
        k = draw(st.integers(1, min(3, len(free) - 1, len(pool))))
        qs = draw(st.permutations(pool))[:k]
        rest = [q for q in free if q not in qs]
        state = draw(ref.bitstring(k))
        return ["ctrl", list(qs), state, draw(st.sampled_from(["str", "int"])), draw(st.sampled_from([None, None, None, 0.7])), draw(body(rest, depth - 1, kinds))]
    if kind == "inv":
        return ["inv", draw(body(free, depth - 1, kinds))]
    if kind == "conj":
        return ["conj", draw(basis_change(free, "ctrl" in kinds)), draw(body(free, depth - 1, kinds))]
    if kind == "wrap":
        return ["wrap", draw(body(free, depth - 1, kinds))]
    if kind == "cond":
        rest = [q for q in free if q not in (2, 3)]
        return ["cond", draw(st.sampled_from(CMP)), draw(st.integers(0, 3)), draw(body(rest, depth - 1, kinds))]
    if kind == "tmp":
        k = draw(st.integers(1, min(2, len(free) - 1)))
        qs = draw(st.permutations(free))[:k]
        rest = [q for q in free if q not in qs]
        return ["tmp", list(qs), draw(ref.bitstring(k)), draw(st.sampled_from(["explicit", "invert"])), draw(body(rest, depth - 1, kinds))]
    if kind == "iter":
        return ["iter", draw(st.integers(1, 3)), draw(st.booleans()), draw(body(free, depth - 1, [k for k in kinds if k in ("inv", "conj", "wrap", "ctrl1", "custom")] + ["inv"]))]
    if kind == "custom":
        return ["custom", [draw(gate(free))[1] for _ in range(draw(st.integers(1, 2)))]]
    raise KeyError(kind)


def case(kinds, depth=3):
    @st.composite
    def f(draw):
        d = draw(st.integers(1, depth))
        return {"prep": draw(st.integers(0, 10**6)), "body": draw(body(list(range(N)), d, kinds))}

    return f()


@st.composite
def conj_case(draw):
    """a conjugation below one to three controls, its conjugator with environments of its own"""
    free = list(draw(st.permutations(range(N))))
    layers = draw(st.integers(1, min(3, N - 2)))
    outer = free[:layers]
    rest = sorted(free[layers:])
    inner = [["conj", draw(basis_change(rest, True)), draw(body(rest, 1, ["ctrl", "inv", "conj"]))]]
    for q in outer:
        inner = [["ctrl", [q], draw(ref.bitstring(1)), draw(st.sampled_from(["str", "int"])), None, inner]]
        if draw(st.integers(0, 4)) == 0:
            inner = [["inv", inner]]
    return {"prep": draw(st.integers(0, 10**6)), "body": inner}


# ------------------------------------------------------------- reference


def op_of(nodes):
    U = np.eye(2**N, dtype=complex)
    for nd in nodes:
        U = node_op(nd) @ U
    return U


def on_condition(f, U, phase=None):
    """apply U where f(basis index bits) holds"""
    M = np.eye(2**N, dtype=complex)
    hold = np.array([bool(f(ref.bits_of(i, N))) for i in range(2**N)])
    M[:, hold] = U[:, hold]
    if phase is not None:
        M = M @ np.diag(np.where(hold, np.exp(1j * phase), 1))
    return M


def node_op(nd):
    k = nd[0]
    if k == "g":
        return ref.unitary({"n": N, "ops": [nd[1]]})
    if k == "ctrl":
        _, qs, state, _, ph, b = nd
        return on_condition(lambda bits: all(str(bits[q]) == s for q, s in zip(qs, state)), op_of(b), ph if "0" not in state else None)
    if k == "inv":
        return op_of(nd[1]).conj().T
    if k == "conj":
        V = op_of(nd[1])
        return V.conj().T @ op_of(nd[2]) @ V
    if k == "wrap":
        return op_of(nd[1])
    if k == "cond":
        c = nd[2]
        rel = {"eq": lambda v: v == c, "ne": lambda v: v != c, "lt": lambda v: v < c, "le": lambda v: v <= c, "gt": lambda v: v > c, "ge": lambda v: v >= c}[nd[1]]
        return on_condition(lambda bits: rel(bits[2] + 2 * bits[3]), op_of(nd[3]))
    if k == "tmp":
        return on_condition(lambda bits: all(str(bits[q]) == s for q, s in zip(nd[1], nd[2])), op_of(nd[4]))
    if k == "iter":
        return np.linalg.matrix_power(op_of(nd[3]), nd[1])
    if k == "custom":
        return ref.unitary({"n": N, "ops": nd[1]})
    raise KeyError(k)


# ------------------------------------------------------------- execution


def apply_gate(qs, o, qb):
    qs.append(op_object(o), [qb[i] for i in o[1]])


def custom(ops):
    from qrisp import custom_control

    @custom_control
    def f(qv, qb, ctrl=None):
        for o in ops:
            op = op_object(o)
            if ctrl is None:
                qv.qs.append(op, [qb[i] for i in o[1]])
            else:
                qv.qs.append(op.control(1), [ctrl] + [qb[i] for i in o[1]])

    return f


def execute(nodes, V):
    import qrisp
    from qrisp import QuantumBool, conjugate, control, cx, invert, mcx

    a, f, b, qb = V
    for nd in nodes:
        k = nd[0]
        if k == "g":
            apply_gate(a.qs, nd[1], qb)
        elif k == "ctrl":
            _, qs, state, form, ph, bd = nd
            st_ = state if form == "str" else sum(int(c) << i for i, c in enumerate(state))
            with control([qb[q] for q in qs], ctrl_state=st_) as c:
                if ph is not None and "0" not in state:
                    qrisp.p(ph, c)
                execute(bd, V)
        elif k == "inv":
            with invert():
                execute(nd[1], V)
        elif k == "conj":

            def conjugator(*args):
                execute(nd[1], V)

            with conjugate(conjugator)(a, f, b):
                execute(nd[2], V)
        elif k == "wrap":
            from qrisp import GateWrapEnvironment

            with GateWrapEnvironment("wrapped"):
                execute(nd[1], V)
        elif k == "cond":
            c = nd[2]
            # the comparison only acts as an environment if it is written in the with statement
            if nd[1] == "eq":
                with f == c:
                    execute(nd[3], V)
            elif nd[1] == "ne":
                with f != c:
                    execute(nd[3], V)
            elif nd[1] == "lt":
                with f < c:
                    execute(nd[3], V)
            elif nd[1] == "le":
                with f <= c:
                    execute(nd[3], V)
            elif nd[1] == "gt":
                with f > c:
                    execute(nd[3], V)
            else:
                with f >= c:
                    execute(nd[3], V)
        elif k == "tmp":
            t = QuantumBool()

            def compute():
                mcx([qb[q] for q in nd[1]], t[0], ctrl_state=nd[2])

            compute()
            with control(t):
                execute(nd[4], V)
            if nd[3] == "explicit":
                compute()
                t.delete()
            elif nd[3] == "invert":
                with invert():
                    compute()
                t.delete()
            else:
                t.uncompute()
        elif k == "iter":
            from qrisp import IterationEnvironment

            with IterationEnvironment(a.qs, nd[1], precompile=nd[2]):
                execute(nd[3], V)
        elif k == "custom":
            custom(nd[1])(a, qb)
        else:
            raise KeyError(k)


def prep_ops(seed):
    r = np.random.default_rng(seed)
    return [["u3", [q], [float(x) for x in r.uniform(0.4, 2.6, 3)]] for q in range(N)]


def data_state(qc, qubits, what):
    """state of the given qubits of a circuit whose other qubits must be in |0>"""
    if len(qc.qubits) > 22:
        raise Reject()
    pos = [qc.qubits.index(q) for q in qubits]
    sv = np.asarray(qc.statevector_array()).reshape([2] * len(qc.qubits))
    rest = [i for i in range(len(qc.qubits)) if i not in pos]
    sv = np.transpose(sv, pos + rest).reshape(2 ** len(pos), -1)
    w = np.linalg.norm(sv[:, 0])
    require(w > 1 - 1e-3, what + ": auxiliary qubits are not returned to |0>", weight=float(w))
    return sv[:, 0]


def tree_labels(nodes):
    out = set()
    for nd in nodes:
        if nd[0] == "g":
            continue
        inner = nd[-1]
        if inner:
            out.add(nd[0])
            if nd[0] != "custom":
                deeper = tree_labels(inner)
                if deeper:
                    out.add("nested")
                out |= deeper
    return out


def setup_vars(spec):
    from qrisp import QuantumBool, QuantumFloat, QuantumVariable
    from qrisp.core import merge

    a, f, b = QuantumVariable(2), QuantumFloat(2), QuantumBool()
    merge(a, f, b)
    qb = list(a) + list(f) + list(b)
    for o in prep_ops(spec["prep"]):
        apply_gate(a.qs, o, qb)
    return a, f, b, qb


def check(spec):
    V = setup_vars(spec)
    execute(spec["body"], V)
    qc = V[0].qs.compile()
    got = data_state(qc, V[3], "after the program")
    want = op_of(spec["body"]) @ ref.statevector({"n": N, "ops": prep_ops(spec["prep"])})
    d = ref.dist_phase(got, want)
    require(d < TOL, "the compiled program prepares another state than its environments denote", d=float(d))
    return sorted(tree_labels(spec["body"]))


# ------------------------------------------------- classical conditions


@st.composite
def classical_case(draw):
    k = draw(st.integers(1, 3))
    return {
        "prep": draw(st.integers(0, 10**6)),
        "bits": [draw(st.booleans()) for _ in range(k)],
        "state": draw(st.one_of(st.none(), ref.bitstring(k))),
        "form": draw(st.sampled_from(["str", "int", "neg"])),
        "invert": draw(st.sampled_from([False, False, True])),
        "gates": [draw(gate(list(range(N))))[1] for _ in range(draw(st.integers(1, 3)))],
    }


def check_classical(spec):
    """control() with classical truth values: the block runs exactly if the condition holds"""
    from qrisp import control

    V = setup_vars(spec)
    bits, state = spec["bits"], spec["state"]
    kw = {}
    if state is not None:
        v = sum(int(c) << i for i, c in enumerate(state))
        kw["ctrl_state"] = {"str": state, "int": v, "neg": v - 2 ** len(state)}[spec["form"]]
    if spec["invert"]:
        kw["invert"] = True
    with control(bits if len(bits) > 1 else bits[0], **kw):
        for o in spec["gates"]:
            apply_gate(V[0].qs, o, V[3])
    hold = bits == [c == "1" for c in (state or "1" * len(bits))]
    run = hold != spec["invert"]
    got = data_state(V[0].qs.compile(), V[3], "after the program")
    want = ref.statevector({"n": N, "ops": prep_ops(spec["prep"]) + (spec["gates"] if run else [])})
    d = ref.dist_phase(got, want)
    require(d < TOL, "block under a classical condition did not run exactly when the condition holds", d=float(d), run=run)
    return ["classical", "run" if run else "skipped"]


# -------------------------------------- variables that stay on their own

# Known defect (see known_findings.txt): environments only see sessions that existed when they were
# entered or that were merged into one of those.  The generator only touches inner variables which
# meet the data, the isolated ones are covered by this case alone.


def check_fresh(spec):
    from qrisp import QuantumVariable, control, invert
    from qrisp.core import merge

    V = setup_vars({"prep": 1})
    with control(V[3][0]) if spec["env"] == "ctrl" else invert():
        s = QuantumVariable(1)
        apply_gate(s.qs, spec["gate"], list(s))
    merge(V[0], s)
    got = data_state(V[0].qs.compile(), V[3] + [s[0]], "after the program")
    op = [spec["gate"][0], [N]] + spec["gate"][2:]
    U = ref.unitary({"n": N + 1, "ops": [op]})
    hold = np.arange(2 ** (N + 1)) >> N == 1
    M = np.where(hold[:, None], U, np.eye(2 ** (N + 1))) if spec["env"] == "ctrl" else U.conj().T
    want = M @ ref.statevector({"n": N + 1, "ops": prep_ops(1)})
    d = ref.dist_phase(got, want)
    require(d < TOL, "gates on a variable created in the environment ignore the environment", d=float(d))
    return ["fresh"]


FACETS = [
    Facet("fresh_variable", st.nothing(), check_fresh, quick=0),
    Facet("classical", classical_case(), check_classical, quick=500),
    Facet("core", case(["ctrl", "ctrl", "inv", "conj"]), check, quick=1500),
    Facet("conj", conj_case(), check, quick=500),
    Facet("all", case(["ctrl", "inv", "conj", "wrap", "cond", "tmp", "iter", "custom"]), check, quick=1300),
    Facet("cond", case(["ctrl", "cond", "cond", "tmp", "inv", "custom"]), check, quick=1500),
]
