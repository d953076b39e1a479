"""C19: resource estimates equal the resources of the executed circuit."""

import math

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Reject, require
from .c18 import Exec, program, tops

PROPERTY = "C19"
RULE = (
    "(profile) the random hybrid programs of C18 (loops, conditionals, measurements feeding control flow, environments, cached subroutines, temporaries): gate counts and depth "
    "reported for measurements that always return 0 or 1 against the circuit extracted from the same program with these outcomes inserted. (alloc) random programs of allocations, deletions, "
    "slices and fusions inside loops and conditionals: the four numbers of the qubit profiler against a replay of the events. (circuit) random circuits with nested composites, measurements, "
    "conditionals: every circuit-level metric against its definition on the flattened gate list. Non-trivial: control flow, composites or more than one allocation event."
)


# ------------------------------------------------------------------ traced programs


class Fixed:
    """the qrisp namespace with measurement replaced by a given value"""

    def __init__(self, mod, value):
        self._mod, self._value, self.count = mod, value, 0

    def __getattr__(self, name):
        return getattr(self._mod, name)

    def measure(self, q):
        self.count += 1
        return self._value


@st.composite
def profile_case(draw):
    spec = draw(program())
    spec["final"] = draw(st.booleans())
    spec["threshold"] = draw(st.sampled_from([None, None, None, 0]))
    return spec


def flatten(qc):
    """elementary instructions (name, qubits, clbits) of a circuit"""
    qc = qc.transpile()
    return [(i.op, list(i.qubits), list(i.clbits)) for i in qc.data if i.op.name not in ("qb_alloc", "qb_dealloc", "barrier")]


def counts(flat):
    out = {}
    for op, _, _ in flat:
        out[op.name] = out.get(op.name, 0) + 1
    return out


def longest(flat, weight=lambda op: 1, skip=("gphase",)):
    level = {}
    top = 0
    for op, qs, cs in flat:
        if op.name in skip:
            continue
        e = max([level.get(b, 0) for b in qs + cs], default=0) + weight(op)
        for b in qs + cs:
            level[b] = e
        top = max(top, e)
    return top


def check_profile(spec):
    import jax.numpy as jnp
    import qrisp
    from qrisp import QuantumFloat, count_ops, depth, measure
    from qrisp.jasp import make_jaspr

    n = spec["n"]

    def main(k, th):
        q = QuantumFloat(n)
        Exec(spec, k, th).run(spec["body"], q, [], k, th, {})
        if spec["final"]:
            return measure(q)

    number = sum(s[0] == "meas" for s in spec["body"])

    def fixed(k, th, m):
        q = QuantumFloat(n)
        ex = Exec(spec, k, th)
        ex.q_ = Fixed(qrisp, m)
        ex.run(spec["body"], q, [], k, th, {})
        return q

    jaspr = make_jaspr(fixed)(*spec["args"][0], jnp.bool_(False))
    for k, th in spec["args"]:
        for m in (0, 1) if number else (0,):
            qc = jaspr.to_qc(k, th, bool(m))[-1]
            if len(qc.data) > 3000:
                raise Reject()
            flat = flatten(qc)
            want = counts(flat)
            meas = number + (n if spec["final"] else 0)
            if meas:
                want["measure"] = meas
            got = dict(count_ops(meas_behavior=str(m), callback_threshold=spec["threshold"])(main)(k, th))
            require(clean(got) == clean(want), "gate counts", got=got, want=want, k=k, th=th, outcome=m)
            got = depth(meas_behavior=str(m), max_qubits=64, callback_threshold=spec["threshold"])(main)(k, th)
            want = longest(flat)
            require(got == want, "depth", got=got, want=want, k=k, th=th, outcome=m)
    return sorted(tops(spec) - {"g", "sl"})


def clean(d):
    return {k: int(v) for k, v in d.items() if k not in ("gphase", "reset") and v}


# ------------------------------------------------------------------ library functions


LIB = ["qft", "fourier", "cuccaro", "const", "mcx", "mcp", "gray", "cswap", "mul", "iqft", "h", "phases", "swap", "reset", "array"]


@st.composite
def library_case(draw):
    return {
        "f": [draw(st.sampled_from(LIB)), draw(st.sampled_from(LIB[::-1]))],
        "n": draw(st.lists(st.integers(1, 4), min_size=2, max_size=2)),
        "c": draw(st.integers(0, 7)),
        "outcome": draw(st.integers(0, 1)),
        "ctl": draw(st.booleans()),
        "inv": draw(st.booleans()),
        "rep": draw(st.integers(0, 2)),
    }


def library(name, a, b, c):
    import qrisp as q
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_fourier_adder

    if name == "qft":
        q.QFT(a)
    elif name == "iqft":
        q.QFT(b, inv=True)
    elif name == "fourier":
        jasp_fourier_adder(a, b)
    elif name == "cuccaro":
        q.cuccaro_adder(a, b)
    elif name == "const":
        jasp_fourier_adder(c, a)
    elif name == "mcx":
        q.mcx(a, b[0], method="balauca")
    elif name == "mcp":
        q.mcp(0.3, [a[0], b[0]])
    elif name == "gray":
        q.cp(0.7, a[0], b[0])
        q.rzz(0.3, a[0], b[0])
    elif name == "cswap":
        t = q.QuantumBool()
        q.h(t)
        with q.control(t[0]):
            q.swap(a[0], b[0])
    elif name == "mul":
        with q.control(a[0]):
            jasp_fourier_adder(c, b)
    elif name == "h":
        q.h(a)
        q.h(b)
    elif name == "phases":
        for i in q.jrange(a.size):
            q.p(np.pi / 2, a[i])
            q.sx(a[i])
    elif name == "swap":
        q.swap(a[0], b[0])
        q.cy(a[0], b[0])
    elif name == "reset":
        q.reset(a)
    elif name == "array":
        arr = q.QuantumArray(q.QuantumFloat(2), shape=(2,))
        q.x(arr[0])
        q.cx(arr[0], arr[1])


def check_library(spec):
    import qrisp as q
    from qrisp import QuantumFloat, count_ops, depth, num_qubits
    from qrisp.jasp import jrange, make_jaspr

    names = [f for f in spec["f"]]

    def main(n, m, rep):
        a, b = QuantumFloat(n), QuantumFloat(m)
        c = q.QuantumBool()
        for f in names:
            if f in ("reset", "cswap", "array") or not (spec["inv"] or spec["ctl"]):
                for _ in jrange(rep):
                    library(f, a, b, spec["c"])
            elif spec["inv"]:
                with q.invert():
                    library(f, a, b, spec["c"])
            else:
                with q.control(c[0]):
                    library(f, a, b, spec["c"])
        q.x(c)
        return a, b

    n, m = spec["n"]
    if "cuccaro" in names:
        m = n
    out = make_jaspr(main)(n, m, spec["rep"]).to_qc(n, m, spec["rep"])
    flat = []
    bit = str(spec["outcome"])
    for op, qs, cs in flatten(out[-1]):
        if isinstance(op, q.ClControlledOperation):
            if set(op.ctrl_state) != {bit}:
                continue
            op, cs = op.base_op, []
        flat.append((op, qs, cs))
    want = counts(flat)
    got = dict(count_ops(meas_behavior=bit)(main)(n, m, spec["rep"]))
    require(clean(got) == clean(want), "gate counts", got=got, want=want)
    got = depth(meas_behavior=bit, max_qubits=64)(main)(n, m, spec["rep"])
    want = longest(flat, skip=("gphase", "reset", "measure"))
    require(got == want, "depth", got=got, want=want)
    level = peak = total = 0
    for i in out[-1].data:
        d = {"qb_alloc": 1, "qb_dealloc": -1}.get(i.op.name, 0)
        level += d
        total += d == 1
        peak = max(peak, level)
    got = {a: int(b) for a, b in num_qubits(meas_behavior=bit)(main)(n, m, spec["rep"]).items()}
    require((got["peak_allocations"], got["finally_allocated"], got["total_allocated"]) == (peak, level, total), "qubits", got=got, want=(peak, level, total))
    return sorted(set(names))


# ------------------------------------------------------------------ allocations


def gen_alloc(draw, depth_, live, loop, nid):
    out = []
    if not loop:
        for _ in range(2):
            nid[0] += 1
            out.append(["new", nid[0], draw(st.sampled_from([["c", 1], ["c", 3], ["k", 1], ["k", 0]]))])
            live.append(nid[0])
    for _ in range(draw(st.sampled_from([2, 3, 4]) if not loop else st.sampled_from([1, 2]))):
        kinds = ["new", "temp"]
        if live:
            kinds += ["del", "del", "dup", "slice"] if not loop else ["slice", "slice"]
            kinds += ["fuse", "fuse"] * (len(live) > 1)
        if depth_:
            kinds += ["for", "cond", "bit", "while"]
        k = draw(st.sampled_from(kinds))
        if k == "new" and not loop:
            nid[0] += 1
            out.append(["new", nid[0], draw(st.sampled_from([["c", 1], ["c", 3], ["k", 1], ["k", 0]]))])
            live.append(nid[0])
        elif k in ("temp", "new"):
            out.append(["temp", draw(st.sampled_from([["c", 1], ["c", 2], ["k", 1], ["i", 1]])), draw(st.booleans())])
        elif k == "del":
            v = draw(st.sampled_from(live))
            live.remove(v)
            out.append(["del", v])
        elif k == "dup":
            nid[0] += 1
            out.append(["dup", nid[0], draw(st.sampled_from(live))])
            live.append(nid[0])
        elif k == "slice":
            out.append(["slice", draw(st.sampled_from(live)), draw(st.sampled_from([0, 1, 2])), draw(st.sampled_from([None, 1, 2, 5, -1])), draw(st.booleans())])
        elif k == "fuse":
            p = draw(st.permutations(live))
            out.append(["fuse", p[0], p[1]])
        elif k == "for":
            out.append(["for", draw(st.sampled_from([["c", 2], ["k", 0], ["k", 1], ["c", 0]])), gen_alloc(draw, depth_ - 1, list(live), True, nid)])
        elif k == "while":
            out.append(["while", draw(st.sampled_from([["c", 2], ["k", 1]])), gen_alloc(draw, 0, [], True, nid)])
        elif k == "cond":
            out.append(["cond", draw(st.integers(0, 3)), gen_alloc(draw, depth_ - 1, [], True, nid), gen_alloc(draw, depth_ - 1, [], True, nid)])
        elif k == "bit":
            out.append(["bit", draw(st.booleans()), gen_alloc(draw, depth_ - 1, [], True, nid)])
    return out


@st.composite
def alloc_case(draw):
    return {"body": gen_alloc(draw, 2, [], False, [0]), "ks": [draw(st.integers(0, 3)) for _ in range(2)], "threshold": draw(st.sampled_from([None, None, 0]))}


def value(e, k, i):
    return {"c": 0, "k": k, "i": i}[e[0]] + e[1]


def events(body, k, m, sizes, i, out):
    for s in body:
        t = s[0]
        if t == "new":
            sizes[s[1]] = value(s[2], k, i)
            out.append(sizes[s[1]])
        elif t == "dup":
            sizes[s[1]] = sizes[s[2]]
            out.append(sizes[s[1]])
        elif t == "temp":
            v = value(s[1], k, i)
            out.append(v)
            if s[2]:
                out.append(-v)
        elif t == "del":
            out.append(-sizes[s[1]])
        elif t == "slice":
            v = len(range(sizes[s[1]])[s[2] : s[3]])
            out += [v, -v]
        elif t == "fuse":
            v = sizes[s[1]] + sizes[s[2]]
            out += [v, -v]
        elif t in ("for", "while"):
            for j in range(value(s[1], k, 0)):
                events(s[2], k, m, sizes, j, out)
        elif t == "cond":
            events(s[2] if k < s[1] else s[3], k, m, sizes, i, out)
        elif t == "bit":
            out += [1]
            if bool(m) == s[1]:
                events(s[2], k, m, sizes, i, out)
            out += [-1]
    return out


def make(size):
    from qrisp import QuantumVariable, x

    v = QuantumVariable(size)
    x(v)  # unused allocations are optimised away
    return v


def execute(body, k, live, i):
    from qrisp import QuantumBool, control, h, measure, x
    from qrisp.jasp import jrange, q_cond, q_while_loop

    for s in body:
        t = s[0]
        if t == "new":
            live[s[1]] = make(value(s[2], k, i))
        elif t == "dup":
            live[s[1]] = live[s[2]].duplicate()
            x(live[s[1]])
        elif t == "temp":
            v = make(value(s[1], k, i))
            if s[2]:
                v.delete()
        elif t == "del":
            live.pop(s[1]).delete()
        elif t == "slice":
            part = live[s[1]][s[2] : s[3]] if s[3] is not None else live[s[1]][s[2] :]
            v = make(part.size)
            v.delete()
        elif t == "fuse":
            v = make((live[s[1]].reg + live[s[2]].reg).size)
            v.delete()
        elif t == "for":
            for j in jrange(value(s[1], k, 0)):
                execute(s[2], k, live, j)
        elif t == "while":

            def cond_fun(v):
                return v[0] < v[1]

            def body_fun(v):
                j, n, k = v
                execute(s[2], k, {}, j)
                return j + 1, n, k

            q_while_loop(cond_fun, body_fun, (0, value(s[1], k, 0), k))
        elif t == "cond":
            q_cond(k < s[1], lambda k, i: execute(s[2], k, {}, i), lambda k, i: execute(s[3], k, {}, i), k, i)
        elif t == "bit":
            b = QuantumBool()
            h(b)
            m = measure(b[0])
            with control(m, ctrl_state=1 if s[1] else 0):
                execute(s[2], k, {}, i)
            b.delete()


def check_alloc(spec):
    from qrisp import num_qubits

    def main(k):
        execute(spec["body"], k, {}, 0)
        return k + 1

    flat = str(spec["body"])
    for k in spec["ks"]:
        for m in (0, 1):
            ev = events(spec["body"], k, m, {}, 0, [])
            level, peak = 0, 0
            for e in ev:
                level += e
                peak = max(peak, level)
            want = {"total_allocated": sum(e for e in ev if e > 0), "total_deallocated": -sum(e for e in ev if e < 0), "peak_allocations": peak, "finally_allocated": level}
            got = {a: int(b) for a, b in num_qubits(meas_behavior=str(m), callback_threshold=spec["threshold"])(main)(k).items()}
            require(got == want, "qubit profile", got=got, want=want, k=k, outcome=m)
    labels = [w for w in ("for", "while", "cond", "bit", "slice", "fuse", "del") if f"'{w}'" in flat]
    return labels if len(events(spec["body"], spec["ks"][0], 0, {}, 0, [])) > 1 else []


# ------------------------------------------------------------------ circuits


GATES = ["x", "y", "z", "h", "s", "s_dg", "t", "t_dg", "sx", "cx", "cx", "cy", "cz", "rx", "ry", "rz", "p", "u3", "cp", "rzz", "swap", "mcx", "measure", "reset", "barrier", "gphase", "sub", "sub", "cif"]


def gen_circ(draw, n, m, depth_):
    out = []
    for _ in range(draw(st.integers(1, 7))):
        g = draw(st.sampled_from(GATES))
        if g == "sub":
            if not depth_:
                continue
            w = draw(st.integers(1, n))
            out.append(["sub", draw(st.permutations(range(n)))[:w], gen_circ(draw, w, 0, depth_ - 1)])
        elif g in ("cx", "cy", "cz", "cp", "rzz", "swap"):
            if n > 1:
                out.append([g, draw(st.permutations(range(n)))[:2], draw(st.sampled_from([1, 3, 5, 7])), draw(st.sampled_from([1, 2, 3, 5]))])
        elif g == "mcx":
            if n > 2:
                out.append([g, draw(st.permutations(range(n)))[:3]])
        elif g in ("measure", "cif"):
            if m:
                out.append([g, [draw(st.integers(0, n - 1))], draw(st.integers(0, m - 1)), draw(st.sampled_from(["x", "t", "h", "rz"]))])
        elif g in ("reset",) and not m:
            continue
        elif g == "barrier" and not m:
            continue
        else:
            out.append([g, [draw(st.integers(0, n - 1))], draw(st.sampled_from([1, 3, 5, 7])), draw(st.sampled_from([1, 2, 3, 5]))])
    return out


@st.composite
def circuit_case(draw):
    n = draw(st.sampled_from([1, 2, 3, 4]))
    m = draw(st.sampled_from([0, 2]))
    return {"n": n, "m": m, "ops": gen_circ(draw, n, m, 2), "eps": draw(st.sampled_from([None, 2**-5, 1e-3])), "weights": draw(st.lists(st.integers(0, 4), min_size=4, max_size=4))}


def build(n, m, ops):
    from qrisp import QuantumCircuit

    qc = QuantumCircuit(n, m)
    for o in ops:
        g = o[0]
        if g == "sub":
            qc.append(build(len(o[1]), 0, o[2]).to_gate(), [qc.qubits[i] for i in o[1]])
        elif g in ("rx", "ry", "rz", "p", "cp", "rzz"):
            getattr(qc, g)(2 * np.pi * o[2] / 2 ** o[3], *o[1])
        elif g == "u3":
            qc.u3(2 * np.pi * o[2] / 2 ** o[3], 0.5 * np.pi, np.pi / 4, o[1][0])
        elif g == "gphase":
            qc.gphase(0.5 * np.pi, o[1][0])
        elif g == "mcx":
            qc.mcx(o[1][:2], o[1][2])
        elif g == "measure":
            qc.measure(o[1][0], o[2])
        elif g == "reset":
            qc.reset(o[1][0])
        elif g == "barrier":
            qc.barrier([qc.qubits[i] for i in o[1]])
        elif g == "cif":
            from qrisp.circuit import HGate, RZGate, TGate, XGate

            op = {"x": XGate, "t": TGate, "h": HGate}[o[3]]() if o[3] != "rz" else RZGate(np.pi / 4)
            qc.append(op.c_if(), [qc.qubits[o[1][0]]], [qc.clbits[o[2]]])
        else:
            getattr(qc, g)(*o[1])
    return qc


def check_circuit(spec):
    from qrisp.circuit import ClControlledOperation

    qc = build(spec["n"], spec["m"], spec["ops"])
    require(qc.num_qubits() == spec["n"], "number of qubits")
    want = {}
    for i in qc.data:
        want[i.op.name] = want.get(i.op.name, 0) + 1
    require(qc.count_ops() == want, "operation counts", got=qc.count_ops(), want=want)
    flat = [(i.op, list(i.qubits), list(i.clbits)) for i in qc.transpile().data if i.op.name not in ("qb_alloc", "qb_dealloc")]
    elementary = {"x", "y", "z", "h", "s", "s_dg", "t", "t_dg", "sx", "sx_dg", "cx", "cy", "cz", "rx", "ry", "rz", "p", "u3", "measure", "reset", "barrier", "gphase", "id", "u1"}
    for op, _, _ in flat:
        base = op.base_op if isinstance(op, ClControlledOperation) else op
        require(base.definition is None or not base.definition.data or base.name in elementary, "transpiled circuit contains a composite", name=op.name)
    got = qc.cnot_count()
    require(got == sum(op.name in ("cx", "cy", "cz") for op, _, _ in flat), "two-qubit gate count", got=got)
    require(qc.depth() == longest(flat), "depth", got=qc.depth(), want=longest(flat))
    top = [(i.op, list(i.qubits), list(i.clbits)) for i in qc.data]
    require(qc.depth(transpile=False) == longest(top), "untranspiled depth", got=qc.depth(transpile=False), want=longest(top))
    w = lambda op: spec["weights"][op.num_qubits - 1]
    require(qc.depth(depth_indicator=w) == longest(flat, w), "weighted depth", got=qc.depth(depth_indicator=w), want=longest(flat, w))

    def base(op):
        return op.base_op if isinstance(op, ClControlledOperation) else op

    cx = lambda op: int(base(op).num_qubits > 1 and base(op).name != "barrier")
    if not any(o[0] == "barrier" for o in spec["ops"]):
        require(qc.cnot_depth() == longest(flat, cx), "CNOT depth", got=qc.cnot_depth(), want=longest(flat, cx))
        eps = spec["eps"]
        if eps is None:
            k = 1
            for op, _, _ in flat:
                for p in op.params:
                    x = int(round((float(p) % (2 * np.pi)) / (2 * np.pi) * 2**15)) % 2**15
                    if x:
                        k = max(k, 15 - ((x & -x).bit_length() - 1))
            eps = 2.0 ** (-k - 3)

        def t(op):
            op = base(op)
            if op.name in ("t", "t_dg"):
                return 1
            if op.name in ("rx", "ry", "rz", "p", "u3"):
                return tcount(op, eps)
            return 0

        got, want = qc.t_depth(spec["eps"]), int(longest(flat, t))
        require(got == want, "T depth", got=got, want=want, eps=spec["eps"])
    names = {o[0] for o in spec["ops"]}
    return sorted(names & {"sub", "measure", "cif", "mcx", "swap", "cp"})


def tcount(op, eps):
    out = 0
    for p in op.params:
        x = float(p) / (np.pi / 4)
        if abs(x - round(x)) > 1e-9:
            out += 3 * math.log2(1 / eps)
        elif round(x) % 2:
            out += 1
    return out


FACETS = [
    Facet("profile", profile_case(), check_profile, quick=40, weight=6.0),
    Facet("library", library_case(), check_library, quick=36, weight=4.0),
    Facet("alloc", alloc_case(), check_alloc, quick=48, weight=4.0),
    Facet("circuit", circuit_case(), check_circuit, quick=400),
]
