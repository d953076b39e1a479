"""C03: circuit passes preserve what the circuit computes."""

import math

import numpy as np
from hypothesis import strategies as st

from pbt import ref
from pbt.core import Facet, require
from pbt.props.c01 import build_meas, meas_circuit, ref_distribution

PROPERTY = "C03"
RULE = (
    "Random circuits (uniform over the gate set, and 'adjacent' circuits that repeat/invert/permute the previous "
    "gate so that fusion rules fire; nested and controlled composites; mid-circuit measurements, resets, "
    "conditioned gates) through random pipelines of 1-3 passes, compared with the numpy operator (or, for passes "
    "documented to rely on the |0> start, the statevector; with measurements, the outcome distribution). "
    "Non-trivial: the pass pipeline changed the gate list."
)
ASSUMPTIONS = [
    "arrange_swaps and cancel_zero_controls are documented to rely on all qubits starting in |0>; pipelines "
    "containing them are compared on the |0> input only",
    "qubit placement after manual_layout / resolve_swaps is the documented one",
]
TOL = 3e-4

EXACT = [
    "fuse_adjacents", "combine_single_qubit_gates", "commute_swaps", "convert_to_cx", "convert_to_cz", "decompose",
    "gray_synth_toffoli", "remove_barriers", "reverse_parallelize", "convert_to_prx",
]
ZERO = ["arrange_swaps", "cancel_zero_controls"]
PLACE = ["manual_layout", "resolve_swaps"]


@st.composite
def pass_spec(draw, n, names):
    name = draw(st.sampled_from(names))
    if name == "decompose":
        return [name, draw(st.sampled_from([None, 0, 1, 2])), draw(st.booleans()), draw(st.sampled_from([None, "mcx", "multi"]))]
    if name == "manual_layout":
        extra = draw(st.integers(0, 2))
        return [name, draw(st.permutations(list(range(n + extra))))[:n]]
    if name in ("convert_to_cx", "convert_to_cz"):
        return [name, draw(st.booleans())]
    return [name]


@st.composite
def adjacent(draw, nmax=4, max_ops=10):
    """Circuits in which consecutive gates tend to act on the same qubits."""
    n = draw(st.integers(1, nmax))
    names = [g for g in ref.ALL if ref.arity(g) <= n]
    ops = []
    for _ in range(draw(st.integers(1, max_ops))):
        mode = draw(st.integers(0, 5))
        if ops and mode >= 2 and ops[-1][0] != "barrier":
            last = ops[-1]
            qs = list(last[1])
            if draw(st.integers(0, 2)) == 0:
                qs = draw(st.permutations(qs))
            if mode == 2:  # the same gate again
                new = [last[0], list(qs)] + last[2:]
            elif mode == 3 and last[0] in ref.GATES and len(last) > 2:  # the inverse angles
                new = [last[0], list(qs), [-a for a in last[2]]]
            elif mode == 3:
                new = ["sub", list(qs), [{"n": len(qs), "ops": [[last[0], list(range(len(qs)))] + last[2:]]}, ["inv"]]]
            else:  # another gate on the same qubits
                g = draw(st.sampled_from([g for g in ref.GATES if ref.arity(g) == len(qs)] + (["mcx", "ctrl"] if len(qs) > 1 else ["unitary"])))
                if g in ref.GATES:
                    k = ref.GATES[g][1]
                    new = [g, list(qs)] + ([[draw(ref.angles()) for _ in range(k)]] if k else [])
                elif g == "mcx":
                    new = [g, list(qs), [draw(ref.bitstring(len(qs) - 1))]]
                elif g == "ctrl":
                    base = draw(st.sampled_from([b for b in ref.GATES if ref.GATES[b][0] == 1]))
                    new = [g, list(qs), [base, [draw(ref.angles()) for _ in range(ref.GATES[base][1])], draw(ref.bitstring(len(qs) - 1))]]
                else:
                    new = [g, list(qs), [draw(st.integers(0, 10**6))]]
            ops.append(new)
        elif draw(st.integers(0, 5)) == 0:
            ops.append(draw(ref.sub_op(n, names, 1)))
        else:
            ops.append(draw(ref.op(n, names)))
    return {"n": n, "ops": ops}


@st.composite
def unitary_case(draw):
    spec = draw(st.one_of(adjacent(), adjacent(), ref.circuit(1, 4, 12, nested=2, min_ops=1)))
    kinds = draw(st.sampled_from([EXACT, EXACT, EXACT + PLACE, EXACT + ZERO, EXACT + ZERO + PLACE]))
    passes = [draw(pass_spec(spec["n"], kinds)) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    # the placement passes renumber the qubits: at most one of them, at the end
    place = [p for p in passes if p[0] == "manual_layout"]
    passes = [p for p in passes if p[0] != "manual_layout"] + place[:1]
    return {"circuit": spec, "passes": passes}


@st.composite
def meas_case(draw):
    spec = draw(meas_circuit(4, 12))
    passes = [draw(pass_spec(spec["n"], EXACT + ZERO + PLACE)) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    place = [p for p in passes if p[0] == "manual_layout"]
    passes = [p for p in passes if p[0] != "manual_layout"] + place[:1]
    return {"circuit": spec, "passes": passes}


@st.composite
def fresh_case(draw):
    """Circuits with controlled gates on qubits that have not been touched yet."""
    n = draw(st.integers(2, 5))
    used = draw(st.lists(st.integers(0, n - 1), max_size=n - 1, unique=True))
    ops = [[draw(st.sampled_from(["h", "x"])), [q]] for q in used]
    for _ in range(draw(st.integers(1, 5))):
        g = draw(st.sampled_from(["mcx", "mcx", "ctrl", "ctrl", "ctrl", "cx", "cz", "cp", "swap", "h", "x", "p", "z"]))
        if g in ("mcx", "ctrl"):
            k = draw(st.integers(1, min(3, n - 1)))
            qs = draw(ref.qubit_choice(n, k + 1))
            state = draw(ref.bitstring(k))
            if g == "mcx":
                ops.append([g, qs, [state]])
            else:
                base = draw(st.sampled_from(["x", "z", "p", "ry", "h", "rz", "gphase"]))
                ops.append([g, qs, [base, [draw(ref.angles()) for _ in range(ref.GATES[base][1])], state]])
        else:
            k = ref.GATES[g][1]
            ops.append([g, draw(ref.qubit_choice(n, ref.arity(g)))] + ([[draw(ref.angles()) for _ in range(k)]] if k else []))
    passes = [draw(pass_spec(n, ZERO + ZERO + EXACT)) for _ in range(draw(st.sampled_from([0, 0, 1])))]
    passes.insert(draw(st.integers(0, len(passes))), [draw(st.sampled_from(ZERO))])
    return {"circuit": {"n": n, "ops": ops}, "passes": passes}


@st.composite
def feedback_case(draw):
    """Short circuits dense in measurements, conditions, resets and swaps that share few bits."""
    n = draw(st.integers(2, 3))
    nc = draw(st.integers(1, 2))
    used = []
    ops = [["x", [q]] for q in range(n) if draw(st.booleans())]
    for _ in range(draw(st.integers(2, 8))):
        kind = draw(st.sampled_from(["x", "h", "swap", "swap", "cx", "cz", "meas", "meas", "cif", "cif", "reset", "p"]))
        if kind == "cif" and not used:
            kind = "meas"
        if kind == "meas":
            c = draw(st.integers(0, nc - 1))
            used = sorted({*used, c})
            ops.append(["meas", draw(st.integers(0, n - 1)), c])
        elif kind == "reset":
            ops.append(["reset", draw(st.integers(0, n - 1))])
        elif kind == "cif":
            g = draw(st.sampled_from(["x", "x", "h", "cx", "swap"]))
            ops.append(["cif", [g, draw(ref.qubit_choice(n, ref.arity(g)))], [draw(st.sampled_from(used))], draw(ref.bitstring(1))])
        elif kind == "p":
            ops.append(["p", draw(ref.qubit_choice(n, 1)), [draw(ref.angles())]])
        else:
            ops.append([kind, draw(ref.qubit_choice(n, ref.arity(kind)))])
    q = draw(st.integers(0, n - 1))
    ops.append(["meas", q, nc])
    passes = [draw(pass_spec(n, EXACT + ZERO + PLACE)) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    place = [p for p in passes if p[0] == "manual_layout"]
    passes = [p for p in passes if p[0] != "manual_layout"] + place[:1]
    return {"circuit": {"n": n, "nc": nc + 1, "ops": ops}, "passes": passes}


def make_pass(p):
    import qrisp
    from qrisp.circuit import pass_management as pm

    f = getattr(qrisp, p[0], None) or getattr(pm, p[0])
    if p[0] == "decompose":
        kw = {}
        if p[1] is not None:
            kw["level"] = p[1]
        pred = {
            None: None,
            "mcx": lambda op: "x" not in op.name[:4],
            "multi": lambda op: op.num_qubits > 1,
        }[p[3]]
        return f(decompose_predicate=pred, collect_gphases=p[2], **kw)
    if p[0] == "manual_layout":
        return f(p[1])
    if p[0] in ("convert_to_cx", "convert_to_cz"):
        return f(strict=p[1])
    return f


def fingerprint(qc):
    return [(i.op.name, tuple(map(str, i.op.params)), tuple(q.identifier for q in i.qubits), tuple(c.identifier for c in i.clbits)) for i in qc.data]


STRICT = {"convert_to_cx": {"cx", "cz", "cy", "swap", "barrier"}, "convert_to_cz": {"cx", "cz", "cy", "swap", "barrier"}}


def run_passes(qc, passes):
    """Apply the passes one by one with their structural promises; returns (circuit, placement
    of the original qubits, changed?)"""
    n = qc.num_qubits()
    place = list(range(n))
    changed = False
    for p in passes:
        before = fingerprint(qc)
        f = make_pass(p)
        if p[0] in STRICT and p[1]:
            bad = [i.op.name for i in qc.data if i.op.num_qubits == 2 and i.op.name not in STRICT[p[0]]]
            try:
                new = f(qc)
            except Exception as e:
                require(bad, "strict conversion raised although every two-qubit gate is convertible", e=e)
                continue
            if any(i.op.num_qubits == 2 and i.op.name[:5] != "c_if_" and i.op.num_clbits == 0 and i.op.name in ("rzz", "rxx", "cp") for i in qc.data):
                require(False, "strict conversion did not raise for a gate without conversion", bad=bad)
        else:
            new = f(qc)
        require(fingerprint(qc) == before, "the pass changed its input circuit", p=p, before=before, after=fingerprint(qc))
        names = [i.op.name for i in new.data]
        if p[0] == "remove_barriers":
            require("barrier" not in names, "barrier left")
        if p[0] == "resolve_swaps":
            require("swap" not in names, "swap left")
            perm = list(range(len(place)))
            idx = {q: i for i, q in enumerate(qc.qubits)}
            for i in qc.data:
                if i.op.name == "swap":
                    a, b = idx[i.qubits[0]], idx[i.qubits[1]]
                    perm[a], perm[b] = perm[b], perm[a]
            place = [perm[q] for q in place]
        if p[0] == "manual_layout":
            place = [p[1][q] for q in place]
        if p[0] == "convert_to_cx":
            require(not {"cz", "cy", "swap"} & set(names), "unconverted gate left", names=names)
        if p[0] == "convert_to_cz":
            require(not {"cx", "cy", "swap"} & set(names), "unconverted gate left", names=names)
        if p[0] == "decompose":
            if p[1] is None and p[3] is None:
                require(all(i.op.definition is None or not len(i.op.definition.data) for i in new.data), "composite gate left after complete decomposition", names=names)
            if p[1] == 0:
                require([x for x in fingerprint(new) if x[0] != "gphase"] == [x for x in before if x[0] != "gphase"], "decompose(level=0) changed the circuit")
            if p[2]:
                require(names.count("gphase") <= 1, "global phases not collected", names=names)
        if p[0] == "convert_to_prx":
            for i in new.data:
                if i.op.num_qubits == 1 and i.op.num_clbits == 0:
                    if hasattr(i.op, "theta"):
                        require(i.op.name in ("prx", "gphase"), "single-qubit gate not converted to PRX", name=i.op.name)
        changed |= fingerprint(new) != before
        qc = new
    return qc, place, changed


def check_unitary(spec):
    c = spec["circuit"]
    qc = ref.build(c)
    U = ref.unitary(c)
    new, place, changed = run_passes(qc, spec["passes"])
    d = ref.dist_phase(qc.get_unitary(), U)
    require(d < TOL, "the pass changed the operator of its input circuit", d=d)
    n, m = c["n"], new.num_qubits()
    zero = any(p[0] in ZERO for p in spec["passes"])
    # operator of the original circuit on the qubits where they have been placed at the end
    start = list(range(n))
    for p in spec["passes"]:
        if p[0] == "manual_layout":
            start = [p[1][q] for q in start]
    big = ref.embed(U, start, m)
    # move start placement to final placement
    P = np.zeros((2**m, 2**m))
    rest_s = [q for q in range(m) if q not in start]
    rest_f = [q for q in range(m) if q not in place]
    dest = dict(zip(start + rest_s, place + rest_f))
    for i in range(2**m):
        b = ref.bits_of(i, m)
        o = [0] * m
        for q in range(m):
            o[dest[q]] = b[q]
        P[int("".join(map(str, o)), 2), i] = 1
    want = P @ big
    if zero:
        d = ref.dist_phase(new.statevector_array(), want[:, 0])
    else:
        d = ref.dist_phase(new.get_unitary(), want)
    require(d < TOL, "the transformed circuit computes something else", d=d)
    return labels(spec, changed)


def labels(spec, changed):
    out = []
    if changed:
        out += ["changed"] + sorted({p[0] for p in spec["passes"]})
        if len(spec["passes"]) > 1:
            out.append("pipeline")
    return out


def check_meas(spec):
    c = spec["circuit"]
    qc = build_meas(c)
    want = ref_distribution(c)
    new, place, changed = run_passes(qc, spec["passes"])
    got = dict(new.run(shots=None))
    for k in set(want) | set(got):
        d = abs(want.get(k, 0) - got.get(k, 0))
        require(d < 1e-3, "the transformed circuit has another outcome distribution", key=k, want=want, got=got)
    return labels(spec, changed)


# ------------------------------------------------------------- pass manager


@st.composite
def manager_case(draw):
    n = draw(st.integers(1, 3))
    acts = []
    for _ in range(draw(st.integers(1, 7))):
        a = draw(st.sampled_from(["add", "iadd", "insert", "remove", "clear", "merge"]))
        if a in ("add", "iadd"):
            acts.append([a, draw(pass_spec(n, EXACT))])
        elif a == "insert":
            acts.append([a, draw(st.integers(0, 3)), draw(pass_spec(n, EXACT))])
        elif a == "remove":
            acts.append([a, draw(st.integers(0, 3))])
        elif a == "merge":
            acts.append([a, [draw(pass_spec(n, EXACT)) for _ in range(draw(st.integers(0, 2)))]])
        else:
            if draw(st.integers(0, 3)) == 0:
                acts.append([a])
    return {"circuit": draw(ref.circuit(n, n, 6, nested=1, min_ops=1)), "acts": acts}


def check_manager(spec):
    from qrisp import PassManager

    pm = PassManager()
    model = []
    for a in spec["acts"]:
        if a[0] in ("add", "iadd", "insert"):
            p = make_pass([a[-1][0]] + [False] * (len(a[-1]) - 1)) if a[-1][0].startswith("convert_to_c") else make_pass(a[-1])
        if a[0] == "add":
            r = pm.add_pass(p)
            require(r is pm, "add_pass does not return the manager")
            model.append(p)
        elif a[0] == "iadd":
            pm += p
            model.append(p)
        elif a[0] == "insert":
            pm.insert_pass(a[1], p)
            model.insert(a[1], p)
        elif a[0] == "remove":
            if a[1] < len(model):
                pm.remove_pass(a[1])
                del model[a[1]]
        elif a[0] == "clear":
            pm.clear()
            model = []
        elif a[0] == "merge":
            ps = [make_pass([q[0], False] if q[0].startswith("convert_to_c") else q) for q in a[1]]
            pm += PassManager.from_list(ps)
            model += ps
        require(len(pm) == len(model) and all(x is y for x, y in zip(pm, model)), "pass list differs from the sequence of edits")
    qc = ref.build(spec["circuit"])
    U = ref.unitary(spec["circuit"])
    out = pm.run(qc)
    d = ref.dist_phase(out.get_unitary(), U)
    require(d < TOL, "PassManager.run changed the operator", d=d)
    cur = qc
    for p in model:
        cur = p(cur)
    require([x[2:] for x in fingerprint(cur)] == [x[2:] for x in fingerprint(out)], "PassManager.run differs from applying the passes in order")
    res = pm.verify(qc, "unitary", ignore_gphase=True, precision=3)
    require([r[0] for r in res] == [p.__name__ for p in model], "verify reports other passes", res=res)
    require(all(r[1] for r in res), "verify reports a failure for a pass that keeps the operator", res=res)
    return ["manager"] if len(model) >= 2 else []


# ------------------------------------------------------------- verification detects wrong passes


@st.composite
def verify_case(draw):
    c = draw(ref.circuit(1, 3, 8, nested=1, min_ops=1))
    extra = draw(ref.op(c["n"], [g for g in ref.GATES if g != "gphase" and ref.arity(g) <= c["n"]]))
    return {"circuit": c, "extra": extra, "pos": draw(st.integers(0, 8)), "meas": draw(st.booleans())}


def check_verify(spec):
    from qrisp import CircuitPass

    c = spec["circuit"]
    ops = list(c["ops"])
    ops.insert(min(spec["pos"], len(ops)), spec["extra"])
    mod = {"n": c["n"], "ops": ops}

    def build(s):
        qc = ref.build(s)
        if spec["meas"]:
            from qrisp import Clbit

            for i in range(c["n"]):
                qc.add_clbit(Clbit(f"m{i}"))
                qc.measure(qc.qubits[i], qc.clbits[i])
        return qc

    qc = build(c)

    @CircuitPass
    def broken(q):
        new = q.clearcopy()
        tmp = build(mod)
        for ins in tmp.data:
            new.append(ins.op, [new.qubits[tmp.qubits.index(x)] for x in ins.qubits], [new.clbits[tmp.clbits.index(x)] for x in ins.clbits])
        return new

    if spec["meas"]:
        d = np.abs(np.abs(ref.statevector(c)) ** 2 - np.abs(ref.statevector(mod)) ** 2).max()
        got = broken.compare_measurement(qc, precision=3)
        lo, hi = 1e-5, 1e-2
        d1 = d
    else:
        A, B = ref.unitary(c), ref.unitary(mod)
        d, d1 = ref.dist(A, B), ref.dist_phase(A, B)
        got = broken.compare_unitary(qc, precision=3)
        lo, hi = 1e-5, 5e-2
    if d > hi:
        require(not got, "a pass that changes the circuit is reported as equivalent", d=d)
    elif d < lo:
        require(got, "an equivalent circuit is reported as different", d=d)
    if not spec["meas"]:
        g = broken.compare_unitary(qc, precision=3, ignore_gphase=True)
        if d1 > 5e-2:
            require(not g, "a pass that changes the circuit (beyond a phase) is reported as equivalent", d=d1)
        elif d1 < lo:
            require(g, "a global phase is reported as difference despite ignore_gphase", d=d1)
    return ["different"] if d > hi else (["equal"] if d < lo else [])


FACETS = [
    Facet("unitary", unitary_case(), check_unitary, quick=9000),
    Facet("fresh", fresh_case(), check_unitary, quick=4000),
    Facet("measure", meas_case(), check_meas, quick=7000),
    Facet("feedback", feedback_case(), check_meas, quick=6000),
    Facet("manager", manager_case(), check_manager, quick=500),
    Facet("verify", verify_case(), check_verify, quick=600),
]
