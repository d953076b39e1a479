"""C26: Stim conversion keeps measurement and detector semantics of stabiliser programs."""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, require

PROPERTY = "C26"
RULE = (
    "Random stabiliser programs on 2-4 qubits. (convert) circuits with Clifford gates, composites, measurements into arbitrary classical bits, resets, "
    "conditioned Paulis, noise and parity declarations, converted to Stim or run on the Stim backend; records sampled from Stim are compared with an "
    "exact branching state-vector reference and all index maps with the declared parities. (extract) the same as traced programs with every kind of "
    "returned handle and both detector orders. (permute) detector permutations of Stim circuits. (find) detector search on code-like and free "
    "programs. Non-trivial: the case has a random record, a parity, noise, classical control, a moved or a found detector."
)

S2 = math.sqrt(0.5)
X = np.array([[0, 1], [1, 0]], complex)
Y = np.array([[0, -1j], [1j, 0]])
Z = np.diag([1.0 + 0j, -1])
I2 = np.eye(2, dtype=complex)
PAULI = {"I": I2, "X": X, "Y": Y, "Z": Z}


def _half(P):
    return (I2 - 1j * P) * S2


ONE = {"h": np.array([[1, 1], [1, -1]], complex) * S2, "x": X, "y": Y, "z": Z, "s": np.diag([1, 1j]),
       "s_dg": np.diag([1, -1j]), "sx": _half(X), "sx_dg": _half(X).conj().T}


def _ctrl(U):
    M = np.eye(4, dtype=complex)
    M[2:, 2:] = U
    return M


SWAP = np.eye(4, dtype=complex)[[0, 2, 1, 3]]
TWO = {"cx": _ctrl(X), "cy": _ctrl(Y), "cz": _ctrl(Z), "swap": SWAP}

NOISE1 = ["X_ERROR", "Y_ERROR", "Z_ERROR", "DEPOLARIZE1", "PAULI_CHANNEL_1"]
NOISE2 = ["DEPOLARIZE2", "PAULI_CHANNEL_2"]


# ------------------------------------------------------------------ reference

def act(psi, M, qs, n):
    k = len(qs)
    t = psi.reshape((2,) * n)
    t = np.tensordot(M.reshape((2,) * (2 * k)), t, axes=(list(range(k, 2 * k)), list(qs)))
    return np.moveaxis(t, list(range(k)), list(qs)).reshape(-1)


def proj(psi, q, b, n):
    t = psi.reshape((2,) * n).copy()
    sl = [slice(None)] * n
    sl[q] = 1 - b
    t[tuple(sl)] = 0
    return t.reshape(-1)


def channel(name, params, pauli):
    """list of (probability, pauli string) of a noise instruction"""
    if name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
        return [(1 - params[0], "I"), (params[0], name[0])]
    if name == "DEPOLARIZE1":
        return [(1 - params[0], "I")] + [(params[0] / 3, p) for p in "XYZ"]
    if name == "PAULI_CHANNEL_1":
        return [(1 - sum(params), "I")] + list(zip(params, "XYZ"))
    strings = ["".join(p) for p in itertools.product("IXYZ", repeat=2)]
    if name == "DEPOLARIZE2":
        return [(1 - params[0], "II")] + [(params[0] / 15, p) for p in strings[1:]]
    if name == "PAULI_CHANNEL_2":
        return [(1 - sum(params), "II")] + list(zip(params, strings[1:]))
    return [(1 - params[0], "I" * len(pauli)), (params[0], pauli)]


def reference(n, ops):
    """exact joint distribution of the measurement record"""
    branches = {(): [(1.0, np.eye(1, 2 ** n, 0, dtype=complex)[0])]}
    where = {}
    count = 0
    for op in ops:
        new = {}
        for rec, states in branches.items():
            for p, psi in states:
                out = []
                k = op[0]
                if k == "g":
                    M = ONE[op[1]] if op[1] in ONE else TWO[op[1]]
                    out = [(p, rec, act(psi, M, op[2], n))]
                elif k in ("m", "r"):
                    for b in (0, 1):
                        phi = proj(psi, op[1], b, n)
                        w = np.vdot(phi, phi).real
                        if w < 1e-9:
                            continue
                        phi = phi / math.sqrt(w)
                        if k == "r" and b:
                            phi = act(phi, X, [op[1]], n)
                        out.append((p * w, rec + (b,) if k == "m" else rec, phi))
                elif k == "c":
                    bit = rec[where[op[3]]]
                    out = [(p, rec, act(psi, ONE[op[1]], [op[2]], n) if bit == op[4] else psi)]
                elif k == "n":
                    for w, s in channel(op[1], op[2], op[4]):
                        if w > 1e-12:
                            phi = psi
                            for c, q in zip(s, op[3]):
                                phi = act(phi, PAULI[c], [q], n)
                            out.append((p * w, rec, phi))
                else:
                    out = [(p, rec, psi)]
                for w, r, phi in out:
                    lst = new.setdefault(r, [])
                    for i, (v, chi) in enumerate(lst):
                        if abs(abs(np.vdot(chi, phi)) - 1) < 1e-7:
                            lst[i] = (v + w, chi)
                            break
                    else:
                        lst.append((w, phi))
        branches = new
        if op[0] == "m":
            where[op[2]] = count
            count += 1
    return {r: sum(p for p, _ in s) for r, s in branches.items()}, where


# ------------------------------------------------------------------ generator

@st.composite
def program(draw, n_max=4, jasp=False, noise=True):
    n = draw(st.sampled_from(list(range(2, n_max + 1))))
    nc = 12 if jasp else draw(st.sampled_from([2, 3, 4, 5]))
    L = draw(st.sampled_from(range(4, 22)))
    ops, measured, records, nnoise = [], [], 0, 0
    for _ in range(L):
        k = draw(st.sampled_from(["g"] * 7 + ["m"] * 4 + ["r", "c", "c", "p", "p"] + (["n"] if noise else [])
                                 + ([] if jasp else ["b", "w"])))
        if k == "g":
            ops.append(_gate(draw, n))
        elif k == "w":
            # gates inside a composite gate
            ops.append(["w", [_gate(draw, n) for _ in range(draw(st.sampled_from([2, 3])))]])
        elif k == "m" and records < 6:
            c = records if jasp else draw(st.sampled_from(range(nc)))
            ops.append(["m", draw(st.sampled_from(range(n))), c])
            records += 1
            if c not in measured:
                measured.append(c)
        elif k == "r":
            ops.append(["r", draw(st.sampled_from(range(n)))])
        elif k == "b":
            ops.append(["b"])
        elif k == "c" and measured:
            ops.append(["c", draw(st.sampled_from("xyz" if not jasp else "xyz")), draw(st.sampled_from(range(n))),
                        draw(st.sampled_from(measured)), 1 if jasp else draw(st.sampled_from([0, 1]))])
        elif k == "p" and measured:
            cs = draw(st.lists(st.sampled_from(measured), min_size=1, max_size=4, unique=True))
            ops.append(["p", cs, draw(st.sampled_from([0, 0, 1])), draw(st.booleans())])
        elif k == "n" and nnoise < 3:
            nnoise += 1
            ops.append(_noise(draw, n))
    if not measured:
        ops.append(["m", n - 1, 0])
    return n, nc, ops


def _gate(draw, n):
    if draw(st.booleans()):
        return ["g", draw(st.sampled_from(sorted(ONE))), [draw(st.sampled_from(range(n)))]]
    qs = draw(st.permutations(range(n)))[:2]
    return ["g", draw(st.sampled_from(sorted(TWO))), list(qs)]


def _noise(draw, n):
    k = draw(st.sampled_from([1, 1, 2, 3]))
    qs = list(draw(st.permutations(range(n))))
    if k == 1:
        name = draw(st.sampled_from(NOISE1))
        qs = qs[:1]
    elif k == 2:
        name = draw(st.sampled_from(NOISE2))
        qs = qs[:2]
    else:
        name = draw(st.sampled_from(["E", "CORRELATED_ERROR"]))
        qs = qs[:draw(st.sampled_from(range(1, n + 1)))]
    pauli = None
    if name == "PAULI_CHANNEL_1":
        params = draw(st.sampled_from([[0.1, 0.2, 0.3], [0.5, 0.0, 0.25], [0.0, 0.0, 1.0]]))
    elif name == "PAULI_CHANNEL_2":
        params = [0.0] * 15
        for i in draw(st.lists(st.sampled_from(range(15)), min_size=1, max_size=3, unique=True)):
            params[i] = 0.25
    elif name.startswith("DEPOL"):
        params = [draw(st.sampled_from([0.3, 0.6]))]
    else:
        params = [draw(st.sampled_from([0.25, 0.5, 1.0]))]
    if k == 3:
        pauli = "".join(draw(st.sampled_from("XYZXYZI")) for _ in qs)
        if set(pauli) == {"I"}:
            pauli = "X" + pauli[1:]
    return ["n", name, params, qs, pauli]


def flat(ops):
    out = []
    for op in ops:
        out += op[1] if op[0] == "w" else [op]
    return out


# ------------------------------------------------------------------ judging

def tables(circ):
    """absolute record sets of detectors (in order) and observables (by index) of a stim circuit"""
    import stim
    m, dets, obs = 0, [], {}
    for i in circ.flattened():
        if i.name in ("DETECTOR", "OBSERVABLE_INCLUDE"):
            rec = set()
            for t in i.targets_copy():
                rec ^= {m + t.value}
            if i.name == "DETECTOR":
                dets.append(rec)
            else:
                k = int(i.gate_args_copy()[0])
                obs[k] = obs.get(k, set()) ^ rec
        c = stim.Circuit()
        c.append(i)
        m += c.num_measurements
    return dets, obs, m


def judge_records(circ, dist, what, shots=3000):
    samples = circ.compile_sampler(seed=7).sample(shots)
    counts = {}
    for row in samples:
        key = tuple(int(b) for b in row)
        counts[key] = counts.get(key, 0) + 1
    judge_counts(counts, dist, shots, what, circ)


def judge_counts(counts, dist, shots, what, circ=None):
    for key, c in counts.items():
        require(dist.get(key, 0) > 1e-9, f"{what}: impossible outcome occurred", outcome=key, circuit=str(circ))
    for key, p in dist.items():
        sigma = math.sqrt(max(shots * p * (1 - p), 0)) + 1
        require(abs(counts.get(key, 0) - shots * p) < 7 * sigma, f"{what}: wrong probability", outcome=key,
                expected=p, observed=counts.get(key, 0) / shots, circuit=str(circ))


def expected_parities(ops):
    where, count, dets, obs = {}, 0, [], []
    for op in ops:
        if op[0] == "m":
            where[op[2]] = count
            count += 1
        if op[0] == "p":
            (obs if op[3] else dets).append({where[c] for c in op[1]})
    return dets, obs


# ------------------------------------------------------------------ circuits

@st.composite
def convert_specs(draw):
    n, nc, ops = draw(program())
    return {"n": n, "nc": nc, "ops": ops, "backend": draw(st.sampled_from([False, False, True])),
            "nonclifford": draw(st.sampled_from([None] * 9 + ["t", "rz", "ccx"]))}


def build(spec):
    from qrisp import QuantumCircuit
    from qrisp.circuit import XGate, YGate, ZGate
    from qrisp.misc.stim_tools import StimNoiseGate
    qc = QuantumCircuit(spec["n"], spec["nc"])
    handles = []

    def gate(target, op):
        getattr(target, op[1])(*op[2])

    for op in spec["ops"]:
        k = op[0]
        if k == "g":
            gate(qc, op)
        elif k == "w":
            sub = QuantumCircuit(spec["n"])
            for o in op[1]:
                gate(sub, o)
            qc.append(sub.to_gate(), qc.qubits)
        elif k == "m":
            qc.measure(qc.qubits[op[1]], qc.clbits[op[2]])
        elif k == "r":
            qc.reset(qc.qubits[op[1]])
        elif k == "b":
            qc.barrier()
        elif k == "c":
            base = {"x": XGate, "y": YGate, "z": ZGate}[op[1]]()
            qc.append(base.c_if(1, op[4]), [qc.qubits[op[2]]], [qc.clbits[op[3]]])
        elif k == "n":
            kw = {} if op[4] is None else {"pauli_string": op[4]}
            qc.append(StimNoiseGate(op[1], *op[2], **kw), [qc.qubits[q] for q in op[3]])
        elif k == "p":
            handles.append(qc.parity([qc.clbits[c] for c in op[1]], expectation=op[2], observable=op[3]))
    return qc, handles


def check_convert(spec):
    qc, handles = build(spec)
    if spec["nonclifford"]:
        n = spec["n"]
        if spec["nonclifford"] == "t":
            qc.t(0)
        elif spec["nonclifford"] == "rz":
            qc.rz(0.3, 0)
        else:
            if n < 3:
                return []
            qc.mcx([0, 1], 2)
        try:
            circ = qc.to_stim()
        except Exception:
            return ["refused"]
        require(False, "a circuit with a non-Clifford gate was converted", circuit=str(circ))
    ops = flat(spec["ops"])
    dist, where = reference(spec["n"], ops)
    circ, mmap, dmap, omap = qc.to_stim(return_measurement_map=True, return_detector_map=True,
                                        return_observable_map=True)
    dets, obs, m = tables(circ)
    require({qc.clbits.index(c): i for c, i in mmap.items()} == where, "measurement map", expected=where,
            observed=str(mmap), circuit=str(circ))
    require(m == len(next(iter(dist))), "number of measurement records", circuit=str(circ))
    judge_records(circ, dist, "converted circuit")
    edets, eobs = expected_parities(ops)
    require(dets == edets, "detectors are not the declared parities", expected=edets, observed=dets,
            circuit=str(circ))
    require([obs.get(i, None) for i in range(len(obs))] == eobs, "observables are not the declared parities",
            expected=eobs, observed=obs, circuit=str(circ))
    pars = [op for op in ops if op[0] == "p"]
    for h, op in zip(handles, pars):
        same = [o for o in pars if sorted(o[1]) == sorted(op[1])]
        if len(same) > 1:
            continue
        i = [o for o in pars if o[3] == op[3]].index(op)
        mp = omap if op[3] else dmap
        require(mp[h] == i, "handle map", expected=i, observed=mp[h], circuit=str(circ))
    labels = []
    if len(dist) > 1:
        labels.append("random record")
    for k, name in (("c", "classical control"), ("p", "parity"), ("n", "noise"), ("r", "reset"), ("w", "composite")):
        if any(op[0] == k for op in spec["ops"]):
            labels.append(name)
    if spec["backend"]:
        from qrisp.interface import StimBackend
        shots = 3000
        res = dict(StimBackend().run(qc, shots))
        out = {}
        for rec, p in dist.items():
            key = "".join(str(rec[where[c]]) if c in where else "0" for c in reversed(range(spec["nc"])))
            out[key] = out.get(key, 0) + p
        require(sum(res.values()) == shots or abs(sum(res.values()) - 1) < 1e-6, "number of shots", observed=str(res))
        scale = shots if abs(sum(res.values()) - 1) < 1e-6 else 1
        judge_counts({k: v * scale for k, v in res.items()}, out, shots, "backend", circ)
        labels.append("backend")
    return labels


# ------------------------------------------------------------------ traced programs

@st.composite
def extract_specs(draw):
    n, _, ops = draw(program(jasp=True, noise=draw(st.booleans())))
    seen, keep = [], []
    for op in ops:
        # distinct parities only: identical ones share one handle
        if op[0] == "p":
            key = sorted(op[1])
            if key in seen:
                continue
            seen.append(key)
        keep.append(op)
    ops = keep
    ndet = sum(1 for op in ops if op[0] == "p" and not op[3])
    sizes = [draw(st.sampled_from(range(1, n)))]
    sizes.append(n - sizes[0])
    return {"n": n, "ops": ops, "sizes": sizes, "order": draw(st.sampled_from(["chronological", "return_order"])),
            "perm": list(draw(st.permutations(range(ndet)))), "final": draw(st.booleans()),
            "nest": draw(st.sampled_from(["flat", "list", "array"])), "k": draw(st.sampled_from([1, 2, 3])),
            "loop": _loop(draw, n)}


def _loop(draw, n):
    return [_gate(draw, n) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]


def check_extract(spec):
    import jax.numpy as jnp
    import qrisp
    from qrisp import QuantumVariable, control, measure, reset
    from qrisp.jasp import (StimDetectorHandles, StimMeasurementHandles, StimObservableHandles, StimQubitIndices,
                            extract_stim, jrange, parity)
    from qrisp.misc.stim_tools import stim_noise
    ops, sizes = spec["ops"], spec["sizes"]

    def fn(k):
        qvs = [QuantumVariable(s) for s in sizes]
        qb = [qvs[0][i] for i in range(sizes[0])] + [qvs[1][i] for i in range(sizes[1])]

        def gate(op):
            getattr(qrisp, op[1])(*[qb[q] for q in op[2]])

        if spec["loop"]:
            for _ in jrange(k):
                for op in spec["loop"]:
                    gate(op)
        ms, dets, obs = {}, [], []
        for op in ops:
            if op[0] == "g":
                gate(op)
            elif op[0] == "m":
                ms[op[2]] = measure(qb[op[1]])
            elif op[0] == "r":
                reset(qb[op[1]])
            elif op[0] == "c":
                with control(ms[op[3]]):
                    getattr(qrisp, op[1])(qb[op[2]])
            elif op[0] == "n":
                kw = {} if op[4] is None else {"pauli_string": op[4]}
                stim_noise(op[1], *op[2], *[qb[q] for q in op[3]], **kw)
            elif op[0] == "p":
                p = parity(*[ms[c] for c in op[1]], expectation=op[2], observable=op[3])
                (obs if op[3] else dets).append(p)
        final = measure(qvs[1]) if spec["final"] else k * 3
        dets = [dets[i] for i in spec["perm"]]
        mlist = [ms[c] for c in sorted(ms)]
        if spec["nest"] == "array":
            mlist = jnp.array(mlist)
            if dets:
                dets = jnp.array(dets)
        if spec["nest"] == "flat":
            return (final, qvs[0], *mlist, *dets, *obs)
        return final, qvs[0], mlist, dets, obs

    out = extract_stim(fn, detector_order=spec["order"])(spec["k"])
    circ = out[-1]
    dets, obs, m = tables(circ)
    full = [op for _ in range(spec["k"]) for op in spec["loop"]] + ops
    nm = sum(1 for op in ops if op[0] == "m")
    if spec["final"]:
        full = full + [["m", sizes[0] + i, 100 + i] for i in range(sizes[1])]
    # ----- return values
    edets, eobs = expected_parities(ops)
    edets = [edets[i] for i in spec["perm"]]
    if spec["nest"] == "flat":
        mh, dh = list(out[2:2 + nm]), list(out[2 + nm:2 + nm + len(edets)])
        oh = list(out[2 + nm + len(edets):-1])
    else:
        mh, dh, oh = out[2], out[3], out[4]
    for v, t, name in ((mh, StimMeasurementHandles, "measurement"), (dh, StimDetectorHandles, "detector"),
                       (oh, StimObservableHandles, "observable")):
        for x in (v if isinstance(v, list) else [v]):
            require(isinstance(x, t), f"type of {name} handles", observed=str(type(x)))
    # qubits may be renumbered by the extraction: use the returned indices where available
    require(isinstance(out[1], StimQubitIndices) and len(out[1]) == sizes[0] and len(set(out[1].tolist())) == sizes[0],
            "qubit indices", observed=str(out[1]))
    dist, _ = reference(spec["n"], full)
    judge_records(circ, dist, "extracted circuit")
    require([int(x) for x in mh] == list(range(nm)), "measurement handles", observed=str(mh), circuit=str(circ))
    if spec["final"]:
        require(isinstance(out[0], StimMeasurementHandles) and out[0].tolist() == list(range(nm, nm + sizes[1])),
                "record indices of a variable measurement", observed=str(out[0]), circuit=str(circ))
    else:
        require(int(out[0]) == 3 * spec["k"], "classical return value", observed=str(out[0]))
    require(len(dets) == len(edets) and [dets[int(i)] for i in dh] == edets, "detector handles point to the wrong parity",
            expected=edets, observed=(dets, [int(i) for i in dh]), circuit=str(circ))
    require(len(obs) == len(eobs) and [obs[int(i)] for i in oh] == eobs, "observable handles point to the wrong parity",
            expected=eobs, observed=(obs, [int(i) for i in oh]), circuit=str(circ))
    if spec["order"] == "return_order":
        require([int(i) for i in dh] == list(range(len(edets))), "detector order", observed=str(dh))
    labels = []
    if len(dist) > 1:
        labels.append("random record")
    if edets:
        labels.append("detectors " + spec["order"])
    if eobs:
        labels.append("observables")
    if any(op[0] == "c" for op in ops):
        labels.append("classical control")
    if any(op[0] == "n" for op in ops):
        labels.append("noise")
    return labels


# ------------------------------------------------------------------ permutations of plain stim circuits

@st.composite
def permute_specs(draw):
    lines, recs, ndet = [], 0, 0
    n = 3
    for _ in range(draw(st.sampled_from(range(4, 16)))):
        k = draw(st.sampled_from(["g", "m", "m", "d", "d", "s", "o"]))
        q = draw(st.sampled_from(range(n)))
        if k == "g":
            lines.append(draw(st.sampled_from([f"H {q}", f"X {q}", f"CX {q} {(q + 1) % n}", f"X_ERROR(0.5) {q}", "TICK"])))
        elif k == "m":
            w = draw(st.sampled_from(["M {a}", "MX {a}", "MR {a}", "M {a} {b}", "MPP X{a}*Z{b}", "M !{a}"]))
            lines.append(w.format(a=q, b=(q + 1) % n))
            recs += 2 if "{b}" in w and w.startswith("M ") else 1
        elif k in "do" and recs:
            t = draw(st.lists(st.sampled_from(range(1, recs + 1)), min_size=1, max_size=3, unique=True))
            tg = " ".join(f"rec[-{i}]" for i in t)
            if k == "o":
                lines.append(f"OBSERVABLE_INCLUDE({draw(st.sampled_from([0, 1]))}) {tg}")
            else:
                co = draw(st.sampled_from(["", "(1)", "(2, 3)", "(0, 1, 5)"]))
                lines.append(f"DETECTOR{co} {tg}")
                ndet += 1
        elif k == "s":
            lines.append(draw(st.sampled_from(["SHIFT_COORDS(1)", "SHIFT_COORDS(0, 2)", "SHIFT_COORDS(1, 0, 3)"])))
    return {"lines": lines, "perm": list(draw(st.permutations(range(ndet))))}


def check_permute(spec):
    import stim
    from qrisp.misc.stim_tools import permute_detectors
    c = stim.Circuit("\n".join(spec["lines"]))
    before = str(c)
    r = permute_detectors(c, spec["perm"])
    require(str(c) == before, "the input circuit was changed")
    d0, o0, m0 = tables(c)
    d1, o1, m1 = tables(r)
    require((o0, m0) == (o1, m1), "records or observables changed", before=(o0, m0), after=(o1, m1))
    require(d1 == [d0[k] for k in spec["perm"]], "permuted detectors", before=d0, after=d1)
    c0, c1 = c.get_detector_coordinates(), r.get_detector_coordinates()
    for i, k in enumerate(spec["perm"]):
        require(c1.get(i) == c0.get(k), "detector coordinates", before=c0, after=c1)
    strip = [l for l in before.split("\n") if not l.startswith("DETECTOR")]
    require([str(i) for i in stim.Circuit("\n".join(strip))] ==
            [str(i) for i in r if i.name != "DETECTOR"], "other instructions changed", after=str(r))
    return ["permuted"] if spec["perm"] != sorted(spec["perm"]) else []


# ------------------------------------------------------------------ detector search

@st.composite
def find_specs(draw):
    nd, na = draw(st.sampled_from([2, 3, 3])), draw(st.sampled_from([1, 2]))
    n = nd + na
    checks = []
    for _ in range(na):
        qs = draw(st.permutations(range(nd)))[:draw(st.sampled_from([1, 2, min(3, nd)]))]
        checks.append([draw(st.sampled_from("ZZX")), list(qs)])
    ops = []
    kind = draw(st.sampled_from(["code", "code", "free"]))
    between, rounds = [], 1
    rec = 0
    if kind == "code":
        for q in range(nd):
            for g in draw(st.sampled_from([[], [], ["x"], ["h"], ["h", "z"]])):
                ops.append(["g", g, [q]])
        rounds = draw(st.sampled_from([1, 2, 3]))
        for r in range(rounds):
            for a, (basis, qs) in enumerate(checks):
                ops.append(["r", nd + a])
            for a, (basis, qs) in enumerate(checks):
                if basis == "X":
                    ops.append(["g", "h", [nd + a]])
                for q in qs:
                    ops.append(["g", "cx", [q, nd + a] if basis == "Z" else [nd + a, q]])
                if basis == "X":
                    ops.append(["g", "h", [nd + a]])
            for a in range(na):
                ops.append(["m", nd + a, rec])
                rec += 1
            between.append(draw(st.booleans()))
            if between[-1]:
                ops.append(["g", draw(st.sampled_from(["x", "z", "s"])), [draw(st.sampled_from(range(nd)))]])
        if draw(st.booleans()):
            for q in range(nd):
                ops.append(["m", q, rec])
                rec += 1
    else:
        for _ in range(draw(st.sampled_from(range(5, 20)))):
            k = draw(st.sampled_from("gggggmmrr"))
            q = draw(st.sampled_from(range(n)))
            if k == "g":
                ops.append(_gate(draw, n))
            elif k == "r":
                ops.append(["r", q])
            elif rec < 7 and not (ops and ops[-1][:2] == ["m", q]):
                ops.append(["m", q, rec])
                rec += 1
        if not rec:
            ops.append(["m", 0, 0])
            rec = 1
    drop = draw(st.sampled_from([None, None, 0, rec - 1])) if rec > 1 else None
    return {"nd": nd, "na": na, "ops": ops, "kind": kind, "drop": drop, "checks": checks, "rounds": rounds,
            "between": between}


def spanned(target, sets):
    rows = [sum(1 << i for i in s) for s in sets]
    t = sum(1 << i for i in target)
    basis = []
    for v in rows:
        for b in basis:
            v = min(v, v ^ b)
        if v:
            basis.append(v)
    for b in sorted(basis, reverse=True):
        t = min(t, t ^ b)
    return t == 0


def check_find(spec):
    import qrisp
    from qrisp import QuantumArray, QuantumBool, measure, reset
    from qrisp.jasp import extract_stim, jaspify
    from qrisp.misc.stim_tools import find_detectors
    nd, na, ops = spec["nd"], spec["na"], spec["ops"]
    nm = sum(1 for op in ops if op[0] == "m")
    kept = [i for i in range(nm) if i != spec["drop"]]

    def body(d, a):
        qb = [d[i] for i in range(nd)] + [a[i] for i in range(na)]
        ms = []
        for op in ops:
            if op[0] == "g":
                getattr(qrisp, op[1])(*[qb[q] for q in op[2]])
            elif op[0] == "r":
                reset(qb[op[1]])
            else:
                ms.append(measure(qb[op[1]]))
        return tuple(ms[i] for i in kept)

    searched = find_detectors(body)

    def main():
        d = QuantumArray(qtype=QuantumBool(), shape=(nd,))
        a = QuantumArray(qtype=QuantumBool(), shape=(na,))
        return searched(d, a)

    out = extract_stim(main)()
    circ = out[-1]
    dets, _, m = tables(circ)
    require(m == nm, "number of measurements", circuit=str(circ))
    require([int(i) for x in out[1:-1] for i in np.ravel(x)] == kept, "measurement handles", observed=str(out[1:-1]), circuit=str(circ))
    dist, _ = reference(nd + na, ops)
    judge_records(circ, dist, "extracted circuit", 300 if len(dist) < 20 else 1000)
    require(len(out[0]) == len(dets), "number of detectors", observed=(str(out[0]), str(circ)))
    value = None
    for rec in dets:
        vals = {sum(r[i] for i in rec) % 2 for r in dist}
        require(len(vals) == 1, "a reported detector is not deterministic", records=sorted(rec), circuit=str(circ))
        require(rec <= set(kept), "a detector uses a measurement that is not returned", records=sorted(rec))
        value = value or vals == {1}
    if spec["kind"] == "code":
        # repetitions of a parity check without anything in between are found
        if spec["drop"] is None and all(b == "Z" for b, _ in spec["checks"]):
            for r in range(spec["rounds"] - 1):
                if not spec["between"][r]:
                    for a in range(na):
                        require(spanned({r * na + a, (r + 1) * na + a}, dets), "repeated parity check not found",
                                records=[r * na + a, (r + 1) * na + a], observed=str(dets), circuit=str(circ))
        require(spec["drop"] is not None or len(dets) == len({frozenset(r) for r in dets}), "the same detector is reported twice", observed=str(dets))
    labels = [f"{spec['kind']} {min(len(dets), 3)}{'+' if len(dets) > 2 else ''} detectors"] if dets else []
    if value:
        # detectors with parity 1 are declared with that expectation: a noiseless run reports no deviation
        def run():
            return main()[0]
        try:
            res = jaspify(run)()
        except Exception as e:
            require("expectation deviated" not in str(e), "a noiseless run deviates from the expectation of a detector",
                    error=str(e), circuit=str(circ))
            raise
        require(not any(bool(x) for x in res), "a detector fires in a noiseless run", observed=str(res))
        labels.append("odd detector")
    return labels


FACETS = [
    Facet("convert", convert_specs(), check_convert, quick=500, weight=1.0),
    Facet("extract", extract_specs(), check_extract, quick=200, weight=3.0),
    Facet("permute", permute_specs(), check_permute, quick=300, weight=1.0),
    Facet("find", find_specs(), check_find, quick=120, weight=3.0),
]
