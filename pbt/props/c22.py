"""C22: backends return each caller exactly the results of their own circuits."""

import itertools
import math

from hypothesis import strategies as st

from ..core import Facet, raises, require

PROPERTY = "C22"
RULE = (
    "Circuits of uniformly random bits followed by reversible gates, measurements, resets and conditioned flips, whose exact outcome "
    "distribution is enumerated classically. (direct) one or several circuits with common, individual or default shots on the simulator, Qiskit, "
    "Stim, QASM-function and user-written backends. (batch) histories of queueing, dispatching, clearing, option changes and reading on batched "
    "backends, with per-job circuit limits and failing circuits, against a model of every result. (measure) variables, arrays and joint "
    "measurements decoded through batched and non-batched backends including ones with space-separated registers. (jobs) user-written asynchronous "
    "jobs driven through their states. Non-trivial: several circuits, or several differing outcomes, or a failure."
)


# ------------------------------------------------------------------ circuits


@st.composite
def circuit(draw, cif=True, reset=True):
    n = draw(st.sampled_from([1, 2, 3, 4]))
    m = draw(st.sampled_from([1, 2, 3, 4]))
    q = st.sampled_from(range(n))
    ops = [["h", i] for i in range(n) if draw(st.sampled_from([True, False, False]))][:3]
    for _ in range(draw(st.sampled_from([2, 3, 4, 6]))):
        k = draw(st.sampled_from(["x", "x", "cx", "swap", "measure"] + (["cif"] if cif else []) + (["reset"] if reset else [])))
        if k in ("cx", "swap"):
            if n > 1:
                p = list(draw(st.permutations(range(n))))
                ops.append([k, p[0], p[1]])
        elif k == "measure":
            ops.append(["measure", draw(q), draw(st.sampled_from(range(m)))])
        elif k == "cif":
            done = sorted({o[2] for o in ops if o[0] == "measure"})
            if done:
                ops.append(["cif", draw(q), draw(st.sampled_from(done)), draw(st.sampled_from([0, 1, 1]))])
        else:
            ops.append([k, draw(q)])
    for c in draw(st.permutations(range(m))):
        ops.append(["measure", draw(q), c])
    return {"n": n, "m": m, "ops": ops}


def build(c):
    from qrisp import QuantumCircuit
    from qrisp.circuit import XGate

    qc = QuantumCircuit(c["n"], c["m"])
    for o in c["ops"]:
        if o[0] == "cif":
            qc.append(XGate().c_if(1, str(o[3])), [qc.qubits[o[1]]], [qc.clbits[o[2]]])
        elif o[0] == "measure":
            qc.measure(qc.qubits[o[1]], qc.clbits[o[2]])
        else:
            getattr(qc, o[0])(*[qc.qubits[i] for i in o[1:]])
    return qc


def outcomes(c):
    """Exact distribution {bit string: probability}."""
    hs = [o[1] for o in c["ops"] if o[0] == "h"]
    res = {}
    for bits in itertools.product((0, 1), repeat=len(hs)):
        q, cl = [0] * c["n"], [0] * c["m"]
        for i, b in zip(hs, bits):
            q[i] = b
        for o in c["ops"]:
            if o[0] == "x":
                q[o[1]] ^= 1
            elif o[0] == "cx":
                q[o[2]] ^= q[o[1]]
            elif o[0] == "swap":
                q[o[1]], q[o[2]] = q[o[2]], q[o[1]]
            elif o[0] == "measure":
                cl[o[2]] = q[o[1]]
            elif o[0] == "reset":
                q[o[1]] = 0
            elif o[0] == "cif":
                q[o[1]] ^= int(cl[o[2]] == o[3])
        key = "".join(map(str, reversed(cl)))
        res[key] = res.get(key, 0) + 0.5 ** len(hs)
    return res


def alloc(dist, shots):
    """Deterministic counts of a user-written backend."""
    keys = sorted(dist)
    out = {k: int(dist[k] * shots) for k in keys}
    out[keys[-1]] += shots - sum(out.values())
    return {k: v for k, v in out.items() if v}


def judge(got, want, shots, what):
    got = dict(got)
    require(all(isinstance(k, str) for k in got), f"{what}: keys are not bit strings", got=got)
    require(set(got) <= set(want), f"{what}: impossible outcome", got=got, want=want)
    if shots is None:
        require(set(got) == set(want), f"{what}: outcome missing", got=got, want=want)
        for k in want:
            require(abs(got[k] - want[k]) < 1e-3, f"{what}: probability", key=k, got=got[k], want=want[k])
        return
    require(abs(sum(got.values()) - shots) < 1e-6, f"{what}: counts do not sum to the shots", got=got, shots=shots)
    for k in want:
        sigma = math.sqrt(shots * want[k] * (1 - want[k]))
        require(abs(got.get(k, 0) - shots * want[k]) <= 7 * sigma + 1e-6, f"{what}: frequency", key=k, got=got.get(k, 0), want=shots * want[k])


class Boom(Exception):
    pass


def custom_backend(limit=None, fail=(), spaces=False, default=64, log=None, per_circuit=True):
    """A user-written backend: exact probabilities of the default simulator, deterministic counts."""
    from qrisp import QuantumCircuit
    from qrisp.interface import Backend, Job, JobResult, JobStatus
    from qrisp.default_backend import def_backend

    class J(Job):
        def __init__(self, backend, data, error):
            super().__init__(backend)
            self.data, self.error = data, error
            self._last_known_status = JobStatus.ERROR if error else JobStatus.DONE
            self._failure_cause = error

        def result(self, timeout=None):
            self._raise_for_status(self._last_known_status)
            return JobResult(self.data)

        def cancel(self):
            return False

        def status(self):
            return self._last_known_status

    class B(Backend):
        @classmethod
        def _default_options(cls):
            return {"shots": default, "extra": 1}

        @property
        def max_circuits(self):
            return limit

        def run_async(self, circuits, shots=None):
            self._check_circuit_limit(circuits)
            circuits = [circuits] if isinstance(circuits, QuantumCircuit) else list(circuits)
            if isinstance(shots, list):
                self._validate_shots_length(shots, circuits)
                sl = shots
            else:
                sl = [shots if shots is not None else self.options["shots"]] * len(circuits)
            if log is not None:
                log.append((len(circuits), list(sl)))
            data = []
            for qc, s in zip(circuits, sl):
                if id(qc) in fail:
                    return J(self, None, Boom("rejected circuit"))
                dist = dict(def_backend.run(qc, None))
                counts = dist if s is None else alloc({k: round(v, 4) for k, v in dist.items()}, s)
                if spaces:
                    counts = {" ".join(k): v for k, v in counts.items()}
                data.append(counts)
            return J(self, data, None)

    return B()


def make_backend(kind, **kw):
    import warnings

    from qrisp import QuantumCircuit
    from qrisp.default_backend import def_backend
    from qrisp.interface import QiskitBackend, QrispSimulatorBackend, StimBackend, VirtualBackend

    if kind == "sim":
        return QrispSimulatorBackend()
    if kind == "simpm":
        from qrisp import PassManager, fuse_adjacents

        pm = PassManager()
        pm += fuse_adjacents
        return QrispSimulatorBackend(pm=pm)
    if kind == "qiskit":
        return QiskitBackend()
    if kind == "stim":
        return StimBackend()
    if kind == "virtual":

        def run_func(qasm, shots=None, token=""):
            return dict(def_backend.run(QuantumCircuit.from_qasm_str(qasm), shots))

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return VirtualBackend(run_func)
    return custom_backend(**kw)


DEFAULT = {"sim": None, "simpm": None, "qiskit": 1024, "stim": 10000, "virtual": None, "custom": 64}
KINDS = ["sim", "sim", "simpm", "qiskit", "stim", "virtual", "custom"]


def legal(kind, c):
    """Restrict a circuit to what the format of the backend can express."""
    ops = c["ops"]
    if kind in ("virtual",):
        ops = [o for o in ops if o[0] != "cif"]
    return {**c, "ops": ops}


# ------------------------------------------------------------------ direct


@st.composite
def direct_case(draw):
    kind = draw(st.sampled_from(KINDS))
    cs = [legal(kind, draw(circuit())) for _ in range(draw(st.sampled_from([1, 2, 3, 4])))]
    return {
        "kind": kind,
        "circuits": cs,
        "shots": draw(st.sampled_from(["none", "int", "list", "option"])),
        "values": [draw(st.sampled_from([1, 2, 7, 100, 500, 1001])) for _ in cs],
        "seq": draw(st.sampled_from(["list", "tuple", "single"])),
        "api": draw(st.sampled_from(["run", "async", "qc.run"])),
        "order": list(draw(st.permutations(range(len(cs))))),
        "poll": draw(st.sampled_from(["status", "done", "cancel", "none", "twice"])),
    }


def check_direct(spec):
    import warnings

    from qrisp.interface import JobStatus

    kind = spec["kind"]
    B = make_backend(kind)
    cs = spec["circuits"]
    if spec["seq"] == "single":
        cs = cs[:1]
    qcs = [build(c) for c in cs]
    sizes = [len(qc.data) for qc in qcs]
    default = DEFAULT[kind]
    if spec["shots"] == "option":
        B.update_options(shots=spec["values"][0])
        default = spec["values"][0]
    shots = None
    per = [default] * len(cs)
    if spec["shots"] == "int":
        shots = spec["values"][0]
        per = [shots] * len(cs)
    elif spec["shots"] == "list" and spec["api"] == "async":
        shots = spec["values"][: len(cs)]
        per = list(shots) if kind != "qiskit" else [max(shots)] * len(cs)
    arg = qcs[0] if spec["seq"] == "single" else (tuple(qcs) if spec["seq"] == "tuple" else qcs)
    what = f"{kind}.{spec['api']}"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if spec["api"] == "async":
            job = B.run_async(arg, shots)
            require(job.status() != JobStatus.INITIALIZING, f"{what}: job still initialising")
            if spec["poll"] == "cancel" and kind != "qiskit":
                require(job.cancel() is False, "finished job cancelled")
            elif spec["poll"] == "done":
                job.done(), job.running(), job.refresh()
            res = job.result()
            require(job.status() == JobStatus.DONE and job.done() and job.in_final_state(), f"{what}: finished job is not done", status=str(job.status()))
            require(job.last_known_status == JobStatus.DONE, f"{what}: cached status")
            require(not job.running() and not job.queued() and not job.cancelled(), f"{what}: contradictory status")
            require(res is not None and res.num_circuits == len(cs), f"{what}: number of results", got=None if res is None else res.num_circuits)
            got = [res.get_counts(i) for i in range(len(cs))]
            require(raises(lambda: res.get_counts(len(cs)), IndexError), f"{what}: result index out of range accepted")
            require(got == res.all_counts, f"{what}: get_counts and all_counts differ")
            require(job.result().all_counts == got, f"{what}: second read differs")
            if kind not in ("qiskit",):
                require(job.cancel() is False and job.result().all_counts == got, f"{what}: cancel after completion changed the job")
        elif spec["api"] == "qc.run" and spec["seq"] == "single":
            got = [qcs[0].run(shots=shots, backend=B)]
        else:
            got = B.run(arg, shots=shots)
            if spec["seq"] == "single":
                got = [got]
            else:
                require(isinstance(got, list) and len(got) == len(cs), f"{what}: number of results")
    for i in spec["order"]:
        if i < len(cs):
            judge(got[i], outcomes(cs[i]), per[i], what)
    require([len(qc.data) for qc in qcs] == sizes, f"{what}: submitted circuits were modified")
    # invalid shot counts are refused
    require(raises(lambda: B.run(qcs[0], shots=0), ValueError), f"{what}: zero shots accepted")
    require(raises(lambda: B.run(qcs[0], shots=-3), ValueError), f"{what}: negative shots accepted")
    require(raises(lambda: B.run(qcs[0], shots=2.5), TypeError), f"{what}: fractional shots accepted")
    if kind != "custom":
        require(raises(lambda: B.run_async(qcs, [1] * (len(cs) + 1)), ValueError), f"{what}: wrong number of shot counts accepted")
    labels = {kind, spec["api"], "shots_" + spec["shots"]}
    if len(cs) > 1 and len({tuple(sorted(outcomes(c))) for c in cs}) > 1:
        labels.add("different circuits")
    elif all(len(outcomes(c)) == 1 for c in cs):
        return []
    return sorted(labels)


# ------------------------------------------------------------------ batch


@st.composite
def batch_case(draw):
    kind = draw(st.sampled_from(["custom", "custom", "custom", "custom", "sim", "stim", "qiskit", "virtual"]))
    steps = []
    for _ in range(draw(st.sampled_from([3, 5, 8, 10]))):
        k = draw(st.sampled_from(["run", "run", "run", "list", "list", "dispatch", "dispatch", "read", "clear", "options", "measure"]))
        if k == "run":
            steps.append(["run", legal(kind, draw(circuit())), draw(st.sampled_from([None, None, 8, 8, 64, 100]))])
        elif k == "list":
            steps.append(["list", [legal(kind, draw(circuit())) for _ in range(draw(st.sampled_from([1, 2, 3])))], draw(st.sampled_from([None, 8, 40]))])
        elif k == "options":
            steps.append(["options", draw(st.sampled_from([16, 32, 128]))])
        elif k == "measure":
            steps.append(["measure", draw(st.integers(0, 7)), draw(st.sampled_from([None, 8]))])
        else:
            steps.append([k])
    return {
        "kind": kind,
        "steps": steps,
        "limit": draw(st.sampled_from([None, None, 1, 2, 3, 100])),
        "fail": draw(st.sampled_from([-1, -1, -1, 0, 1, 2, 3, 4])),
        "order": draw(st.integers(0, 1000)),
    }


def check_batch(spec):
    import random
    import warnings

    from qrisp import QuantumFloat

    kind = spec["kind"]
    fail, log = set(), []
    B = make_backend(kind, limit=spec["limit"], fail=fail, log=log) if kind == "custom" else make_backend(kind)
    limit = spec["limit"] if kind == "custom" else None
    bb = B.batched()
    results = []  # [result, circuit/value, shots, state, requested shots]   state: pending, done, cleared, failed
    keep, queue, labels = [], [], {kind}
    default = DEFAULT[kind]
    counter = 0

    def read(r):
        res, want, shots, state = r[:4]
        if state == "done":
            if isinstance(want, int):
                require(dict(res) == {want: 1.0}, "batched measurement", got=dict(res), want=want)
                require(res[want] == 1.0 and len(res) == 1 and list(res) == [want], "mapping access of a batched measurement")
                return
            dist = outcomes(want)
            judge(res, dist, shots, f"batched {kind}")
            if kind == "custom":
                require(dict(res) == alloc({k: round(v, 4) for k, v in dist.items()}, shots), "batched user backend", got=dict(res))
            require(res == dict(res) and len(res) == len(dict(res)), "mapping access of a batched result")
        else:
            exc = Exception if state == "failed" else RuntimeError
            for f in (lambda: dict(res), lambda: len(res), lambda: list(res)):
                require(raises(f, exc), f"{state} result can be read")
            require("pending" in repr(res), f"{state} result has contents")

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        steps = []
        for s in spec["steps"]:
            if s[0] == "options" and DEFAULT[kind] is None:  # unresolved default: settle pending requests first
                steps.append(["dispatch"])
            steps.append(s)
        for s in steps + [["dispatch"], ["read"]]:
            if s[0] in ("run", "list"):
                cs = [s[1]] if s[0] == "run" else s[1]
                qcs = [build(c) for c in cs]
                keep += qcs
                for qc in qcs:
                    if counter == spec["fail"] and kind == "custom":
                        fail.add(id(qc))
                    counter += 1
                out = bb.run(qcs[0] if s[0] == "run" else qcs, shots=s[2])
                out = [out] if s[0] == "run" else out
                require(len(out) == len(cs), "number of queued results")
                for r, c, qc in zip(out, cs, qcs):
                    asked = s[2] if s[2] is not None else default
                    results.append([r, c, asked, "pending", asked])
                    queue.append((len(results) - 1, id(qc)))
            elif s[0] == "measure":
                qf = QuantumFloat(3)
                qf[:] = s[1]
                keep.append(qf)
                r = qf.get_measurement(backend=bb, shots=s[2])
                results.append([r, s[1], None, "pending", s[2] if s[2] is not None else default])
                queue.append((len(results) - 1, None))
            elif s[0] == "options":
                bb.update_options(shots=s[1])
                default = s[1]
                require(bb.options["shots"] == s[1] and B.options["shots"] == s[1], "option update not visible")
                require(raises(lambda: bb.update_options(shots=5, nonsense=1), AttributeError), "unknown option accepted")
                require(raises(lambda: bb.update_options(shots=0), ValueError), "invalid shots accepted as option")
                require(B.options["shots"] == s[1], "failed option update changed the options")
            elif s[0] == "clear":
                bb.clear()
                for i, _ in queue:
                    results[i][3] = "cleared"
                if queue:
                    labels.add("cleared")
                queue = []
            elif s[0] == "read":
                order = list(range(len(results)))
                random.Random(spec["order"]).shuffle(order)
                for i in order:
                    read(results[i])
            else:
                require(bb.pending_count == len(queue), "pending count", got=bb.pending_count, want=len(queue))
                size = limit or max(len(queue), 1)
                bad, mixed = None, len({results[i][4] for i, _ in queue}) > 1
                for j, (i, key) in enumerate(queue):
                    if key in fail and bad is None:
                        bad = j // size
                error = None
                try:
                    bb.dispatch()
                except Exception as e:
                    error = e
                require((error is not None) == (bad is not None), "dispatch raised" if bad is None else "dispatch swallowed an error", error=repr(error))
                for j, (i, key) in enumerate(queue):
                    results[i][3] = "done" if bad is None or j // size < bad else "failed"
                    if kind == "qiskit" and mixed and not isinstance(results[i][1], int):
                        results[i][2] = max(results[k][4] for k, _ in queue)
                if bad is not None:
                    labels.add("failure")
                if len(queue) > size:
                    labels.add("split")
                if mixed and len(queue) > 1:
                    labels.add("different shots")
                queue = []
                require(bb.pending_count == 0, "queue not empty after dispatch")
                require(limit is None or all(n <= limit for n, _ in log), "circuit limit exceeded", log=log)
    return sorted(labels) if len(results) > 1 else []


# ------------------------------------------------------------------ measurement


@st.composite
def measure_case(draw):
    return {
        "vars": [
            {"kind": draw(st.sampled_from(["float", "signed", "bool", "mod", "char", "plain", "array", "frac"])), "n": draw(st.sampled_from([1, 2, 3])), "h": draw(st.sampled_from([0, 0, 1, 2])), "x": draw(st.integers(0, 7))}
            for _ in range(draw(st.sampled_from([1, 2, 2, 3])))
        ],
        "backend": draw(st.sampled_from(["sim", "spaces", "spaces", "custom", "custom", "stim", "virtual"])),
        "shots": draw(st.sampled_from([None, 1, 64, 100])),
        "mode": draw(st.sampled_from(["single", "multi", "multi", "batched", "batched_multi", "batched_fn"])),
        "entangle": draw(st.booleans()),
        "mid": draw(st.booleans()),
    }


def check_measure(spec):
    import warnings

    import numpy as np
    from qrisp import (
        OutcomeArray,
        QuantumArray,
        QuantumBool,
        QuantumChar,
        QuantumFloat,
        QuantumModulus,
        QuantumVariable,
        batched_measurement,
        cx,
        h,
        merge,
        multi_measurement,
        x,
    )

    vs, regs, starts = [], [], []
    mode = spec["mode"]
    joint = mode in ("multi", "batched_multi")
    for v in spec["vars"]:
        n, k = v["n"], v["kind"]
        if k == "array":
            q = QuantumArray(QuantumFloat(2), shape=(n,))
            reg = sum([list(e.reg) for e in q.flatten()[::-1]], [])
        else:
            q = {
                "float": lambda: QuantumFloat(n),
                "frac": lambda: QuantumFloat(n, -2),
                "signed": lambda: QuantumFloat(n, -1, signed=True),
                "bool": QuantumBool,
                "mod": lambda: QuantumModulus([3, 5, 7][n - 1]),
                "char": QuantumChar,
                "plain": lambda: QuantumVariable(n),
            }[k]()
            reg = list(q.reg)
        vs.append(q)
        regs.append(reg)
    if joint or spec["entangle"]:
        merge([q.qs if not isinstance(q, QuantumArray) else q.qs for q in vs])
    # classical description: list of (offset bit patterns) - uniform bits, then flips and one CNOT
    for v, reg in zip(spec["vars"], regs):
        for i in range(min(v["h"], len(reg))):
            h(reg[i])
        for i in range(min(3, len(reg))):
            if v["x"] >> i & 1:
                x(reg[i])
    ent = spec["entangle"] and len(vs) > 1
    if ent:
        cx(regs[0][0], regs[-1][-1])
    hb = [(j, i) for j, (v, reg) in enumerate(zip(spec["vars"], regs)) for i in range(min(v["h"], len(reg)))]
    table = []
    for bits in itertools.product((0, 1), repeat=len(hb)):
        val = [0] * len(vs)
        for (j, i), b in zip(hb, bits):
            val[j] |= b << i
        for j, v in enumerate(spec["vars"]):
            val[j] ^= v["x"] & ((1 << min(3, len(regs[j]))) - 1)
        if ent:
            val[-1] ^= (val[0] & 1) << (len(regs[-1]) - 1)
        table.append(val)

    def label(j, i):
        out = vs[j].decoder(i)
        return OutcomeArray(out) if isinstance(out, np.ndarray) and not isinstance(out, OutcomeArray) else out

    def key(lab):
        return repr(lab)

    def want(js):
        d = {}
        for val in table:
            k = key(tuple(label(j, val[j]) for j in js)) if joint else key(label(js[0], val[js[0]]))
            d[k] = d.get(k, 0) + 1 / len(table)
        return d

    spaces = spec["backend"] == "spaces"
    B = custom_backend(spaces=spaces, default=None if spec["shots"] is None else 64) if spec["backend"] in ("custom", "spaces") else make_backend(spec["backend"])
    exact = spec["shots"] is None and spec["backend"] != "stim"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        target = B.batched() if mode.startswith("batched") else B
        if joint:
            groups = [list(range(len(vs)))]
            res = [multi_measurement(vs, shots=spec["shots"], backend=target)]
        elif mode == "batched_fn":
            groups = [[j] for j in range(len(vs))]
            res = batched_measurement(vs, backend=target, shots=spec["shots"])
        else:
            groups = [[j] for j in range(len(vs))]
            res = [q.get_measurement(backend=target, shots=spec["shots"]) for q in vs]
        if mode in ("batched", "batched_multi"):
            for r in res:
                require(raises(lambda: dict(r), RuntimeError), "measurement readable before dispatch")
            target.dispatch()
    shots = spec["shots"] or (10000 if spec["backend"] == "stim" else None)
    for js, r in zip(groups, res):
        w = want(js)
        for _ in range(2):
            got = {}
            last = None
            for k, p in r.items():
                require(key(k) not in got or "nan" in key(k), "label listed twice", label=key(k))
                got[key(k)] = got.get(key(k), 0) + p
                require(last is None or p <= last + 1e-9, "outcomes not sorted by probability", got=dict(r))
                last = p
            require(set(got) <= set(w), f"{mode} measurement: impossible outcome", got=got, want=w)
            require(abs(sum(got.values()) - 1) < 2e-3, f"{mode} measurement: probabilities do not sum to 1", got=got)
            for k in w:
                tol = 1e-3 if exact else 7 * math.sqrt(w[k] * (1 - w[k]) / shots) + 2e-3 + (len(w) / shots if spec["backend"] in ("custom", "spaces") else 0)
                require(abs(got.get(k, 0) - w[k]) <= tol, f"{mode} measurement: probability", label=k, got=got, want=w)
    labels = {mode, spec["backend"]} | {v["kind"] for v in spec["vars"]}
    return sorted(labels) if len(table) > 1 or len(vs) > 1 else []


# ------------------------------------------------------------------ asynchronous jobs


@st.composite
def jobs_case(draw):
    jobs = draw(st.sampled_from([1, 2, 3]))
    steps = [
        [draw(st.sampled_from(["advance", "advance", "advance", "cancel", "fail", "status", "result"])), draw(st.sampled_from(range(jobs)))]
        for _ in range(draw(st.sampled_from([3, 6, 10])))
    ]
    return {"circuits": [draw(circuit()) for _ in range(jobs)], "steps": steps, "shots": draw(st.sampled_from([5, 50]))}


def check_jobs(spec):
    from qrisp import QuantumCircuit
    from qrisp.default_backend import def_backend
    from qrisp.interface import Backend, Job, JobCancelledError, JobFailureError, JobResult, JobStatus

    class J(Job):
        def __init__(self, backend, qc, shots, job_id):
            super().__init__(backend, job_id=job_id, note=shots)
            self.qc, self.shots, self.live = qc, shots, JobStatus.QUEUED
            self._last_known_status = JobStatus.QUEUED

        def result(self, timeout=None):
            if self.live not in JobStatus.final_states():
                raise TimeoutError
            self._last_known_status = self.live
            self._raise_for_status(self.live)
            return JobResult([alloc({k: round(v, 4) for k, v in dict(def_backend.run(self.qc, None)).items()}, self.shots)], shots=self.shots)

        def cancel(self):
            if self.live in JobStatus.final_states():
                return False
            self.live = JobStatus.CANCELLED
            return True

        def status(self):
            self._last_known_status = self.live
            return self.live

    class B(Backend):
        n = 0

        def run_async(self, circuits, shots=None):
            B.n += 1
            return J(self, circuits, shots if shots is not None else self.options["shots"], f"job{B.n}")

    backend = B(options={"shots": 12})
    jobs = [backend.run_async(build(c), spec["shots"]) for c in spec["circuits"]]
    model = [JobStatus.QUEUED] * len(jobs)
    cached = [JobStatus.QUEUED] * len(jobs)
    labels = set()
    for act, i in spec["steps"] + [["result", i] for i in range(len(jobs))]:
        j = jobs[i]
        if act == "advance":
            if model[i] == JobStatus.QUEUED:
                model[i] = j.live = JobStatus.RUNNING
            elif model[i] == JobStatus.RUNNING:
                model[i] = j.live = JobStatus.DONE
        elif act == "fail":
            if model[i] not in JobStatus.final_states():
                model[i] = j.live = JobStatus.ERROR
                j._failure_cause = Boom("device")
                labels.add("failure")
        elif act == "cancel":
            want = model[i] not in JobStatus.final_states()
            require(j.cancel() is want, "cancel result")
            if want:
                model[i] = JobStatus.CANCELLED
                labels.add("cancelled")
        elif act == "result":
            if model[i] == JobStatus.DONE:
                r = j.result()
                require(r.get_counts() == alloc(outcomes(spec["circuits"][i]), spec["shots"]), "result of another job", got=r.get_counts())
                require(r.metadata == {"shots": spec["shots"]}, "result metadata")
                labels.add("done")
            else:
                exc = {JobStatus.ERROR: JobFailureError, JobStatus.CANCELLED: JobCancelledError}.get(model[i], TimeoutError)
                require(raises(j.result, exc), f"result of a job in state {model[i].name}")
                if model[i] == JobStatus.ERROR:
                    try:
                        j.result()
                    except JobFailureError as e:
                        require(isinstance(e.__cause__, Boom), "cause of a failure lost")
            if model[i] in JobStatus.final_states():
                cached[i] = model[i]
        else:
            require(j.refresh() == model[i], "status")
            cached[i] = model[i]
        require(j.last_known_status == cached[i], "cached status", got=str(j.last_known_status), want=str(cached[i]))
        if act == "status":
            require(j.done() == (model[i] == JobStatus.DONE) and j.running() == (model[i] == JobStatus.RUNNING), "status predicates")
            require(j.queued() == (model[i] == JobStatus.QUEUED) and j.cancelled() == (model[i] == JobStatus.CANCELLED), "status predicates")
            require(j.in_final_state() == (model[i] in JobStatus.final_states()), "final state predicate")
    require(len({j.job_id for j in jobs}) == len(jobs) and all(j.backend is backend for j in jobs), "job identity")
    require(backend.options == {"shots": 12}, "options")
    return sorted(labels)


FACETS = [
    Facet("direct", direct_case(), check_direct, quick=250, weight=2.0),
    Facet("batch", batch_case(), check_batch, quick=250, weight=2.0),
    Facet("measure", measure_case(), check_measure, quick=250, weight=2.0),
    Facet("jobs", jobs_case(), check_jobs, quick=200),
]
