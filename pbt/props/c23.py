"""C23: algorithmic primitives act as their defining operator."""

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Reject, require
from .c05 import data_state
from .c11 import apply_all

PROPERTY = "C23"
RULE = (
    "(qft) Fourier transforms of 1-4 qubits with all options on random states. (reflect) reflections, diffusers, state tagging, amplitude amplification and Grover search with random state "
    "functions, oracles, phases, iteration numbers and reflection indices. (estimate) phase and amplitude estimation of random unitaries, distribution from the eigenvalues. (combine) linear combinations "
    "of unitaries with and without amplification. (switch) quantum switches with 1-8 branches, lists or functions, all methods, one or two operands, controlled and inverted. (move) demultiplexing, cyclic shifts "
    "and permutations. (order) order finding for small moduli. Written with and without tracing. Oracle: explicit matrices; auxiliary qubits must return to |0>. Non-trivial: more than one qubit involved."
)
TOL = 2e-3


# ------------------------------------------------------------------ layers of gates


def layer(seed, n):
    r = np.random.default_rng(seed)
    ops = []
    for i in range(n):
        ops.append(["ry", [i], [round(float(r.uniform(0.4, 2.7)), 4)]])
        ops.append(["p", [i], [round(float(r.uniform(-3, 3)), 4)]])
    for i in range(n - 1):
        a, b = (i, i + 1) if r.random() < 0.5 else (i + 1, i)
        ops.append(["cx", [a, b], []])
    return ops


def emit(ops, qubits):
    import qrisp

    for name, qb, par in ops:
        f = getattr(qrisp, name)
        f(*par, *[qubits[i] for i in qb])


def vector(ops, n, psi=None):
    if psi is None:
        psi = np.zeros(2**n, dtype=complex)
        psi[0] = 1
    return apply_all(ops, psi, n)


def matrix(ops, n):
    return np.stack([vector(ops, n, e) for e in np.eye(2**n, dtype=complex)], axis=1)


def little_index(n):
    """permutation p with little-endian vector = big-endian vector[p]"""
    return [int(format(i, f"0{n}b")[::-1] or "0", 2) for i in range(2**n)]


class Qubits:
    """qubits of several variables addressed by one running number"""

    def __init__(self, regs, sizes):
        self.where = [(r, i) for r, s in zip(regs, sizes) for i in range(s)]

    def __getitem__(self, i):
        r, k = self.where[i]
        return r[k]

    def __len__(self):
        return len(self.where)

    def __iter__(self):
        return (self[i] for i in range(len(self)))


def run(spec, main, what):
    """state of the variables returned by main, big-endian in their order"""
    if spec.get("traced"):
        from qrisp.jasp import make_jaspr

        *regs, qc = make_jaspr(main)().to_qc()
        if any(i.op.name == "measure" for i in qc.data):
            # measurement-based uncomputation: no pure state to compare with
            raise Reject()
        qubits = [q for r in regs for q in r]
        return data_state(qc, qubits, what)
    out = main()
    out = out if isinstance(out, tuple) else (out,)
    qs = out[0].qs
    for v in out[1:]:
        require(v.qs is qs, what + ": variables are in different sessions")
    return data_state(qs.compile() if spec["seed"] % 2 or spec.get("how") == "adder" else qs.copy(), [q for v in out for q in v], what)


def same(got, want, what, **info):
    want = np.asarray(want).reshape(-1)
    ov = np.vdot(want, got)
    require(abs(abs(ov) - np.vdot(want, want).real) < TOL and abs(np.linalg.norm(got) - 1) < TOL, what, overlap=float(abs(ov)), **info)


def kron(*ms):
    out = np.eye(1)
    for m in ms:
        out = np.kron(out, m)
    return out


def with_control(U, ctrl):
    """one control qubit in front of the register, unless ctrl is false"""
    if not ctrl:
        return U
    d = U.shape[0]
    Z = np.zeros((2 * d, 2 * d), dtype=complex)
    Z[:d, :d] = np.eye(d)
    Z[d:, d:] = U
    return Z


# ------------------------------------------------------------------ QFT


@st.composite
def qft_case(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    return {
        "n": n,
        "inv": draw(st.booleans()),
        "swap": draw(st.sampled_from([True, True, False])),
        "endian": draw(st.sampled_from([True, True, False])),
        "mult": draw(st.sampled_from([1, 1, 3, 5, 7])),
        "how": draw(st.sampled_from(["plain", "plain", "gms", "adder"])),
        "ctrl": draw(st.booleans()),
        "list": draw(st.booleans()),
        "traced": draw(st.sampled_from([False, False, True])),
        "seed": draw(st.integers(0, 10**6)),
    }


def qft_matrix(n, mult, swap, endian):
    N = 2**n
    F = np.exp(2j * np.pi * mult * np.outer(np.arange(N), np.arange(N)) / N) / np.sqrt(N)
    rev = little_index(n)
    if not swap:
        F = F[rev, :]
    if not endian:
        F = F[rev, :][:, rev]
    # F acts on the integer of the register (first qubit = lowest bit)
    return F[rev, :][:, rev]


def check_qft(s):
    from qrisp import QFT, QuantumBool, QuantumFloat, control, cuccaro_adder, gidney_adder, h

    n = s["n"]
    if s["traced"]:
        s = {**s, "how": "plain"}
    elif s["how"] == "adder":
        # uncontrolled, the many scratch qubits stay inside one composite gate
        s = {**s, "mult": 1, "ctrl": True, "n": min(n, 3)}
        n = s["n"]
    elif s["how"] == "gms":
        s = {**s, "ctrl": False}
    kw = {"inv": s["inv"], "exec_swap": s["swap"], "qiskit_endian": s["endian"], "inplace_mult": s["mult"]}
    if s["how"] == "gms":
        kw["use_gms"] = True
    if s["how"] == "adder":
        kw["inpl_adder"] = gidney_adder if s["seed"] % 3 else cuccaro_adder
    ops = layer(s["seed"], n)

    def main():
        c = QuantumBool()
        v = QuantumFloat(n)
        emit(ops, v)
        h(c)
        arg = list(v) if s["list"] and not s["traced"] else v
        if s["ctrl"]:
            with control(c):
                QFT(arg, **kw)
        else:
            QFT(arg, **kw)
        if s["traced"]:
            return c.reg, v.reg
        from qrisp import merge

        merge([c.qs, v.qs])
        return c, v

    F = qft_matrix(n, s["mult"], s["swap"], s["endian"])
    if s["inv"]:
        F = F.conj().T
    psi = vector(ops, n)
    want = np.concatenate([psi if s["ctrl"] else F @ psi, F @ psi]) / np.sqrt(2)
    same(run(s, main, "Fourier transform"), want, "Fourier transform")
    return {k for k in ("inv", "ctrl", "traced", "list") if s[k]} | {s["how"]} if n > 1 else set()


# ------------------------------------------------------------------ reflections


@st.composite
def reflect_case(draw):
    sizes = draw(st.sampled_from([[1], [2], [3], [1, 2], [2, 1], [1, 1, 1], [2, 2], [4]]))
    k = len(sizes)
    return {
        "sizes": sizes,
        "what": draw(st.sampled_from(["reflection", "reflection", "diffuser", "tag", "amplify", "amplify", "grover", "grover"])),
        "array": draw(st.sampled_from([False, False, True])) and len(set(sizes)) == 1,
        "fn": draw(st.booleans()),
        "phase": draw(st.sampled_from([None, None, 0.7, -2.1, 3.0])),
        "idx": draw(st.sampled_from([None, None] + [[i] for i in range(k)] + [list(range(k))[::-1]])),
        "iters": draw(st.sampled_from([0, 1, 1, 2, 3])),
        "ctrl": draw(st.booleans()),
        "marked": draw(st.sampled_from([1, 1, 2, 3])),
        "exact": draw(st.booleans()),
        "auto": draw(st.booleans()),
        "traced": draw(st.sampled_from([False, False, True])),
        "seed": draw(st.integers(0, 10**6)),
    }


def reflection_matrix(sizes, U, phase, idx):
    """U diag U^dag with the phase on the states whose indexed variables are zero, times -1"""
    n = sum(sizes)
    D = np.ones(2**n, dtype=complex)
    starts = np.cumsum([0] + sizes)
    qb = [q for i in idx for q in range(starts[i], starts[i] + sizes[i])]
    for b in range(2**n):
        bits = format(b, f"0{n}b")
        if all(bits[q] == "0" for q in qb):
            D[b] = np.exp(1j * phase)
    return -(U @ np.diag(D) @ U.conj().T)


def check_reflect(s):
    from qrisp import QuantumArray, QuantumBool, QuantumFloat, amplitude_amplification, control, h, merge, reflection
    from qrisp.grover import diffuser, grovers_alg, tag_state

    sizes = s["sizes"]
    n = sum(sizes)
    k = len(sizes)
    what = s["what"]
    ph = np.pi if s["phase"] is None else s["phase"]
    r = np.random.default_rng(s["seed"])
    prep, fops = layer(s["seed"], n), layer(s["seed"] + 1, n)
    cond = {"array": s["array"] and not (s["traced"] or what == "tag")}
    idx = s["idx"] if s["idx"] is not None else list(range(k))
    tag = [[int(r.integers(0, 2**z)) for z in sizes] for _ in range(s["marked"])]
    tag = [list(t) for t in dict.fromkeys(tuple(t) for t in tag)]
    ctrl = s["ctrl"] and what in ("reflection", "diffuser", "tag")
    if s["traced"] and (s["ctrl"] and what == "tag" or k > 2 and what != "tag"):
        ctrl = False
    if s["traced"] and max(sizes) > 3:
        raise Reject()

    def fn(*args):
        regs = flat(args)
        emit(fops, Qubits(regs, sizes))

    def flat(args):
        out = []
        for a in args:
            if isinstance(a, QuantumArray):
                out += list(a.flatten())
            else:
                out.append(a)
        return out

    def oracle(*args, phase=None):
        args = args[0] if len(args) == 1 and isinstance(args[0], (list, tuple)) else args
        regs = flat(args)
        for t in tag:
            kw = {} if phase is None else {"phase": phase}
            tag_state(dict(zip(regs, t)), **kw)

    def oracle_matrix(phase):
        D = np.ones(2**n, dtype=complex)
        for t in tag:
            b = "".join(format(v, f"0{z}b")[::-1] for v, z in zip(t, sizes))
            D[int(b, 2)] *= np.exp(1j * phase)
        return np.diag(D)

    H = kron(*[np.array([[1, 1], [1, -1]]) / np.sqrt(2)] * n)
    fU = matrix(fops, n)
    mode = {}

    def main():
        if cond["array"]:
            arr = QuantumArray(QuantumFloat(sizes[0]), (k,))
            vs = list(arr.flatten())
            arg = arr
        else:
            vs = [QuantumFloat(z) for z in sizes]
            arg = vs if k > 1 or s["auto"] else vs[0]
        c = QuantumBool()
        h(c)
        if not s["traced"]:
            merge([v.qs for v in vs] + [c.qs])
        if what == "grover":
            kw = {}
            if s["exact"]:
                kw = {"exact": True, "winner_state_amount": len(tag)}
            elif not s["auto"]:
                kw = {"iterations": s["iters"]}
            else:
                kw = {"winner_state_amount": len(tag)}
            grovers_alg(arg, oracle, **kw)
        else:
            emit(prep if what != "amplify" else fops, Qubits(vs, sizes))

        def act():
            if what == "reflection":
                kw = {} if s["phase"] is None else {"phase": ph}
                if s["idx"] is not None:
                    kw["reflection_indices"] = idx
                reflection(arg, fn if s["fn"] else None, **kw)
            elif what == "diffuser":
                kw = {} if s["phase"] is None else {"phase": ph}
                if s["idx"] is not None:
                    kw["reflection_indices"] = idx
                if s["fn"]:
                    kw["state_function"] = fn
                diffuser(arg, **kw)
            elif what == "tag":
                kw = {} if s["phase"] is None else {"phase": ph}
                if s["fn"] and not s["traced"]:
                    tag_state({v: format(t, f"0{v.size}b") for v, t in zip(vs, tag[0])}, binary_values=True, **kw)
                else:
                    tag_state(dict(zip(vs, tag[0])), **kw)
            elif what == "amplify":
                kw = {"iter": s["iters"]}
                if s["idx"] is not None:
                    kw["reflection_indices"] = idx
                amplitude_amplification(arg, fn, oracle, **kw)

        if ctrl:
            with control(c):
                act()
        else:
            act()
        if s["traced"]:
            return (c.reg, *[v.reg for v in vs])
        return (c, *vs)

    if what == "grover":
        N = 2**n
        M = len(tag)
        theta = np.arcsin(np.sqrt(M / N))
        psi = H[:, 0]
        want = None
        if s["exact"]:
            if M > N / 2 and False:
                raise Reject()
        elif s["auto"]:
            iters = round(np.pi / 4 * np.sqrt(N / M))
        else:
            iters = s["iters"]
        if not s["exact"]:
            want = psi
            G = reflection_matrix(sizes, H, np.pi, list(range(k))) @ oracle_matrix(np.pi)
            for _ in range(iters):
                want = G @ want
    elif what == "amplify":
        want = fU[:, 0]
        G = reflection_matrix(sizes, fU, np.pi, idx) @ oracle_matrix(np.pi)
        for _ in range(s["iters"]):
            want = G @ want
    else:
        psi = vector(prep, n)
        if what == "reflection":
            U = reflection_matrix(sizes, fU if s["fn"] else np.eye(2**n), ph, idx)
        elif what == "diffuser":
            U = reflection_matrix(sizes, fU if s["fn"] else H, ph, idx)
        else:
            del tag[1:]
            U = oracle_matrix(ph)
        want = U @ psi
    got = run(s, main, what)
    if what == "grover" and s["exact"]:
        P = np.abs(got.reshape(2, -1)) ** 2
        P = P.sum(axis=0)
        marked = [int("".join(format(v, f"0{z}b")[::-1] for v, z in zip(t, sizes)), 2) for t in tag]
        require(abs(P[marked].sum() - 1) < 3e-3, "exact Grover search does not find the marked states", p=float(P[marked].sum()))
        require(float(np.ptp(P[marked])) < 3e-3, "exact Grover search is not uniform on the marked states")
    else:
        psi0 = vector(prep, n) if what not in ("grover", "amplify") else None
        full = np.concatenate([psi0 if ctrl else want, want]) / np.sqrt(2)
        same(got, full, what)
    lab = {what} | {x for x, y in (("ctrl", ctrl), ("traced", s["traced"]), ("array", cond["array"]), ("indices", s["idx"] is not None)) if y}
    return lab if n > 1 else set()


# ------------------------------------------------------------------ estimation


@st.composite
def estimate_case(draw):
    return {
        "what": draw(st.sampled_from(["qpe", "qpe", "qae", "qae", "iqpe", "iqae"])),
        "n": draw(st.sampled_from([1, 2, 2])),
        "prec": draw(st.sampled_from([1, 2, 3, 3, 4])),
        "iter_spec": draw(st.booleans()),
        "target": draw(st.booleans()),
        "method": draw(st.sampled_from([None, None, "gray"])),
        "kwargs": draw(st.booleans()),
        "angles": draw(st.lists(st.sampled_from(range(16)), min_size=2, max_size=2)),
        "grid": draw(st.booleans()),
        "traced": draw(st.sampled_from([False, False, True])),
        "seed": draw(st.integers(0, 10**6)),
    }


def qpe_distribution(lams, weights, m):
    N = 2**m
    P = np.zeros(N)
    for lam, w in zip(lams, weights):
        a = np.array([sum(np.exp(1j * (lam - 2 * np.pi * k / N) * j) for j in range(N)) / N for k in range(N)])
        P += w * np.abs(a) ** 2
    return P


def value_distribution(s, main, m):
    """distribution of the integer of the returned register"""
    got = run(s, main, s["what"])
    return got


def check_estimate(s):
    import qrisp
    from qrisp import IQAE, IQPE, QAE, QPE, QuantumBool, QuantumFloat, QuantumVariable, p, ry, z
    from qrisp.jasp import jaspify, terminal_sampling

    n, m = s["n"], s["prec"]
    r = np.random.default_rng(s["seed"])
    if s["what"] in ("qpe", "iqpe"):
        if s["grid"] or s["what"] == "iqpe":
            ang = [2 * np.pi * a / 16 for a in s["angles"]]
        else:
            ang = [float(x) for x in r.uniform(-3, 3, size=2)]
        if s["what"] == "iqpe":
            m = 3
            bits = [int(b) for b in r.integers(0, 2, size=n)]

            def prog():
                v = QuantumVariable(n)
                for i in range(n):
                    if bits[i]:
                        qrisp.x(v[i])

                def U(v):
                    for i in range(n):
                        p(ang[i], v[i])

                return IQPE(v, U, precision=m)

            tot = sum(a * b for a, b in zip(s["angles"], bits)) / 16
            # the documented example returns the phase of U applied twice
            want = (2 * tot) % 1
            got = float(jaspify(prog)())
            require(min(abs(got - want), 1 - abs(got - want)) < 1e-6, "iterative phase estimation", got=got, want=want)
            return {"iqpe"} if tot else set()
        vops = layer(s["seed"], n)

        def U(v, iter=1, scale=1.0):
            with qrisp.conjugate(lambda q: emit(vops, q))(v):
                for i in range(n):
                    p(ang[i] * iter * scale, v[i])

        scale = 0.5 if s["kwargs"] else 1.0
        prep = layer(s["seed"] + 7, n)

        def main():
            v = QuantumVariable(n)
            emit(prep, v)
            kw = {"iter_spec": s["iter_spec"], "ctrl_method": s["method"] if not s["traced"] else None}
            if s["kwargs"]:
                kw["kwargs"] = {"scale": 0.5}
            if s["target"]:
                t = QuantumFloat(m, -m)
                QPE(v, U, target=t, **kw)
                res = t
            else:
                res = QPE(v, U, precision=m, **kw)
            return res if s["traced"] else res

        V = matrix(vops, n)
        psi = V.conj().T @ vector(prep, n)
        # basis state b (big-endian) of the diagonal
        V2 = V @ psi
        lams = [sum(ang[i] * scale for i in range(n) if format(b, f"0{n}b")[i] == "1") for b in range(2**n)]
        # conjugate(f) applies f, the body, f^-1: eigenvectors are f^-1 |b>
        w = np.abs(V @ vector(prep, n)) ** 2
        want = qpe_distribution(lams, w, m)
    elif s["what"] == "qae":
        fops = layer(s["seed"], n)
        marked = sorted({int(x) for x in r.integers(0, 2**n, size=int(r.integers(1, 3)))})

        def fn(v):
            emit(fops, v)

        def oracle(v, flag=True):
            from qrisp.grover import tag_state

            if flag:
                for t in marked:
                    tag_state({v: t})

        def main():
            v = QuantumFloat(n)
            kw = {"kwargs_oracle": {"flag": True}} if s["kwargs"] else {}
            if s["target"]:
                t = QuantumFloat(m, -m)
                QAE(v, fn, oracle, target=t, **kw)
                return t
            return QAE([v], fn, oracle, precision=m, **kw)

        U = matrix(fops, n)
        D = np.ones(2**n, dtype=complex)
        for t in marked:
            D[int(format(t, f"0{n}b")[::-1], 2)] = -1
        G = reflection_matrix([n], U, np.pi, [0]) @ np.diag(D)
        import scipy.linalg as sl

        T, Z = sl.schur(G, output="complex")
        lams = np.angle(np.diag(T))
        w = np.abs(Z.conj().T @ U[:, 0]) ** 2
        want = qpe_distribution(lams, w, m)
    else:
        th = float(r.uniform(0.1, 1.45))
        eps = [0.02, 0.05][s["seed"] % 2]

        def fn(b, c):
            ry(2 * th, c)
            if n > 1:
                qrisp.cx(c, b)

        kw = {} if s["kwargs"] else {"mes_kwargs": {}}
        val = float(IQAE([QuantumBool(), QuantumBool()], fn, eps, 1e-7, **kw))
        err = abs(np.arcsin(np.sqrt(val)) - th)
        require(err < eps * 1.01 + 1e-3, "iterative amplitude estimation misses its precision", val=val, theta=th, eps=eps)
        return {"iqae"}
    if s["traced"]:
        res = terminal_sampling(main)()
    else:
        res = main().get_measurement()
    got = np.zeros(2**m)
    for k, v in res.items():
        j = float(k) * 2**m
        require(abs(j - round(j)) < 1e-9 and 0 <= round(j) < 2**m, "estimate outside of the grid", key=float(k))
        got[round(j)] += float(v)
    d = float(np.abs(got - want).max())
    require(d < 3e-3, s["what"] + " distribution differs from the eigenvalue formula", d=d, got=[round(float(x), 4) for x in got], want=[round(float(x), 4) for x in want])
    return {s["what"]} | ({"traced"} if s["traced"] else set())


# ------------------------------------------------------------------ linear combination of unitaries


@st.composite
def combine_case(draw):
    return {
        "n": draw(st.sampled_from([1, 2])),
        "amount": draw(st.sampled_from([2, 2, 3, 4])),
        "form": draw(st.sampled_from(["list", "callable"])),
        "oaa": draw(st.sampled_from([0, 0, 0, 1])),
        "full": draw(st.sampled_from([False, False, True])),
        "traced": draw(st.sampled_from([True, True, False])),
        "seed": draw(st.integers(0, 10**6)),
    }


def pauli_mat(ch):
    return {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Z": np.diag([1, -1])}[ch]


def check_combine(s):
    import qrisp
    from qrisp import LCU, QuantumFloat, inner_LCU, prepare
    from qrisp.jasp import terminal_sampling

    n, a = s["n"], s["amount"]
    r = np.random.default_rng(s["seed"])
    m = int(np.ceil(np.log2(a)))
    alpha = r.uniform(0.2, 1, size=a)
    prob = np.zeros(2**m)
    prob[:a] = alpha / alpha.sum()
    amps = np.sqrt(prob)
    uops = [layer(s["seed"] + 11 * i, n) for i in range(a)]
    prep = layer(s["seed"] + 5, n)

    def operand_prep():
        v = QuantumFloat(n)
        emit(prep, v)
        return v

    def state_prep(case):
        prepare(case, amps)

    if s["form"] == "list":
        unitaries = [(lambda v, o=o: emit(o, v)) for o in uops]
        num = None
    else:
        # number i enters through an angle
        def unitaries(i, v):
            for q in range(n):
                qrisp.ry(0.3 + 0.7 * i, v[q])
            if n > 1:
                qrisp.cx(v[0], v[1])

        uops = [[["ry", [q], [0.3 + 0.7 * i]] for q in range(n)] + ([["cx", [0, 1], []]] if n > 1 else []) for i in range(a)]
        num = a
    Us = [matrix(o, n) for o in uops]
    A = sum(q * U for q, U in zip(prob, Us))
    psi = vector(prep, n)
    block = A @ psi
    if s["full"]:
        # repeat until success: normalised result
        def main():
            return LCU(operand_prep, state_prep, unitaries, num)

        res = None
        if np.linalg.norm(block) < 0.3:
            raise Reject()
        from qrisp import measure
        from qrisp.jasp import jaspify

        nn = 2**n

        def shot():
            return measure(LCU(operand_prep, state_prep, unitaries, num))

        want = np.abs(block / np.linalg.norm(block)) ** 2
        want = want[little_index(n)]
        f = jaspify(shot)
        hits = [int(f()) for _ in range(12)]
        for v in hits:
            require(want[v] > 1e-6, "linear combination of unitaries returned an impossible value", value=v, want=[float(x) for x in want])
        return {"rus"}

    def main():
        case, v = inner_LCU(operand_prep, state_prep, unitaries, num, s["oaa"])
        if s["traced"]:
            return case.reg, v.reg
        return case, v

    if not s["traced"]:
        from qrisp import make_jaspr  # noqa: F401
    got = run({**s, "traced": True}, lambda: tuple(x if not hasattr(x, "reg") else x.reg for x in main()), "LCU").reshape(2**m, 2**n)
    # full operator on case and operand (big-endian)
    pr = np.eye(2**m, dtype=complex)
    rev = little_index(m)
    first = amps[rev].astype(complex)
    sel = np.zeros((2 ** (m + n),) * 2, dtype=complex)
    for c in range(2**m):
        k = rev[c]
        U = Us[k] if k < a else np.eye(2**n)
        sel[c * 2**n : (c + 1) * 2**n, c * 2**n : (c + 1) * 2**n] = U
    if s["oaa"]:
        # amplification: block becomes a Chebyshev-like polynomial when A is proportional to a unitary; use the explicit product
        # W|0>|psi> with W = P^dag S P for any P with first column `first`
        Q, _ = np.linalg.qr(np.column_stack([first] + [np.random.default_rng(1).normal(size=2**m) for _ in range(2**m - 1)]))
        Q[:, 0] = first
        P = kron(Q, np.eye(2**n))
        W = P.conj().T @ sel @ P
        zero = np.zeros((2**m, 2**m))
        zero[0, 0] = 1
        S0 = kron(zero, np.eye(2**n))
        I = np.eye(2 ** (m + n))
        G = W @ (2 * S0 - I) @ W.conj().T @ (I - 2 * S0)
        full = W @ np.kron(np.eye(2**m)[:, 0], psi)
        for _ in range(s["oaa"]):
            full = G @ full
        block = full.reshape(2**m, 2**n)[0]
    ov = np.vdot(block, got[0])
    d = abs(abs(ov) - np.linalg.norm(block) * np.linalg.norm(got[0]))
    require(abs(np.linalg.norm(got[0]) - np.linalg.norm(block)) < TOL and d < TOL, "block of the linear combination of unitaries", got=float(np.linalg.norm(got[0])), want=float(np.linalg.norm(block)), d=float(d))
    return {s["form"], "oaa" if s["oaa"] else "plain"}


# ------------------------------------------------------------------ switch


@st.composite
def switch_case(draw):
    k = draw(st.sampled_from([1, 2, 2, 3]))
    return {
        "k": k,
        "amount": draw(st.sampled_from(list(range(1, 2**k + 1)) + [None])),
        "form": draw(st.sampled_from(["list", "list", "callable"])),
        "method": draw(st.sampled_from(["auto", "tree", "tree", "sequential", "parallel"])),
        "ops": draw(st.sampled_from([1, 1, 2])),
        "index": draw(st.sampled_from(["float", "float", "list"])),
        "env": draw(st.sampled_from(["plain", "plain", "control", "invert", "twice", "both"])),
        "traced": draw(st.sampled_from([False, False, False, True])),
        "seed": draw(st.integers(0, 10**6)),
    }


def check_switch(s):
    import qrisp
    from qrisp import QuantumBool, QuantumFloat, control, h, invert, merge, q_switch

    k = s["k"]
    traced = s["traced"]
    if traced:
        s = {**s, "method": "tree" if s["method"] == "parallel" else s["method"], "index": "float"}
    if s["method"] == "parallel":
        s = {**s, "ops": 1, "index": "float"}
    if traced or s["method"] == "parallel":
        k = min(k, 2)
        s = {**s, "amount": min(s["amount"], 2**k) if s["amount"] else None}
    amount = s["amount"] or 2**k
    no = s["ops"]
    uops = [layer(s["seed"] + 31 * i, no) for i in range(amount)]
    prep = layer(s["seed"] + 5, k + no)
    if s["form"] == "callable" and traced:
        uops = [[["ry", [q], [0.3 + 0.7 * i]] for q in range(no)] + ([["cx", [0, 1], []]] if no > 1 else []) for i in range(amount)]

    def one(i, *v):
        if traced:
            for q in range(no):
                qrisp.ry(0.3 + 0.7 * i, v[q][0])
            if no > 1:
                qrisp.cx(v[0][0], v[1][0])
        else:
            emit(uops[i], [x[0] for x in v])

    branches = [(lambda *v, o=o: emit(o, [x[0] for x in v])) for o in uops] if s["form"] == "list" else one

    def main():
        ix = QuantumFloat(k)
        vs = [QuantumFloat(1) for _ in range(no)]
        c = QuantumBool()
        h(c)
        emit(prep, Qubits([ix, *vs], [k] + [1] * no))
        if not traced:
            merge([c.qs, ix.qs])
        kw = {"method": s["method"]}
        if s["form"] == "callable" and s["amount"] is not None:
            kw["branch_amount"] = amount
        arg = [ix[i] for i in range(k)] if s["index"] == "list" else ix

        def call():
            q_switch(arg, branches, *vs, **kw)

        if s["env"] == "control":
            with control(c):
                call()
        elif s["env"] == "invert":
            with invert():
                call()
        elif s["env"] == "both":
            with control(c):
                with invert():
                    call()
        elif s["env"] == "twice":
            call()
            call()
        else:
            call()
        if traced:
            return (c.reg, ix.reg, *[v.reg for v in vs])
        return (c, ix, *vs)

    rev = little_index(k)
    U = np.zeros((2 ** (k + no),) * 2, dtype=complex)
    d = 2**no
    for b in range(2**k):
        i = rev[b]
        U[b * d : (b + 1) * d, b * d : (b + 1) * d] = matrix(uops[i], no) if i < amount else np.eye(d)
    if s["env"] in ("invert", "both"):
        U = U.conj().T
    if s["env"] == "twice":
        U = U @ U
    psi = vector(prep, k + no)
    want = np.concatenate([psi if s["env"] in ("control", "both") else U @ psi, U @ psi]) / np.sqrt(2)
    before = len(branches) if s["form"] == "list" else None
    same(run(s, main, "switch"), want, "quantum switch")
    if before is not None:
        require(len(branches) == before, "quantum switch changes the list of branches it was given")
    return {s["method"], s["form"], s["env"]} | ({"traced"} if traced else set()) if amount > 1 else set()


# ------------------------------------------------------------------ moving entries


@st.composite
def move_case(draw):
    what = draw(st.sampled_from(["demux", "demux", "shift", "shift", "permute", "qshift"]))
    N = draw(st.sampled_from([1, 2, 3, 4, 4, 5, 6, 7]))
    return {
        "what": what,
        "N": N,
        "k": draw(st.sampled_from([1, 2, 2, 3])),
        "array": draw(st.booleans()),
        "inplace": draw(st.booleans()),
        "mismatch": draw(st.booleans()),
        "par": draw(st.booleans()),
        "method": draw(st.sampled_from([None, None, "gray_pt", "gray"])),
        "amount": draw(st.sampled_from([1, 1, 2, 3, -1, -2, 5, -4, 0])),
        "signed": draw(st.booleans()),
        "perm": draw(st.permutations(range(N))),
        "traced": draw(st.sampled_from([False, False, True])) and what == "shift",
        "seed": draw(st.integers(0, 10**6)),
    }


def move_bits(psi, n, source):
    """new qubit i holds old qubit source[i] (big-endian vectors)"""
    return np.transpose(psi.reshape([2] * n), source).reshape(-1)


def check_move(s):
    import qrisp
    from qrisp import QuantumArray, QuantumBool, QuantumFloat, QuantumVariable, cyclic_shift, demux, merge, permute_iterable

    what, N = s["what"], s["N"]
    r = np.random.default_rng(s["seed"])
    if what in ("shift", "permute", "qshift"):
        n = min(N, 6 if what == "qshift" else 7)
        perm = list(s["perm"])
        k = 2
        prep = layer(s["seed"], n)
        iprep = layer(s["seed"] + 1, k)

        def main():
            if s["array"] and not s["traced"]:
                arr = QuantumArray(QuantumBool(), (n,))
                vs = list(arr.flatten())
                it = arr
                out = tuple(vs)
                emit(prep, Qubits(vs, [1] * n))
            else:
                it = QuantumVariable(n)
                emit(prep, it)
                out = (it,)
            if what == "shift":
                cyclic_shift(it, s["amount"])
            elif what == "permute":
                permute_iterable(it, perm)
            else:
                ix = QuantumFloat(k, signed=False) if not s["signed"] else QuantumFloat(k - 1, signed=True)
                emit(iprep, ix)
                merge([ix.qs, out[0].qs])
                cyclic_shift(it, ix)
                out = (ix, *out)
            return tuple(o.reg for o in out) if s["traced"] else out

        psi = vector(prep, n)
        if what == "shift":
            want = move_bits(psi, n, [(i - s["amount"]) % n for i in range(n)])
        elif what == "permute":
            want = move_bits(psi, n, perm)
        else:
            ip = vector(iprep, k)
            parts = []
            for b in range(2**k):
                v = int(format(b, f"0{k}b")[::-1], 2)
                if s["signed"] and v >= 2 ** (k - 1):
                    v -= 2**k
                parts.append(ip[b] * move_bits(psi, n, [(i - v) % n for i in range(n)]))
            want = np.concatenate(parts)
        if what == "permute" and n != N:
            raise Reject()
        same(run(s, main, what), want, what)
        return {what} | {x for x in ("array", "traced") if s[x]} if n > 2 else set()
    # demultiplexing
    k = s["k"]
    L = 2**k
    if s["mismatch"]:
        L = max(2, min(N, 2**k))
    if k == 3 and s["array"]:
        k, L = 2, min(L, 4)
    # amplitudes only on positions that exist
    amps = np.zeros(2**k, dtype=complex)
    amps[:L] = r.normal(size=L) + 1j * r.normal(size=L)
    amps /= np.linalg.norm(amps)
    dprep = layer(s["seed"] + 3, 1)

    def main():
        ix = QuantumFloat(k)
        ix.init_state({i: complex(amps[i]) for i in range(L)})
        kw = {"ctrl_method": s["method"], "permit_mismatching_size": s["mismatch"], "parallelize_qc": s["par"]}
        if s["array"]:
            out = QuantumArray(QuantumBool(), (L,))
            first = out[0] if s["inplace"] else QuantumBool()
            emit(dprep, first)
            if s["inplace"]:
                res = demux(first, ix, out, **kw)
            elif s["mismatch"]:
                res = demux(first, ix, out, **kw)
            else:
                res = demux(first, ix, **kw)
            outs = tuple(res.flatten())
            extra = () if s["inplace"] else (first,)
        else:
            out = QuantumVariable(L)
            src = out if s["inplace"] else QuantumBool()
            emit(dprep, src)
            if s["inplace"] or s["mismatch"]:
                res = demux(src[0], ix, out, **kw)
            else:
                res = demux(src[0], ix, **kw)
            outs = (res,)
            extra = () if s["inplace"] else (src,)
        return (ix, *outs)

    one = vector(dprep, 1)
    want = np.zeros((2**k, 2**L), dtype=complex)
    for i in range(L):
        b = int(format(i, f"0{k}b")[::-1], 2)
        want[b, 0] = amps[i] * one[0]
        want[b, 2 ** (L - 1 - i)] = amps[i] * one[1]
    same(run(s, main, what), want, "demultiplexing")
    return {what} | {x for x in ("array", "inplace", "mismatch", "par") if s[x]}


# ------------------------------------------------------------------ order finding


@st.composite
def order_case(draw):
    N = draw(st.sampled_from([3, 5, 5, 7]))
    a = draw(st.sampled_from([x for x in range(2, N) if np.gcd(x, N) == 1]))
    return {"N": N, "a": a, "seed": draw(st.integers(0, 10**6))}


def check_order(s):
    from qrisp.shor import find_order

    r = 1
    x = s["a"]
    while x != 1:
        x = x * s["a"] % s["N"]
        r += 1
    got = int(find_order(s["a"], s["N"]))
    require(got == r, "order finding", a=s["a"], N=s["N"], got=got, want=r)
    return {"order"}


FACETS = [
    Facet("qft", qft_case(), check_qft, quick=120),
    Facet("reflect", reflect_case(), check_reflect, quick=200),
    Facet("estimate", estimate_case(), check_estimate, quick=80),
    Facet("combine", combine_case(), check_combine, quick=20),
    Facet("switch", switch_case(), check_switch, quick=120),
    Facet("move", move_case(), check_move, quick=160),
    Facet("order", order_case(), check_order, quick=4),
]
