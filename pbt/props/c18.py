"""C18: traced programs compute what the same program computes when interpreted directly."""

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Reject, require
from ..jaspkit import little
from .c01 import op_object
from .c05 import data_state
from .c11 import apply_dense

RULE = (
    "random hybrid programs over 2-4 qubits, an integer and a float argument: gates with constant and computed angles and indices, loops with "
    "constant and argument-dependent bounds (nested), classical conditionals and classical control, mid-circuit measurements feeding control "
    "flow, quantum control (int/str states), inversion, conjugation, cached/custom-control/custom-inversion subroutines, temporaries. "
    "The traced program's exact distribution, its extracted circuit (amplitudes) and the direct Python execution are compared with an "
    "independent state-vector interpreter of the same program; traced programs are re-evaluated with other arguments. "
    "Non-trivial: the program contains control flow or an environment (loop, cond, control, invert, conjugate, measure, cached, ...)."
)
ONE = ["x", "y", "z", "h", "s", "t", "s_dg", "t_dg", "sx"]
ROT = ["rx", "ry", "rz", "p"]
TWO = ["cx", "cz", "swap", "cp", "crz", "rzz", "cy"]


# ------------------------------------------------------------------ generation


def gen_ref(draw, free, loops):
    if loops and draw(st.booleans()):
        return ["dyn", list(free), draw(st.integers(0, 3)), draw(st.integers(0, loops - 1))]
    return draw(st.sampled_from(free))


def gen_angle(draw, loops):
    kind = draw(st.sampled_from(["c", "th", "k"] + ["i"] * bool(loops)))
    c = draw(st.sampled_from([0.3, -0.7, 1.1, 2.0]))
    return [kind, c] if kind != "i" else [kind, c, draw(st.integers(0, loops - 1))]


def gen_gate(draw, free, loops):
    kind = draw(st.sampled_from(["one", "rot", "rot", "two", "two"]))
    if kind == "two" and len(free) >= 2:
        g = draw(st.sampled_from(TWO))
        if loops and draw(st.booleans()):
            o = draw(st.integers(0, len(free) - 1))
            d = draw(st.integers(1, len(free) - 1))
            lv = draw(st.integers(0, loops - 1))
            refs = [["dyn", list(free), o, lv], ["dyn", list(free), o + d, lv]]
        else:
            refs = list(draw(st.permutations(free)))[:2]
        return ["g", g, refs, [gen_angle(draw, loops)] if g in ("cp", "crz", "rzz") else []]
    if kind == "rot":
        return ["g", draw(st.sampled_from(ROT)), [gen_ref(draw, free, loops)], [gen_angle(draw, loops)]]
    return ["g", draw(st.sampled_from(ONE)), [gen_ref(draw, free, loops)], []]


def gen_pred(draw, bits):
    kind = draw(st.sampled_from(["k<", "k=", "odd"] + ["bit"] * (2 * bool(bits))))
    return [kind, draw(st.sampled_from(bits))] if kind == "bit" else [kind, draw(st.integers(0, 3))]


def gen_body(draw, free, depth, loops, quantum, bits, size, nf):
    out = []
    bits = list(bits)
    for _ in range(draw(st.sampled_from([1, 2, 3][: size]))):
        kinds = ["g", "g", "sl"]
        if depth > 0:
            kinds += ["inv", "conj", "for", "cond", "cc", "env", "while"] + ["fn"] * (2 * (nf > 0 and len(free) == nf))
            if len(free) >= 2:
                kinds += ["ctrl", "ctrl", "ctrl", "tmp"]
        if not quantum and depth > 0:
            kinds += ["meas", "meas", "meas", "while"]
        k = draw(st.sampled_from(kinds))
        sub = lambda fr=free, lo=loops, q=quantum: gen_body(draw, fr, depth - 1, lo, q, bits, 2, nf)
        if k == "g":
            out.append(gen_gate(draw, free, loops))
        elif k == "sl":
            runs = [(a, b) for a in range(8) for b in range(a + 1, 9) if all(i in free for i in range(a, b))]
            a, b = draw(st.sampled_from(runs))
            out.append(["sl", draw(st.sampled_from(ONE)), a, b, draw(st.sampled_from(["c", "c", "k", "rev"]))])
        elif k == "inv":
            out.append(["inv", sub(q=True)])
        elif k == "env":
            out.append(["env", sub(q=True)])
        elif k == "conj":
            out.append(["conj", sub(q=True), sub(q=True)])
        elif k == "for":
            if loops >= 2:
                continue
            out.append(["for", draw(st.sampled_from([["c", 1], ["c", 2], ["k", 0], ["k", 1], ["c", 0]])), draw(st.booleans()), sub(lo=loops + 1, q=True)])
        elif k == "while":
            if loops or quantum:
                continue
            out.append(["while", draw(st.sampled_from([["c", 2], ["k", 0], ["k", 1]])), sub(lo=1, q=True)])
        elif k == "cond":
            out.append(["cond", gen_pred(draw, bits if not loops else []), sub(q=True), sub(q=True)])
        elif k == "cc":
            out.append(["cc", gen_pred(draw, bits if not loops else []), draw(st.booleans()), sub(q=True)])
        elif k == "fn":
            out.append(["fn", draw(st.sampled_from([0, 1, 2])), draw(st.sampled_from([["c", 1], ["c", 2], ["k", 0], ["k", 1]]))])
        elif k == "ctrl":
            m = draw(st.sampled_from(range(1, len(free))))
            perm = list(draw(st.permutations(free)))
            cs, rest = perm[:m], sorted(perm[m:])
            state = draw(st.sampled_from(["".join(b) for b in np.array([list(format(i, f"0{m}b")) for i in range(2**m)])]))
            out.append(["ctrl", cs, state, draw(st.sampled_from(["str", "int"])), sub(fr=rest, q=True)])
        elif k == "tmp":
            perm = list(draw(st.permutations(free)))
            out.append(["tmp", perm[0], draw(st.booleans()), sub(fr=sorted(perm[1:]), q=True)])
        else:
            b = len(bits)
            if b >= 3:
                continue
            bits.append(b)
            out.append(["meas", draw(st.sampled_from(free)), b])
    return out or [gen_gate(draw, free, loops)]


@st.composite
def program(draw):
    n = draw(st.sampled_from([2, 3, 3, 4]))
    free = list(range(n))
    fns = [[draw(st.sampled_from(["qache", "custom_control", "custom_inversion", "plain"])), gen_body(draw, free, 1, 0, True, [], 2, 0), gen_body(draw, free, 0, 1, True, [], 2, 0)] for _ in range(3)]
    top = gen_body(draw, free, 3, 0, False, [], 3, n)
    bits = [s[2] for s in top if s[0] == "meas"]
    more = gen_body(draw, free, 2, 0, True, bits, 3, n)
    return {
        "n": n,
        "fns": fns,
        "body": top + more,
        "args": [[draw(st.integers(0, 3)), draw(st.sampled_from([0.4, -1.3, 2.2]))] for _ in range(2)],
    }


# ------------------------------------------------------------------ reference interpreter


class Ref:
    def __init__(self, spec, k, th):
        self.n, self.fns, self.k, self.th = spec["n"], spec["fns"], k, th

    def count(self, e):
        return e[1] if e[0] == "c" else self.k + e[1]

    def pred(self, p, bits):
        return {"k<": self.k < p[1], "k=": self.k == p[1], "odd": self.k % 2 == 1, "bit": bool(bits.get(p[1]))}[p[0]]

    def gates(self, body, loops, bits):
        """unitary statements as list of (controls, state, gate matrix spec)"""
        out = []
        for s in body:
            t = s[0]
            if t == "g":
                idx = [r if isinstance(r, int) else r[1][(loops[r[3]] + r[2]) % len(r[1])] for r in s[2]]
                par = [{"c": 1, "th": self.th, "k": self.k, "i": loops[a[2]] if a[0] == "i" else 0}[a[0]] * a[1] for a in s[3]]
                out.append(([], "", [s[1], idx, par]))
            elif t == "sl":
                b = s[2] + min(self.k, s[3] - s[2]) if s[4] == "k" else s[3]
                out += [([], "", [s[1], [i], []]) for i in range(s[2], b)]
            elif t == "inv":
                out += inverse(self.gates(s[1], loops, bits))
            elif t == "env":
                out += self.gates(s[1], loops, bits)
            elif t == "conj":
                A = self.gates(s[1], loops, bits)
                out += A + self.gates(s[2], loops, bits) + inverse(A)
            elif t == "for":
                for i in range(self.count(s[1])):
                    out += self.gates(s[3], loops + [i], bits)
            elif t == "while":
                for i in range(self.count(s[1])):
                    out += self.gates(s[2], loops + [i], bits)
            elif t == "cond":
                out += self.gates(s[2] if self.pred(s[1], bits) else s[3], loops, bits)
            elif t == "cc":
                if self.pred(s[1], bits) == s[2]:
                    out += self.gates(s[3], loops, bits)
            elif t == "fn":
                f = self.fns[s[1]]
                m = self.count(s[2])
                out += self.gates(f[1], [], {})
                for i in range(m):
                    out += self.gates(f[2], [i], {})
            elif t == "ctrl":
                out += [(s[1] + c, s[2] + cs, g) for c, cs, g in self.gates(s[4], loops, bits)]
            elif t == "tmp":
                out += [([s[1]] + c, ("0" if s[2] else "1") + cs, g) for c, cs, g in self.gates(s[3], loops, bits)]
            else:
                raise AssertionError(t)
        return out

    def run(self, body):
        """list of (unnormalised state, bits)"""
        psi = np.zeros(2**self.n, dtype=complex)
        psi[0] = 1
        branches = [(psi, {})]
        for s in body:
            new = []
            for psi, bits in branches:
                if s[0] == "meas":
                    T = psi.reshape([2] * self.n)
                    for v in (0, 1):
                        P = np.zeros_like(T)
                        sl = [slice(None)] * self.n
                        sl[s[1]] = v
                        P[tuple(sl)] = T[tuple(sl)]
                        if np.linalg.norm(P) > 1e-9:
                            new.append((P.reshape(-1), {**bits, s[2]: v}))
                else:
                    for g in self.gates([s], [], bits):
                        psi = apply_gate(psi, g, self.n)
                    new.append((psi, bits))
            branches = new
        return branches


def inverse(gs):
    return [(c, cs, [g[0], g[1], g[2], not (len(g) > 3 and g[3])]) for c, cs, g in reversed(gs)]


_mats = {}


def gate_matrix(g):
    from .. import ref

    name, idx, par = g[:3]
    key = (name, tuple(par), bool(len(g) > 3 and g[3]))
    if key not in _mats:
        if name in ("h", "x", "y", "z", "s", "t", "s_dg", "t_dg", "sx", "rx", "ry", "rz", "p", "cx", "cz", "cy", "swap", "cp", "crz", "rzz"):
            M = MATS[name](*par)
        _mats[key] = M.conj().T if key[2] else M
    return _mats[key]


def _r(kind, t):
    P = {"x": np.array([[0, 1], [1, 0]]), "y": np.array([[0, -1j], [1j, 0]]), "z": np.diag([1, -1])}[kind]
    return np.cos(t / 2) * np.eye(2) - 1j * np.sin(t / 2) * P


def _c(M):
    out = np.eye(4, dtype=complex)
    out[2:, 2:] = M
    return out


MATS = {
    "x": lambda: np.array([[0, 1], [1, 0]], dtype=complex),
    "y": lambda: np.array([[0, -1j], [1j, 0]]),
    "z": lambda: np.diag([1, -1 + 0j]),
    "h": lambda: np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2),
    "s": lambda: np.diag([1, 1j]),
    "t": lambda: np.diag([1, np.exp(1j * np.pi / 4)]),
    "s_dg": lambda: np.diag([1, -1j]),
    "t_dg": lambda: np.diag([1, np.exp(-1j * np.pi / 4)]),
    "sx": lambda: _r("x", np.pi / 2),
    "rx": lambda t: _r("x", t),
    "ry": lambda t: _r("y", t),
    "rz": lambda t: _r("z", t),
    "p": lambda t: np.diag([1, np.exp(1j * t)]),
    "cx": lambda: _c(MATS["x"]()),
    "cy": lambda: _c(MATS["y"]()),
    "cz": lambda: _c(MATS["z"]()),
    "cp": lambda t: _c(MATS["p"](t)),
    "crz": lambda t: _c(_r("z", t)),
    "swap": lambda: np.eye(4, dtype=complex)[[0, 2, 1, 3]],
    "rzz": lambda t: np.diag(np.exp(-0.5j * t * np.array([1, -1, -1, 1]))),
}


def apply_gate(psi, g, n):
    c, cs, gate = g
    M, idx = gate_matrix(gate), gate[1]
    T = psi.reshape([2] * n).copy()
    # a control that appears twice (nested controls on the same qubit cannot occur)
    sl = [slice(None)] * n
    for q, b in zip(c, cs):
        sl[q] = int(b)
    block = T[tuple(sl)]
    rest = [q for q in range(n) if q not in c]
    sub = apply_dense(M, [rest.index(i) for i in idx], block.reshape(-1), len(rest)) if rest else block
    T[tuple(sl)] = sub.reshape(block.shape)
    return T.reshape(-1)


# ------------------------------------------------------------------ qrisp execution


class Exec:
    def __init__(self, spec, k, th):
        import jax.numpy as jnp
        import qrisp
        from qrisp.jasp import check_for_tracing_mode

        self.spec, self.k, self.th, self.bits = spec, k, th, {}
        self.q_ = qrisp
        self.jnp = jnp
        self.tracing = check_for_tracing_mode()
        self.fns = [self.make_fn(f) for f in spec["fns"]]

    def count(self, e, k):
        return e[1] if e[0] == "c" else k + e[1]

    def pred(self, p, k, bits):
        if p[0] == "bit":
            return bits[p[1]]
        return {"k<": lambda: k < p[1], "k=": lambda: k == p[1], "odd": lambda: k % 2 == 1}[p[0]]()

    def make_fn(self, f):
        from qrisp import control, custom_control, custom_inversion, invert
        from qrisp.jasp import jrange, qache

        kind, head, loop = f

        def body(q, k, th, m):
            self.run(head, q, [], k, th, {})
            for i in jrange(m):
                self.run(loop, q, [i], k, th, {})

        if kind == "qache":
            return qache(body) if self.tracing else body
        if kind == "custom_control":

            @custom_control
            def fn(q, k, th, m, ctrl=None):
                if ctrl is None:
                    body(q, k, th, m)
                else:
                    with control(ctrl):
                        body(q, k, th, m)

            return fn
        if kind == "custom_inversion":

            @custom_inversion
            def fn2(q, k, th, m, inv=False):
                if inv:
                    with invert():
                        body(q, k, th, m)
                else:
                    body(q, k, th, m)

            return fn2
        return body

    def qubit(self, q, r, loops):
        if isinstance(r, int):
            return q[r]
        j = (loops[r[3]] + r[2]) % len(r[1])
        return q[self.jnp.array(r[1])[j]] if self.tracing else q[r[1][j]]

    def run(self, body, q, loops, k, th, bits):
        Q = self.q_
        from qrisp.jasp import jrange, q_cond, q_while_loop

        for s in body:
            t = s[0]
            if t == "g":
                par = [{"c": 1, "th": th, "k": k, "i": loops[a[2]] if a[0] == "i" else 0}[a[0]] * a[1] for a in s[3]]
                qs = [self.qubit(q, r, loops) for r in s[2]]
                getattr(Q, s[1])(*par, *qs)
            elif t == "sl":
                b = s[3]
                if s[4] == "k":
                    b = s[2] + (self.jnp.minimum(k, s[3] - s[2]) if self.tracing else min(k, s[3] - s[2]))
                sl = q[s[2] : b]
                if s[4] == "rev" and s[3] - s[2] > 1:
                    # the parts of a split register address the same qubits
                    mid = s[2] + 1
                    getattr(Q, s[1])(q[mid:b])
                    sl = q[s[2] : mid]
                if self.tracing or len(sl):
                    getattr(Q, s[1])(sl)
            elif t == "inv":
                with Q.invert():
                    self.run(s[1], q, loops, k, th, bits)
            elif t == "env":
                with Q.QuantumEnvironment():
                    self.run(s[1], q, loops, k, th, bits)
            elif t == "conj":
                with Q.conjugate(lambda q: self.run(s[1], q, loops, k, th, bits))(q):
                    self.run(s[2], q, loops, k, th, bits)
            elif t == "for":
                c = self.count(s[1], k)
                rng = jrange(c) if (s[2] or not isinstance(c, int)) else range(c)
                for i in rng:
                    self.run(s[3], q, loops + [i], k, th, bits)
            elif t == "while":

                def cond_fun(v):
                    return v[0] < v[2]

                def body_fun(v):
                    i, q, m, k, th = v
                    self.run(s[2], q, [i], k, th, {})
                    return i + 1, q, m, k, th

                q_while_loop(cond_fun, body_fun, (0, q, self.count(s[1], k), k, th))
            elif t == "cond":
                q_cond(self.pred(s[1], k, bits), lambda q, k, th: self.run(s[2], q, loops, k, th, bits), lambda q, k, th: self.run(s[3], q, loops, k, th, bits), q, k, th)
            elif t == "cc":
                with Q.control(self.pred(s[1], k, bits), ctrl_state=1 if s[2] else 0):
                    self.run(s[3], q, loops, k, th, bits)
            elif t == "fn":
                self.fns[s[1]](q, k, th, self.count(s[2], k))
            elif t == "ctrl":
                st_ = s[2] if s[3] == "str" else sum(int(b) << j for j, b in enumerate(s[2]))
                with Q.control([q[i] for i in s[1]], ctrl_state=st_):
                    self.run(s[4], q, loops, k, th, bits)
            elif t == "tmp":
                tmp = Q.QuantumBool()
                Q.cx(q[s[1]], tmp[0])
                with Q.control(tmp[0], ctrl_state=0 if s[2] else 1):
                    self.run(s[3], q, loops, k, th, bits)
                Q.cx(q[s[1]], tmp[0])
                tmp.delete()
            elif t == "meas":
                bits[s[2]] = Q.measure(q[s[1]])


def walk(body, found):
    for s in body:
        found.add(s[0])
        if s[0] == "for" and s[2]:
            found.add("jrange")
        for x in s[1:]:
            if isinstance(x, list) and x and isinstance(x[0], list):
                walk([y for y in x if isinstance(y, list) and y and isinstance(y[0], str) and y[0] != "dyn"], found)
    return found


KNOWN = {"g", "inv", "env", "conj", "for", "while", "cond", "cc", "fn", "ctrl", "tmp", "meas", "jrange", "sl"}


def tops(spec):
    return walk(spec["body"], set()) & KNOWN


def check_traced(spec):
    """exact distribution of the traced program, evaluated for two argument tuples"""
    from qrisp import QuantumBool, QuantumFloat, control, x
    from qrisp.jasp import terminal_sampling

    n = spec["n"]

    def main(k, th):
        q = QuantumFloat(n)
        ex = Exec(spec, k, th)
        bits = {}
        ex.run(spec["body"], q, [], k, th, bits)
        out = [q]
        for b in sorted(bits):
            r = QuantumBool()
            with control(bits[b]):
                x(r[0])
            out.append(r)
        return tuple(out) if bits else q

    nb = sum(s[0] == "meas" for s in spec["body"])
    ts = terminal_sampling(main)
    for k, th in spec["args"]:
        want = np.zeros([2**n] + [2] * nb)
        for psi, bits in Ref(spec, k, th).run(spec["body"]):
            want[(slice(None),) + tuple(bits[b] for b in range(nb))] += little(psi, n)
        got = np.zeros_like(want)
        for key, p in ts(k, th).items():
            key = key if isinstance(key, tuple) else (key,)
            got[tuple(int(v) for v in key)] += float(p)
        if nb:
            # measurements collapse the simulated run: the outcome is one branch of the program
            mass = got.reshape(2**n, -1).sum(axis=0)
            b = int(np.argmax(mass))
            require(mass[b] > 0.99, "measured bits of a single run are not definite", mass=mass.tolist())
            weight = float(want.reshape(2**n, -1)[:, b].sum())
            require(weight > 1e-5, "impossible measurement outcome", bits=b, k=k, th=th)
            want = want.reshape(2**n, -1)[:, b] / weight
            got = got.reshape(2**n, -1)[:, b]
        d = float(np.abs(got - want).sum())
        require(d < 0.02, "distribution of the traced program", d=d, k=k, th=th)
    return sorted(tops(spec) - {"g", "sl"})


def pure(spec):
    found = tops(spec)
    if "meas" in found:
        return None
    return found


@st.composite
def pure_program(draw):
    spec = draw(program())
    spec["body"] = strip(spec["body"])
    if not spec["body"]:
        spec["body"] = [["g", "h", [0], []]]
    return spec


def strip(body):
    return [s for s in body if s[0] != "meas" and not uses_bits(s)]


def uses_bits(s):
    if s[0] in ("cond", "cc") and s[1][0] == "bit":
        return True
    return any(isinstance(x, list) and any(isinstance(y, list) and y and isinstance(y[0], str) and y[0] in KNOWN and uses_bits(y) for y in x) for x in s[1:])


def check_circuit(spec):
    """amplitudes of the circuit extracted from the traced program, and of its inverse/controlled version"""
    from qrisp import QuantumFloat, control, h, invert, merge, x  # noqa: F401
    from qrisp.jasp import make_jaspr

    n = spec["n"]
    found = tops(spec)

    def main(k, th):
        q = QuantumFloat(n)
        for i in range(n):
            h(q[i])
        Exec(spec, k, th).run(spec["body"], q, [], k, th, {})
        return q

    k0, th0 = spec["args"][0]
    jaspr = make_jaspr(main)(k0, th0)
    for k, th in spec["args"]:
        r = Ref(spec, k, th)
        start = np.ones(2**n, dtype=complex) / 2 ** (n / 2)
        want = start
        for g in r.gates(spec["body"], [], {}):
            want = apply_gate(want, g, n)
        out = jaspr.to_qc(k, th)
        qb, qc = out[0], out[-1]
        if len(qc.qubits) > 16:
            raise Reject()
        got = data_state(qc, list(qb), "extracted circuit")
        ov = np.vdot(want, got)
        require(abs(abs(ov) - 1) < 2e-3, "state of the extracted circuit", overlap=float(abs(ov)), k=k, th=th)
    return sorted(found - {"g", "sl"})


def check_python(spec):
    """direct execution in Python mode"""
    from qrisp import QuantumFloat, h

    n = spec["n"]
    k, th = spec["args"][0]
    q = QuantumFloat(n)
    for i in range(n):
        h(q[i])
    try:
        Exec(spec, k, th).run(spec["body"], q, [], k, th, {})
    except Exception as e:
        # allocations inside a conjugator are refused in Python mode
        if "within a conjugator" in str(e):
            raise Reject()
        raise
    want = np.ones(2**n, dtype=complex) / 2 ** (n / 2)
    for g in Ref(spec, k, th).gates(spec["body"], [], {}):
        want = apply_gate(want, g, n)
    qc = q.qs.compile()
    if len(qc.qubits) > 16:
        raise Reject()
    got = data_state(qc, list(q.reg), "python mode")
    ov = np.vdot(want, got)
    require(abs(abs(ov) - 1) < 2e-3, "state after direct execution", overlap=float(abs(ov)))
    return sorted(tops(spec) - {"g", "sl"})


FACETS = [
    Facet("traced", program(), check_traced, quick=400, weight=5.0),
    Facet("circuit", pure_program(), check_circuit, quick=320, weight=5.0),
    Facet("python", pure_program(), check_python, quick=600, weight=1.0),
]
