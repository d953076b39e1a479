"""C20: the different ways of executing a traced program agree."""

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, require
from .c18 import MATS, ONE, ROT, apply_gate

RULE = (
    "(boolean) random classical-reversible hybrid programs on integer registers - arithmetic, controlled flips, measurements feeding loops, "
    "conditionals and classical arithmetic - executed by the quantum simulator, by the boolean simulator and by terminal sampling and compared "
    "with an integer interpreter for several arguments per traced program. (postproc) random circuits with interleaved measurements and classical "
    "post-processing: circuit extraction plus post-processing function gives the exact distribution of the branching reference, direct runs give "
    "possible outcomes. (sampling) sample/expectation value/terminal sampling with post-processors: exact on definite states, "
    "within 7 sigma otherwise. Non-trivial: measurement feedback, loops, conditionals, superposition."
)

# ------------------------------------------------------------------ boolean programs


def gen_pred(draw, cl):
    return [draw(st.sampled_from(["<", "==", "odd", ">"])), draw(st.sampled_from(cl)), draw(st.integers(0, 5))]


def gen_block(draw, sizes, cl, depth, loops):
    out = []
    for _ in range(draw(st.sampled_from([1, 2, 3]))):
        kinds = ["x", "cx", "mcx", "swap", "addc", "addq", "ctrladd", "invadd", "xdyn"]
        if depth > 0:
            kinds += ["ccontrol", "loop", "cond", "ccontrol", "loop", "env_ctrl"]
        k = draw(st.sampled_from(kinds))
        v = draw(st.sampled_from(range(len(sizes))))
        pos = lambda: draw(st.sampled_from([[w, i] for w in range(len(sizes)) for i in range(sizes[w])]))
        if k == "x":
            out.append(["x", pos()])
        elif k == "xdyn":
            out.append(["xdyn", v, draw(st.sampled_from(cl)) if not loops else "loop"])
        elif k in ("cx", "swap", "mcx"):
            allp = [[w, i] for w in range(len(sizes)) for i in range(sizes[w])]
            perm = list(draw(st.permutations(allp)))
            m = {"cx": 2, "swap": 2, "mcx": draw(st.sampled_from([3, 4]))}[k]
            if len(perm) >= m:
                out.append([k, perm[:m]])
        elif k == "addc":
            out.append(["addc", v, draw(st.one_of(st.integers(0, 9), st.sampled_from(cl)))])
        elif k in ("addq", "invadd", "ctrladd"):
            if len(sizes) > 1:
                w = draw(st.sampled_from([u for u in range(len(sizes)) if u != v]))
                out.append([k, v, w, draw(st.integers(0, sizes[w] - 1)), draw(st.integers(0, 5))])
        elif k == "ccontrol":
            out.append(["ccontrol", gen_pred(draw, cl), gen_block(draw, sizes, cl, depth - 1, loops)])
        elif k == "env_ctrl":
            out.append(["env_ctrl", v, draw(st.integers(0, sizes[v] - 1)), draw(st.booleans()), draw(st.sampled_from([w for w in range(len(sizes)) if w != v] or [v])), draw(st.integers(0, 7))])
        elif k == "loop":
            if not loops:
                out.append(["loop", draw(st.sampled_from(cl)), gen_block(draw, sizes, cl, depth - 1, True)])
        elif k == "cond":
            out.append(["cond", gen_pred(draw, cl), gen_block(draw, sizes, cl, depth - 1, loops), gen_block(draw, sizes, cl, depth - 1, loops)])
    return out


@st.composite
def boolean_case(draw):
    sizes = [draw(st.sampled_from([2, 3, 4])) for _ in range(draw(st.sampled_from([1, 2, 2, 3])))]
    cl = ["i", "j"]
    body = []
    for r in range(draw(st.sampled_from([1, 2, 3]))):
        body += gen_block(draw, sizes, cl, 2, False)
        if r < 2:
            m = f"m{r}"
            body.append(["meas", draw(st.sampled_from(range(len(sizes)))), m])
            cl.append(m)
            if draw(st.booleans()):
                c = f"c{r}"
                body.append(["cl", c, draw(st.sampled_from(["lin", "xor", "max", "div", "while"])), draw(st.sampled_from(cl)), draw(st.sampled_from(cl)), draw(st.integers(1, 5))])
                cl.append(c)
    return {"sizes": sizes, "body": body, "args": [[draw(st.integers(0, 15)), draw(st.integers(0, 15))] for _ in range(4)], "tmp": draw(st.booleans())}


class IntRef:
    def __init__(self, spec, i, j):
        self.sizes = spec["sizes"]
        self.v = [0] * len(self.sizes)
        self.cl = {"i": i, "j": j}

    def bit(self, p):
        return (self.v[p[0]] >> p[1]) & 1

    def flip(self, p):
        self.v[p[0]] ^= 1 << p[1]

    def add(self, w, c):
        self.v[w] = (self.v[w] + c) % 2 ** self.sizes[w]

    def pred(self, p):
        x = self.cl[p[1]]
        return {"<": x < p[2], ">": x > p[2], "==": x == p[2], "odd": x % 2 == 1}[p[0]]

    def run(self, body, loop=None):
        for s in body:
            t = s[0]
            if t == "x":
                self.flip(s[1])
            elif t == "xdyn":
                x = loop if s[2] == "loop" else self.cl[s[2]]
                self.flip([s[1], x % self.sizes[s[1]]])
            elif t == "cx":
                if self.bit(s[1][0]):
                    self.flip(s[1][1])
            elif t == "swap":
                if self.bit(s[1][0]) != self.bit(s[1][1]):
                    self.flip(s[1][0])
                    self.flip(s[1][1])
            elif t == "mcx":
                if all(self.bit(p) for p in s[1][:-1]):
                    self.flip(s[1][-1])
            elif t == "addc":
                c = s[2] if isinstance(s[2], int) else self.cl[s[2]]
                self.add(s[1], c)
            elif t == "addq":
                if self.sizes[s[2]] <= self.sizes[s[1]]:
                    self.add(s[1], self.v[s[2]])
            elif t == "invadd":
                self.add(s[1], -s[4])
            elif t == "ctrladd":
                if self.bit([s[2], s[3]]):
                    self.add(s[1], s[4])
            elif t == "env_ctrl":
                if s[4] != s[1] and bool(self.bit([s[1], s[2]])) == s[3]:
                    self.add(s[4], s[5])
                    self.flip([s[4], 0])
            elif t == "ccontrol":
                if self.pred(s[1]):
                    self.run(s[2], loop)
            elif t == "cond":
                self.run(s[2] if self.pred(s[1]) else s[3], loop)
            elif t == "loop":
                for r in range(self.cl[s[1]] % 4):
                    self.run(s[2], r)
            elif t == "meas":
                self.cl[s[2]] = self.v[s[1]]
            elif t == "cl":
                a, b, c = self.cl[s[3]], self.cl[s[4]], s[5]
                if s[2] == "while":
                    while a > c:
                        a = a // 2
                    self.cl[s[1]] = a
                else:
                    self.cl[s[1]] = {"lin": (a * c + b) % 16, "xor": a ^ b, "max": max(a, b), "div": (a + b) // c}[s[2]]


class IntExec:
    def __init__(self, spec, i, j):
        from qrisp import QuantumFloat

        self.sizes = spec["sizes"]
        self.v = [QuantumFloat(s) for s in self.sizes]
        self.cl = {"i": i, "j": j}

    def q(self, v, p):
        return v[p[0]][p[1]]

    def pred(self, p, cl):
        x = cl[p[1]]
        return {"<": lambda: x < p[2], ">": lambda: x > p[2], "==": lambda: x == p[2], "odd": lambda: x % 2 == 1}[p[0]]()

    def run(self, body, v, cl, loop=None):
        import jax.numpy as jnp
        import qrisp as Q
        from qrisp.jasp import jrange, q_cond, q_while_loop

        for s in body:
            t = s[0]
            if t == "x":
                Q.x(self.q(v, s[1]))
            elif t == "xdyn":
                r = loop if s[2] == "loop" else cl[s[2]]
                Q.x(v[s[1]][r % self.sizes[s[1]]])
            elif t == "cx":
                Q.cx(self.q(v, s[1][0]), self.q(v, s[1][1]))
            elif t == "swap":
                Q.swap(self.q(v, s[1][0]), self.q(v, s[1][1]))
            elif t == "mcx":
                Q.mcx([self.q(v, p) for p in s[1][:-1]], self.q(v, s[1][-1]))
            elif t == "addc":
                v[s[1]] += s[2] if isinstance(s[2], int) else cl[s[2]]
            elif t == "addq":
                if self.sizes[s[2]] <= self.sizes[s[1]]:
                    v[s[1]] += v[s[2]]
            elif t == "invadd":
                with Q.invert():
                    v[s[1]] += s[4]
            elif t == "ctrladd":
                with Q.control(v[s[2]][s[3]]):
                    v[s[1]] += s[4]
            elif t == "env_ctrl":
                if s[4] != s[1]:
                    with Q.control(v[s[1]][s[2]], ctrl_state=int(s[3])):
                        v[s[4]] += s[5]
                        Q.x(v[s[4]][0])
            elif t == "ccontrol":
                with Q.control(self.pred(s[1], cl)):
                    self.run(s[2], v, cl, loop)
            elif t == "cond":
                names = sorted(cl)
                lp = 0 if loop is None else loop

                def branch(body):
                    def f(v, vals, lp):
                        self.run(body, list(v), dict(zip(names, vals)), lp if loop is not None else None)

                    return f

                q_cond(self.pred(s[1], cl), branch(s[2]), branch(s[3]), tuple(v), tuple(cl[x] for x in names), lp)
            elif t == "loop":
                for r in jrange(cl[s[1]] % 4):
                    self.run(s[2], v, cl, r)
            elif t == "meas":
                cl[s[2]] = jnp.int64(Q.measure(v[s[1]]))
            elif t == "cl":
                a, b, c = cl[s[3]], cl[s[4]], s[5]
                if s[2] == "while":
                    cl[s[1]] = q_while_loop(lambda x: x[0] > c, lambda x: (x[0] // 2, x[1] + 1), (jnp.int64(a), jnp.int64(0)))[0]
                else:
                    cl[s[1]] = {"lin": lambda: (a * c + b) % 16, "xor": lambda: a ^ b, "max": lambda: jnp.maximum(a, b), "div": lambda: (a + b) // c}[s[2]]()


def kinds_in(body, out):
    for s in body:
        out.add(s[0])
        for x in s[1:]:
            if isinstance(x, list) and x and isinstance(x[0], list) and x[0] and isinstance(x[0][0], str):
                kinds_in(x, out)
    return out


def check_boolean(spec):
    from qrisp.jasp import boolean_simulation, jaspify, terminal_sampling
    import qrisp as Q

    cls = [s for s in spec["body"] if s[0] in ("meas", "cl")]
    names = [s[2] if s[0] == "meas" else s[1] for s in cls]

    def main(i, j):
        e = IntExec(spec, i, j)
        e.v[0][:] = i % 2 ** spec["sizes"][0]
        e.run(spec["body"], e.v, e.cl)
        return tuple(Q.measure(x) for x in e.v) + tuple(e.cl[m] for m in names)

    def main_ts(i, j):
        e = IntExec(spec, i, j)
        e.v[0][:] = i % 2 ** spec["sizes"][0]
        e.run(spec["body"], e.v, e.cl)
        return tuple(e.v)

    runs = {"quantum simulation": jaspify(main), "boolean simulation": boolean_simulation(main)}
    for n, (i, j) in enumerate(spec["args"]):
        r = IntRef(spec, i, j)
        r.v[0] = i % 2 ** spec["sizes"][0]
        r.run(spec["body"])
        want = tuple(r.v) + tuple(r.cl[m] for m in names)
        for name, fn in runs.items():
            if name == "quantum simulation" and n >= 2:
                continue
            got = fn(i, j)
            got = tuple(int(x) for x in (got if isinstance(got, tuple) else (got,)))
            require(got == want, f"{name} differs from the integer interpreter", got=got, want=want, i=i, j=j)
        if n == 0:
            res = terminal_sampling(main_ts)(i, j)
            key = max(res, key=res.get)
            got = tuple(int(x) for x in (key if isinstance(key, tuple) else (key,)))
            require(len(res) == 1 and got == tuple(r.v), "terminal sampling differs from the integer interpreter", got=got, want=r.v)
    ks = kinds_in(spec["body"], set())
    return sorted(ks & {"loop", "cond", "ccontrol", "meas", "cl", "env_ctrl", "ctrladd", "mcx", "addq"})


# ------------------------------------------------------------------ extraction with post-processing


@st.composite
def post_case(draw):
    n = draw(st.sampled_from([2, 3, 4]))
    body, bits = [], 0
    for q in range(n):
        body.append(["g", draw(st.sampled_from(["ry", "rx"])), [q], [draw(st.sampled_from([0.6, 1.1, 2.0, -0.9]))]])
    for _ in range(draw(st.sampled_from([3, 5, 7, 9]))):
        k = draw(st.sampled_from(["rot", "rot", "two", "one", "meas", "reg", "reset"]))
        if k == "rot":
            body.append(["g", draw(st.sampled_from(["rx", "ry", "rz"])), [draw(st.sampled_from(range(n)))], [draw(st.sampled_from([0.7, 1.9, -1.2]))]])
        elif k == "one":
            body.append(["g", draw(st.sampled_from(["x", "h", "s", "y"])), [draw(st.sampled_from(range(n)))], []])
        elif k == "two":
            body.append(["g", draw(st.sampled_from(["cx", "cz", "swap"])), list(draw(st.permutations(range(n))))[:2], []])
        elif k == "reset":
            body.append(["reset", draw(st.sampled_from(range(n)))])
        elif bits < 5:
            if k == "meas":
                body.append(["meas", [draw(st.sampled_from(range(n)))]])
                bits += 1
            elif bits + 2 <= 5:
                a = draw(st.integers(0, n - 2))
                body.append(["meas", [a, a + 1]])
                bits += 2
    body.append(["meas", [draw(st.sampled_from(range(n)))]])
    m = sum(s[0] == "meas" for s in body)
    post = [[draw(st.sampled_from(["lin", "xor", "lt", "sel"])), draw(st.integers(0, m - 1)), draw(st.integers(0, m - 1)), draw(st.integers(1, 4))] for _ in range(draw(st.sampled_from([1, 2, 3])))]
    return {"n": n, "body": body, "post": post, "arg": draw(st.integers(0, 3)), "loop": draw(st.booleans())}


def post_values(post, ms, arg, where=None):
    out = []
    for k, a, b, c in post:
        x, y = ms[a], ms[b]
        if k == "lin":
            out.append(x * c + y + arg)
        elif k == "xor":
            out.append((x ^ y) + c)
        elif k == "lt":
            out.append((x < y + arg) * c)
        else:
            out.append(where(x > 0, y * c, arg) if where else (y * c if x > 0 else arg))
    return tuple(out)


def post_reference(spec):
    n = spec["n"]
    psi = np.zeros(2**n, dtype=complex)
    psi[0] = 1
    branches = [(psi, [])]

    def project(psi, q, v):
        T = psi.reshape([2] * n)
        P = np.zeros_like(T)
        sl = [slice(None)] * n
        sl[q] = v
        P[tuple(sl)] = T[tuple(sl)]
        return P.reshape(-1)

    def split(branches, q, out):
        new = []
        for psi, ms, acc in branches:
            for v in (0, 1):
                P = project(psi, q, v)
                if np.linalg.norm(P) > 1e-7:
                    new.append((P, ms, acc + [v]))
        return new

    for s in spec["body"]:
        if s[0] == "g":
            g = ([], "", [s[1], s[2], [p * (1 + spec["arg"]) for p in s[3]]])
            branches = [(apply_gate(p, g, n), ms) for p, ms in branches]
        elif s[0] == "reset":
            tmp = split([(p, ms, []) for p, ms in branches], s[1], None)
            branches = [(apply_gate(p, ([], "", ["x", [s[1]], []]), n) if acc[0] else p, ms) for p, ms, acc in tmp]
        else:
            tmp = [(p, ms, []) for p, ms in branches]
            for q in s[1]:
                tmp = split(tmp, q, None)
            branches = [(p, ms + [sum(v << i for i, v in enumerate(acc))]) for p, ms, acc in tmp]
    out = {}
    for psi, ms in branches:
        key = tuple(int(x) for x in post_values(spec["post"], ms, spec["arg"]))
        out[key] = out.get(key, 0) + float(np.linalg.norm(psi) ** 2)
    return out


def check_post(spec):
    import jax.numpy as jnp
    import qrisp as Q
    from qrisp.jasp import jaspify, jrange, make_jaspr

    n = spec["n"]

    def main(arg):
        q = Q.QuantumFloat(n)
        ms = []
        for s in spec["body"]:
            if s[0] == "g":
                getattr(Q, s[1])(*[p * (1 + arg) for p in s[3]], *[q[i] for i in s[2]])
            elif s[0] == "reset":
                Q.reset(q[s[1]])
            elif len(s[1]) == 1:
                ms.append(jnp.int64(Q.measure(q[s[1][0]])))
            else:
                ms.append(jnp.int64(Q.measure(q[s[1][0] : s[1][-1] + 1])))
        if spec["loop"]:
            for _ in jrange(arg):
                Q.x(q[0])
        out = post_values(spec["post"], ms, arg, where=jnp.where)
        return out if len(out) > 1 else out[0]

    want = post_reference(spec)
    arg = spec["arg"]
    jaspr = make_jaspr(main)(arg)
    qc = jaspr.to_qc(arg)[-1]
    pp = jaspr.extract_post_processing(arg)
    got = {}
    for key, p in qc.run().items():
        v = pp(key)
        v = tuple(int(x) for x in (v if isinstance(v, tuple) else (v,)))
        got[v] = got.get(v, 0) + p
    tot = sum(got.values())
    d = sum(abs(got.get(k, 0) / tot - want.get(k, 0)) for k in set(got) | set(want))
    require(d < 5e-3, "extracted circuit with post-processing gives another distribution", d=d, got=str(got), want=str(want))
    direct = jaspify(main)
    for _ in range(2):
        v = direct(arg)
        v = tuple(int(x) for x in (v if isinstance(v, tuple) else (v,)))
        require(want.get(v, 0) > 1e-6, "direct execution returned an impossible result", got=v, want=str(want))
    labels = ["postproc"] if len(want) > 1 else []
    if any(s[0] == "reset" for s in spec["body"]):
        labels.append("reset")
    if sum(s[0] == "meas" for s in spec["body"]) > 1:
        labels.append("several_measurements")
    return labels if len(want) > 1 else []


# ------------------------------------------------------------------ sampling


@st.composite
def sample_case(draw):
    nv = draw(st.sampled_from([1, 2, 3]))
    sizes = [draw(st.sampled_from([1, 2, 3])) for _ in range(nv)]
    definite = draw(st.booleans())
    return {
        "sizes": sizes,
        "exps": [draw(st.sampled_from([0, 0, -1])) for _ in range(nv)],
        "vals": [draw(st.integers(0, 2**s - 1)) for s in sizes],
        "definite": definite,
        "seed": draw(st.integers(0, 10**6)),
        "shots": draw(st.sampled_from([1, 3, 10, 64])),
        "post": draw(st.sampled_from(["none", "sum", "pair", "sq"])),
        "mode": draw(st.sampled_from(["sample", "ev", "ts", "sample_ts", "ev_ts", "dict"])),
        "perm": draw(st.booleans()),
    }


def check_sample(spec):
    import jax.numpy as jnp
    from qrisp import QuantumFloat, cx, ry, x
    from qrisp.jasp import expectation_value, jaspify, sample, terminal_sampling

    sizes, N = spec["sizes"], sum(spec["sizes"])
    r = np.random.default_rng(spec["seed"])
    ang = r.uniform(0.4, 2.6, N)
    shots = spec["shots"]

    def prep(k):
        qs = [QuantumFloat(s, e) for s, e in zip(sizes, spec["exps"])]
        flat = [q[i] for q, s in zip(qs, sizes) for i in range(s)]
        if spec["definite"]:
            for q, s, v in zip(qs, sizes, spec["vals"]):
                for i in range(s):
                    if (v >> i) & 1:
                        x(q[i])
        else:
            for i in range(N):
                ry(ang[i] * k, flat[i])
            for i in range(N - 1):
                cx(flat[i], flat[i + 1])
        if spec["perm"]:
            qs = qs[::-1]
        return tuple(qs) if len(qs) > 1 else qs[0]

    # reference distribution over decoded tuples
    psi = np.zeros(2**N, dtype=complex)
    psi[0] = 1
    if spec["definite"]:
        dist = {tuple(v * 2.0**e for v, e in zip(spec["vals"], spec["exps"])): 1.0}
    else:
        for i in range(N):
            psi = apply_gate(psi, ([], "", ["ry", [i], [float(ang[i])]]), N)
        for i in range(N - 1):
            psi = apply_gate(psi, ([], "", ["cx", [i, i + 1], []]), N)
        dist = {}
        for idx, a in enumerate(psi):
            bits = [(idx >> (N - 1 - i)) & 1 for i in range(N)]
            key, p = [], 0
            for s, e in zip(sizes, spec["exps"]):
                key.append(sum(bits[p + i] << i for i in range(s)) * 2.0**e)
                p += s
            dist[tuple(key)] = dist.get(tuple(key), 0) + float(abs(a) ** 2)
    if spec["perm"]:
        dist = {k[::-1]: p for k, p in dist.items()}

    posts = {
        "none": None,
        "sum": lambda *a: sum(a[1:], a[0]),
        "pair": lambda *a: (a[0] + 1, sum(a[1:], 2 * a[0])),
        "sq": lambda *a: a[0] * a[-1],
    }
    post = posts[spec["post"]]
    mode = spec["mode"]
    if mode in ("ts", "dict"):
        post = None
    vals = {}
    for k, p in dist.items():
        v = post(*k) if post else k
        v = tuple(float(t) for t in (v if isinstance(v, tuple) else (v,)))
        vals[v] = vals.get(v, 0) + p
    support = {k for k, p in vals.items() if p > 1e-7}
    mean = np.array([sum(p * k[i] for k, p in vals.items()) for i in range(len(next(iter(vals))))])
    var = np.array([sum(p * k[i] ** 2 for k, p in vals.items()) for i in range(len(mean))]) - mean**2
    labels = [mode] + ([] if spec["definite"] else ["superposition"])

    if mode == "dict":
        got = terminal_sampling(prep)(1.0)
        got = {tuple(float(t) for t in (k if isinstance(k, tuple) else (k,))): float(p) for k, p in got.items()}
        d = sum(abs(got.get(k, 0) - vals.get(k, 0)) for k in set(got) | set(vals))
        require(d < 5e-3, "terminal sampling distribution", d=d)
        return labels
    if mode == "ts":
        got = terminal_sampling(prep, shots=shots)(1.0)
        got = {tuple(float(t) for t in (k if isinstance(k, tuple) else (k,))): p for k, p in got.items()}
        require(abs(sum(got.values()) - shots) < 1e-6, "terminal sampling counts do not sum to the shots", got=str(got), shots=shots)
        require(all(any(max(abs(a - b) for a, b in zip(k, s)) < 1e-9 for s in support) for k in got), "terminal sampling returned an impossible value", got=str(got))
        return labels

    if mode.startswith("sample"):

        def main(k):
            return sample(prep, shots=shots, post_processor=post)(k)
    else:

        def main(k):
            return expectation_value(prep, shots=shots, post_processor=post)(k)

    res = np.asarray((jaspify(main, terminal_sampling=True) if mode.endswith("_ts") else jaspify(main))(1.0))
    if mode.startswith("sample"):
        require(res.shape[0] == shots and (res.ndim == 1) == (len(mean) == 1), "shape of the samples", shape=list(res.shape), shots=shots)
        rows = res.reshape(shots, -1)
        for row in rows:
            require(any(np.max(np.abs(row - np.array(s))) < 1e-6 for s in support), "sample outside of the support", row=row.tolist())
        est = rows.mean(axis=0)
    else:
        est = np.atleast_1d(res).reshape(-1)
        require(est.shape[0] == len(mean), "shape of the expectation value", shape=list(res.shape))
    tol = 7 * np.sqrt(np.maximum(var, 0) / shots) + 1e-4 * (1 + np.abs(mean)) + (0 if spec["definite"] else 7 * np.sqrt(np.maximum(var, 0.05) / shots) * (shots < 10))
    require(np.all(np.abs(est - mean) <= tol), "mean of the samples is far from the expectation value", est=est.tolist(), mean=mean.tolist())
    return labels


FACETS = [
    Facet("boolean", boolean_case(), check_boolean, quick=90, weight=8.0),
    Facet("postproc", post_case(), check_post, quick=260, weight=3.0),
    Facet("sampling", sample_case(), check_sample, quick=300, weight=2.0),
]
_ = (MATS, ONE, ROT)
