"""C13: quantum arrays behave like arrays of their elements."""

import itertools

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Reject, raises, require
from .c05 import data_state

PROPERTY = "C13"
RULE = (
    "(views) random histories of indexing, slicing, reshaping, transposing, concatenating, duplicating, assigning, in-place updates and deletion over a pool of views, mirrored on a numpy array of "
    "element identities; (elementwise) arithmetic, comparison and Boolean operators and reductions against the classical array; (matmul) products of quantum and classical matrices, dot, tensordot, in-place "
    "application; (qindex) quantum indices; (traced) view programs in traced mode. Non-trivial: a real view (slice/transpose/concatenation), superposed entries or an operator with two operands."
)


def wrap(v, t):
    """the value a QuantumFloat of type (size, exponent, signed) holds for v"""
    n, e, s = t
    k = int(round(v / 2.0**e))
    if s:
        return (((k + 2**n) % 2 ** (n + 1)) - 2**n) * 2.0**e
    return (k % 2**n) * 2.0**e


def qfloat(t):
    from qrisp import QuantumFloat

    return QuantumFloat(t[0], t[1], signed=t[2])


def labels_of(t):
    n, e, s = t
    return [k * 2.0**e for k in (range(-(2**n), 2**n) if s else range(2**n))]


def norm(v):
    v = v.item() if hasattr(v, "item") else v
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    return v if isinstance(v, str) else float(v)


def dist(res):
    out = {}
    for k, p in res.items():
        if p > 1e-6:
            key = (tuple(np.shape(k)), tuple(norm(x) for x in np.asarray(k).reshape(-1)))
            out[key] = out.get(key, 0) + p
    return out


def same(got, want, what, **info):
    require(set(got) == set(want) and all(abs(got[k] - want[k]) < 2e-3 for k in want), what, got=str(got), want=str(want), **info)


# ------------------------------------------------------------------ views

TYPES = ["f2", "f1s", "f2m", "bool", "mod", "char"]
QUBITS = {"f2": 2, "f1s": 2, "f2m": 2, "bool": 1, "mod": 2, "char": 5}


def element(t):
    from qrisp import QuantumBool, QuantumChar, QuantumFloat, QuantumModulus

    return {
        "f2": lambda: QuantumFloat(2),
        "f1s": lambda: QuantumFloat(1, 0, signed=True),
        "f2m": lambda: QuantumFloat(2, -1),
        "bool": QuantumBool,
        "mod": lambda: QuantumModulus(3),
        "char": QuantumChar,
    }[t]()


def number(t):
    return 3 if t == "mod" else 4 if t == "char" else 2 ** QUBITS[t]


SHAPES = [(1,), (2,), (3,), (4,), (2, 2), (1, 3), (3, 2), (2, 3), (2, 1, 2), (1, 2, 3)]


@st.composite
def key_for(draw, shape, oob=False):
    key, bad = [], draw(st.integers(0, len(shape) - 1)) if oob else -1
    for i, n in enumerate(shape):
        if i == bad:
            key.append(draw(st.sampled_from([n, n + 1, -n - 1])))
            continue
        kind = draw(st.sampled_from(["int", "neg", "all", "slice", "step", "rev"]))
        if kind == "int":
            key.append(draw(st.integers(0, n - 1)))
        elif kind == "neg":
            key.append(-draw(st.integers(1, n)))
        elif kind == "all":
            key.append([None, None, None])
        elif kind == "slice":
            a = draw(st.integers(0, n - 1))
            key.append([a, draw(st.integers(a + 1, n + 1)), None])
        elif kind == "step":
            key.append([draw(st.integers(0, n - 1)), None, 2])
        else:
            key.append([None, None, -1])
    cut = draw(st.sampled_from([0, 0, 1]))
    if cut and not oob and len(key) > 1:
        key = key[:-1]
    elif draw(st.integers(0, 5)) == 0 and not oob and len(key) > 1:
        key = ["e"] + key[1:] if draw(st.booleans()) else key[:-1] + ["e"]
    return key


def decode_key(key):
    out = tuple(Ellipsis if k == "e" else slice(*k) if isinstance(k, list) else k for k in key)
    return out[0] if len(out) == 1 else out


@st.composite
def view_case(draw):
    t = draw(st.sampled_from(TYPES))
    limit = 3 if t == "char" else 6
    shape = draw(st.sampled_from([s for s in SHAPES if int(np.prod(s)) <= limit]))
    size = int(np.prod(shape))
    pool = [np.arange(size).reshape(shape)]
    fresh, supers = set(range(size)), set()
    count = size
    ops = []
    budget = 14 // QUBITS[t]
    for _ in range(draw(st.integers(3, 9))):
        i = draw(st.integers(0, len(pool) - 1))
        a = pool[i]
        kind = draw(st.sampled_from(["get", "get", "get", "reshape", "transpose", "swapaxes", "flat", "concat", "concat", "dup", "dup", "set", "set", "set", "sup", "flip", "add", "oob"]))
        new = None
        if kind == "get":
            key = draw(key_for(a.shape))
            ops.append(["get", i, key])
            new = np.asarray(a[decode_key(key)])
            if not new.shape:
                new = None
        elif kind == "oob":
            ops.append(["oob", i, draw(key_for(a.shape, True))])
        elif kind == "reshape":
            divs = [d for d in range(1, a.size + 1) if a.size % d == 0]
            d = draw(st.sampled_from(divs))
            sh = draw(st.sampled_from([(d, a.size // d), (d, -1), (a.size,), (1, d, a.size // d)]))
            ops.append(["reshape", i, list(sh), draw(st.booleans())])
            new = a.reshape(sh)
        elif kind == "transpose":
            ax = draw(st.one_of(st.none(), st.permutations(range(a.ndim))))
            ops.append(["transpose", i, ax])
            new = a.transpose(ax)
        elif kind == "swapaxes":
            if a.ndim < 2:
                continue
            p = draw(st.permutations(range(a.ndim)))[:2]
            ops.append(["swapaxes", i, list(p), draw(st.booleans())])
            new = a.swapaxes(*p)
        elif kind == "flat":
            ops.append(["flat", i, draw(st.booleans())])
            new = a.flatten()
        elif kind == "concat":
            cands = [(j, ax) for j, b in enumerate(pool) for ax in range(a.ndim) if b.ndim == a.ndim and not set(a.flat) & set(b.flat) and all(x == y for k, (x, y) in enumerate(zip(a.shape, b.shape)) if k != ax)]
            if not cands:
                continue
            j, ax = draw(st.sampled_from(cands))
            ops.append(["concat", i, j, ax])
            new = np.concatenate([a, pool[j]], axis=ax)
        elif kind == "dup":
            if count + a.size > budget:
                continue
            init = draw(st.booleans())
            ops.append(["dup", i, init])
            new = np.arange(count, count + a.size).reshape(a.shape)
            for o, n in zip(a.flat, new.flat):
                if init:
                    fresh.discard(int(o))  # source of CNOT gates
                if not init:
                    fresh.add(int(n))
                if init and o in supers:
                    supers.add(int(n))
            count += a.size
        elif kind == "set":
            if not set(int(x) for x in a.flat) <= fresh:
                continue
            ops.append(["set", i, [draw(st.integers(0, number(t) - 1)) for _ in range(a.size)], draw(st.booleans())])
            fresh -= set(int(x) for x in a.flat)
        elif kind == "sup":
            if t in ("mod", "char"):
                continue
            e = int(draw(st.sampled_from([int(x) for x in a.flat])))
            if e in supers or len(supers) > 3:
                continue
            ops.append(["sup", i, [int(x) for x in np.argwhere(a == e)[0]]])
            supers.add(e)
            fresh.discard(e)
        elif kind == "flip":
            if t in ("mod", "char"):
                continue
            ops.append(["flip", i])
            fresh -= set(int(x) for x in a.flat)
        elif kind == "add":
            if t in ("bool", "char", "mod"):
                continue
            form = draw(st.sampled_from(["scalar", "array"]))
            ops.append(["add", i, form, [draw(st.integers(0, 3)) for _ in range(a.size)]])
            fresh -= set(int(x) for x in a.flat)
        if new is not None:
            pool.append(new)
    return {"t": t, "shape": list(shape), "ops": ops, "delete": draw(st.one_of(st.none(), st.integers(0, len(pool) - 1))), "look": [draw(st.integers(0, len(pool) - 1)) for _ in range(2)]}


def check_views(spec):
    from qrisp import QuantumArray, h, x

    t = spec["t"]
    q0 = element(t)
    n = QUBITS[t]
    qa = QuantumArray(q0, tuple(spec["shape"]))
    ids = np.arange(qa.size).reshape(spec["shape"])
    elems = {int(i): v for i, v in zip(ids.flat, list(qa))}
    state = {int(i): ("c", 0) for i in ids.flat}
    pool = [(qa, ids)]
    bits = 0
    dec = q0.decoder
    for op in spec["ops"]:
        k = op[0]
        a, ia = pool[op[1]]
        new = None
        if k == "get":
            key = decode_key(op[2])
            r, e = a[key], ia[key]
            if np.shape(e):
                new = (r, e)
            else:
                require(r.reg == elems[int(e)].reg, "indexed element is another variable", key=str(key))
        elif k == "oob":
            key = decode_key(op[2])
            require(raises(lambda: a[key], Exception), "index out of bounds accepted", key=str(key), shape=a.shape)
        elif k == "reshape":
            new = (np.reshape(a, tuple(op[2])) if op[3] else a.reshape(*op[2]), ia.reshape(op[2]))
        elif k == "transpose":
            new = (a.transpose() if op[2] is None else a.transpose(*op[2]), ia.transpose(op[2]))
        elif k == "swapaxes":
            new = (np.swapaxes(a, *op[2]) if op[3] else a.swapaxes(*op[2]), ia.swapaxes(*op[2]))
        elif k == "flat":
            new = (a.flatten() if op[2] else a.ravel(), ia.flatten())
        elif k == "concat":
            b, ib = pool[op[2]]
            new = (a.concatenate(b, axis=op[3]), np.concatenate([ia, ib], axis=op[3]))
        elif k == "dup":
            c = len(elems)
            r = a.duplicate(init=op[2])
            e = np.arange(c, c + ia.size).reshape(ia.shape)
            for o, m, v in zip(ia.flat, e.flat, list(r)):
                require(all(v.reg[0] != w.reg[0] for w in elems.values()), "duplicated element shares qubits")
                elems[int(m)] = v
                state[int(m)] = state[int(o)] if op[2] else ("c", 0)
            new = (r, e)
        elif k == "set":
            lab = np.array([dec(v) for v in op[2]] + [None], dtype=object)[:-1].reshape(ia.shape)
            if op[3] and ia.ndim:
                a[:] = lab if t in ("char", "bool") else lab.astype(float)
            else:
                a.encode(lab.tolist())
            for e, v in zip(ia.flat, op[2]):
                state[int(e)] = ("c", v)
        elif k == "sup":
            e = int(ia[tuple(op[2])])
            h(a[tuple(op[2])][0])
            v = state[e][1]
            if state[e][0] != "c":
                raise Reject()
            state[e] = ("b", bits, v & ~1, v | 1)
            if v & 1:
                pass
            bits += 1
        elif k == "flip":
            for v in a:
                x(v[0])
            apply_map(state, ia, lambda v, _: v ^ 1)
        elif k == "add":
            amounts = [op[3][0]] * ia.size if op[2] == "scalar" else op[3]
            unit = 0.5 if t == "f2m" else 1
            if op[2] == "scalar":
                a += op[3][0] * unit
            else:
                a += (np.array(op[3]) * unit).reshape(ia.shape) if t == "f2m" else np.array(op[3]).reshape(ia.shape)
            apply_map(state, ia, lambda v, j: (v + amounts[j]) % 2**n)
        if new is not None:
            r, e = new
            require(tuple(r.shape) == e.shape and r.size == e.size and r.ndim == e.ndim and len(r) == len(e), "shape", got=tuple(r.shape), want=e.shape)
            for v, m in zip(list(r), e.flat):
                require(v.reg == elems[int(m)].reg, "view addresses other qubits", op=str(op))
            pool.append(new)
    for j in spec["look"]:
        a, ia = pool[j]
        want = {}
        for assign in itertools.product((0, 1), repeat=bits):
            row = [state[int(e)] for e in ia.flat]
            vals = tuple(norm(dec(s[1] if s[0] == "c" else s[2 + assign[s[1]]])) for s in row)
            key = (ia.shape, vals)
            want[key] = want.get(key, 0) + 0.5**bits
        same(dist(a.get_measurement()), want, "measured array", view=str(ia.tolist()))
    if spec["delete"] is not None:
        a, ia = pool[spec["delete"]]
        a.delete()
        for m, v in elems.items():
            require(v.is_deleted() == (m in set(int(e) for e in ia.flat)), "wrong elements deleted", element=m, view=str(ia.tolist()))
    kinds = sorted({o[0] for o in spec["ops"]} & {"get", "reshape", "transpose", "swapaxes", "concat", "dup", "sup"})
    return kinds if len(spec["ops"]) > 1 else []


def apply_map(state, ia, f):
    for j, e in enumerate(ia.flat):
        s = state[int(e)]
        state[int(e)] = ("c", f(s[1], j)) if s[0] == "c" else ("b", s[1], f(s[2], j), f(s[3], j))


# ------------------------------------------------------------------ element-wise operators

FT = [(1, 0, False), (2, 0, False), (2, -1, False), (1, 0, True), (1, 1, False)]
OPS = {
    "+": lambda a, b: a + b,
    "-": lambda a, b: a - b,
    "*": lambda a, b: a * b,
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
}


@st.composite
def element_case(draw):
    kind = draw(st.sampled_from(["float", "float", "float", "bool", "reduce", "mod"]))
    shape = draw(st.sampled_from([(1,), (2,), (2,), (1, 2), (2, 1)]))
    size = int(np.prod(shape))
    spec = {"kind": kind, "shape": list(shape), "view": draw(st.sampled_from(["none", "T", "rev"])), "sup": draw(st.booleans())}
    if kind == "float":
        ta, tb = draw(st.sampled_from(FT)), draw(st.sampled_from(FT))
        op = draw(st.sampled_from(list(OPS) + ["+=", "-="]))
        other = draw(st.sampled_from(["array", "array", "np", "scalar", "var"] if op != "*" else ["array", "var"]))
        if op in ("+=", "-="):  # the operand has to fit into the target
            tb = ta
        va = [draw(st.sampled_from(labels_of(ta))) for _ in range(size)]
        if other in ("np", "scalar"):
            tb = ta
        vb = [draw(st.sampled_from(labels_of(tb))) for _ in range(size)]
        spec.update(ta=list(ta), tb=list(tb), op=op, other=other, a=va, b=vb)
    elif kind == "mod":
        N = draw(st.sampled_from([3, 5]))
        spec.update(N=N, op=draw(st.sampled_from(["+", "-", "*", "+=", "-=", "*="])), other=draw(st.sampled_from(["np", "scalar"])), a=[draw(st.integers(0, N - 1)) for _ in range(size)], b=[draw(st.integers(1, N - 1)) for _ in range(size)])
    elif kind == "bool":
        spec.update(op=draw(st.sampled_from(["&", "|", "^"])), other=draw(st.sampled_from(["array", "array", "var"])), a=[draw(st.booleans()) for _ in range(size)], b=[draw(st.booleans()) for _ in range(size)])
    else:
        sh = draw(st.sampled_from([(3,), (2, 2), (1, 3), (2, 1, 2), (2, 3)]))
        nd = len(sh)
        axis = draw(st.one_of(st.none(), st.integers(-nd, nd - 1), st.sampled_from([[0, nd - 1]] if nd > 2 else [[0]])))
        n = int(np.prod(sh))
        spec.update(shape=list(sh), op=draw(st.sampled_from(["all", "any"])), axis=axis, a=[draw(st.sampled_from([True, True, False])) if spec["view"] == "T" else draw(st.booleans()) for _ in range(n)], sup=draw(st.booleans()), view="none")
    return spec


def view_of(arr, v):
    return {"none": arr, "T": arr.transpose(), "rev": arr[::-1]}[v]


def joint(variables):
    from qrisp import multi_measurement

    out = {}
    for k, p in multi_measurement(variables).items():
        if p > 1e-6:
            key = tuple(tuple(norm(x) for x in np.asarray(e).reshape(-1)) for e in k)
            out[key] = out.get(key, 0) + p
    return out


def check_elementwise(spec):
    from qrisp import QuantumArray, QuantumBool, QuantumModulus, h

    shape, kind = tuple(spec["shape"]), spec["kind"]
    ref = np.array(spec["a"] + [None], dtype=object)[:-1][: int(np.prod(shape))].reshape(shape)
    if kind == "float":
        proto, tb = qfloat(spec["ta"]), spec["tb"]
    elif kind == "mod":
        proto = QuantumModulus(spec["N"])
    else:
        proto = QuantumBool()
    a = QuantumArray(proto, shape)
    a[:] = ref if kind in ("bool", "reduce") else ref.astype(float)
    first = [ref.reshape(-1)[0]]
    if spec["sup"] and kind != "mod":
        e = a.flatten()[0]
        h(e[0])
        code = e.encoder(ref.reshape(-1)[0])
        first = [e.decoder(code & ~1), e.decoder(code | 1)]
    branches = []
    for f in first:
        r = ref.copy()
        r.reshape(-1)[0] = f
        branches.append(r)
    if kind == "reduce":
        ax = tuple(spec["axis"]) if isinstance(spec["axis"], list) else spec["axis"]
        res = getattr(a, spec["op"])(axis=ax)
        want = {}
        for r in branches:
            w = np.asarray(getattr(np, spec["op"])(r.astype(bool), axis=ax))
            key = (tuple(map(norm, r.reshape(-1))), tuple(map(norm, w.reshape(-1))))
            want[key] = want.get(key, 0) + 1 / len(branches)
        if w.shape:
            require(tuple(res.shape) == w.shape, "shape of the reduction", got=tuple(res.shape), want=w.shape)
        same(joint([a, res]), want, "reduction")
        return [spec["op"]]

    av = view_of(a, spec["view"])
    vshape = view_of(ref, spec["view"]).shape
    vb = np.array(spec["b"] + [None], dtype=object)[:-1][: int(np.prod(shape))].reshape(vshape)
    other = spec["other"]
    if kind == "mod":
        vb = vb.astype(int)
    elif kind == "float":
        vb = vb.astype(float)
    operand = None
    if other == "array":
        b = QuantumArray(qfloat(tb) if kind == "float" else QuantumBool(), vshape)
        b[:] = vb
        operand, vals = b, vb
    elif other == "np":
        operand, vals = (vb if kind == "mod" or spec["ta"][1] < 0 else vb.astype(int)), vb
    elif other == "scalar":
        s = vb.reshape(-1)[0].item()
        operand, vals = (int(s) if s == int(s) else s), np.full(vshape, s)
    else:
        s = vb.reshape(-1)[0]
        b = qfloat(tb) if kind == "float" else QuantumBool()
        b[:] = s
        operand, vals = b, np.full(vshape, s)
    op = spec["op"]
    inplace = op in ("+=", "-=", "*=")
    if inplace:
        if op == "+=":
            av += operand
        elif op == "-=":
            av -= operand
        else:
            av *= operand
        res = av
    elif op in OPS:
        res = OPS[op](av, operand)
    else:
        res = {"&": lambda: av & operand, "|": lambda: av | operand, "^": lambda: av ^ operand}[op]()
    require(tuple(res.shape) == tuple(vshape), "shape of the result", got=tuple(res.shape), want=vshape)
    want = {}
    quantum = other in ("array", "var")
    for r in branches:
        rv = view_of(r, spec["view"])
        out = []
        for x_, y_ in zip(rv.reshape(-1), vals.reshape(-1)):
            if kind == "bool":
                out.append({"&": x_ and y_, "|": x_ or y_, "^": bool(x_) != bool(y_)}[op])
            elif kind == "mod":
                out.append({"+": x_ + y_, "-": x_ - y_, "*": x_ * y_}[op[0]] % spec["N"])
            elif inplace:
                out.append(wrap(x_ + y_ if op == "+=" else x_ - y_, spec["ta"]))
            elif op in ("+", "-") and not quantum:
                out.append(wrap(OPS[op](x_, y_), spec["ta"]))
            else:
                out.append(OPS[op](x_, y_))
        key = (tuple(map(norm, out)),)
        if not inplace:
            key = (tuple(map(norm, r.reshape(-1))),) + key
        if quantum:
            key += (tuple(map(norm, vals.reshape(-1))) if other == "array" else (norm(vals.reshape(-1)[0]),),)
        want[key] = want.get(key, 0) + 1 / len(branches)
    look = ([] if inplace else [a]) + [res] + ([operand] if quantum else [])
    same(joint(look), want, "element-wise " + op, other=other)
    return [op, other]


# ------------------------------------------------------------------ matrix products


@st.composite
def matmul_case(draw):
    kind = draw(st.sampled_from(["qq", "qq", "qc", "cq", "dot", "dot", "tensordot", "inplace", "scalar"]))
    L, K, J = (draw(st.sampled_from([1, 2])) for _ in range(3))
    form = draw(st.sampled_from(["eq", "eq", "safe", "type", "out"]))
    n = draw(st.sampled_from([1, 2])) if kind != "inplace" else draw(st.sampled_from([1, 2, 3]))
    signed = draw(st.booleans()) if kind in ("qq", "qc") else False
    if kind == "qq" and draw(st.integers(0, 3)) == 0:
        L = J = 1
        K = 3
        n = 1
    e = draw(st.sampled_from([0, 0, 1])) if kind in ("qq",) else 0
    if kind in ("qq", "dot", "tensordot") and L * K + K * J + L * J > 8:
        n = 1
    if signed:
        n = 1
    spec = {"kind": kind, "dims": [L, K, J], "form": form, "t": [n, e, signed], "sup": draw(st.booleans()), "vec": draw(st.sampled_from(["none", "none", "a", "b", "ab"])), "transpose": draw(st.booleans())}
    pool = labels_of((n, e, signed))
    if signed and form == "safe":  # the product of two minima does not fit, see C08
        pool = pool[1:]
    spec["a"] = [draw(st.sampled_from(pool)) if kind != "cq" else draw(st.integers(-2, 3)) for _ in range(L * K)]
    if kind == "qc":
        spec["b"] = [draw(st.integers(-2, 3)) for _ in range(K * J)]
    elif kind == "inplace":
        m = draw(st.sampled_from([1, 2, 3]))
        if m == 3:
            n = spec["t"][0] = min(n, 2)
        low = np.array([[draw(st.integers(0, 3)) if j < i else int(i == j) for j in range(m)] for i in range(m)])
        up = np.array([[draw(st.integers(0, 3)) if j > i else int(i == j) * draw(st.sampled_from([1, 3])) for j in range(m)] for i in range(m)])
        mat = (low @ up)[draw(st.permutations(range(m)))]
        spec["b"] = mat.tolist()
        spec["a"] = [draw(st.integers(0, 2**n - 1)) for _ in range(m)]
    else:
        spec["b"] = [draw(st.sampled_from(pool)) for _ in range(K * J)]
    spec["quantum"] = draw(st.sampled_from(["qq", "qc", "cq"]))
    return spec


def check_matmul(spec):
    from qrisp import QuantumArray, dot, h, inplace_matrix_app, q_matmul, semi_classic_matmul, tensordot

    L, K, J = spec["dims"]
    t = tuple(spec["t"])
    kind = spec["kind"]
    if kind == "inplace":
        v = QuantumArray(qfloat(t), len(spec["a"]))
        v[:] = np.array(spec["a"])
        m = np.array(spec["b"])
        branches = [np.array(spec["a"])]
        if spec["sup"]:
            h(v[0][0])
            branches = [np.array([(spec["a"][0] & ~1) | b] + spec["a"][1:]) for b in (0, 1)]
        inplace_matrix_app(v, m)
        want = {}
        for b in branches:
            w = (m @ b) % 2 ** t[0]
            key = (w.shape, tuple(map(float, w)))
            want[key] = want.get(key, 0) + 1 / len(branches)
        same(dist(v.get_measurement()), want, "in-place matrix")
        return ["inplace"]

    A, B = np.array(spec["a"]).reshape(L, K), np.array(spec["b"]).reshape(K, J)

    def quantum(ref):
        q = QuantumArray(qfloat(t), ref.shape[::-1] if spec["transpose"] else ref.shape)
        if spec["transpose"]:
            q = q.transpose()
        q[:] = ref.astype(float)
        return q

    vec = spec["vec"] if kind == "dot" else "none"
    if "a" in vec:
        A = A[0]
    if "b" in vec:
        B = B[:, 0]
    if kind == "tensordot":
        A, B = A.reshape(1, L, K), B.reshape(K, 1, J)
    qs = {"qq": (1, 1), "qc": (1, 0), "cq": (0, 1), "dot": (1, 1), "tensordot": (1, 1), "scalar": (1, 1)}[kind]
    if kind == "dot":
        qs = {"qq": (1, 1), "qc": (1, 0), "cq": (0, 1)}[spec["quantum"]]
    qa = quantum(A) if qs[0] else None
    qb = quantum(B) if qs[1] else None
    rt = t
    branches = [(A, B)]
    if spec["sup"]:
        target, ref, which = (qa, A, 0) if qa is not None else (qb, B, 1)
        e = target.flatten()[0]
        h(e[0])
        code = e.encoder(ref.reshape(-1)[0])
        sign = -1 if code & 1 else 1
        branches = []
        for c in (code & ~1, code | 1):
            r = ref.copy()
            r.reshape(-1)[0] = e.decoder(c)
            branches.append((r, B) if which == 0 else (A, r))
    form = spec["form"]
    kw = {}
    out = None
    big = (3, t[1], t[2])
    if kind in ("qq", "qc"):
        if form == "safe":
            kw["res_bit_shape"] = "safe"
            rt = None
        elif form == "type":
            kw["res_bit_shape"] = qfloat(big)
            rt = big
    if form == "out" and kind in ("qq", "qc", "dot"):
        rt = big
        shape = np.dot(A, B).shape
        if kind == "dot" and "none" != vec:
            rt = t
        else:
            out = QuantumArray(qfloat(big), shape)
            kw["out" if kind == "dot" else "output_array"] = out
    if kind == "qq":
        res = q_matmul(qa, qb, **kw) if kw or spec["transpose"] else qa @ qb
    elif kind == "qc":
        res = semi_classic_matmul(qa, B, **kw) if kw or spec["transpose"] else qa @ B
    elif kind == "cq":
        res = A @ qb
    elif kind == "dot":
        res = dot(qa if qs[0] else A, qb if qs[1] else B, **kw)
    elif kind == "tensordot":
        res = tensordot(qa, qb, (-1, 0))
    else:
        i, j = 0, 0
        res = dot(qa[i], qb[0])[j] if False else dot(qa.flatten()[:1], qb.flatten()[:1])
        branches = [(a.reshape(-1)[:1], b.reshape(-1)[:1]) for a, b in branches]
    want = {}
    for a, b in branches:
        w = np.tensordot(a, b, (-1, 0)) if kind == "tensordot" else np.dot(a, b)
        vals = tuple(float(x) if rt is None else wrap(x, rt) for x in np.asarray(w).reshape(-1))
        key = (np.shape(w), vals)
        want[key] = want.get(key, 0) + 1 / len(branches)
    got = dist(res.get_measurement())
    if kind == "dot" and vec == "a":  # documented to keep a leading axis
        got = {((s if len(s) == 1 else s[1:]), v): p for (s, v), p in got.items()}
    same(got, want, "matrix product", rt=str(rt))
    if out is not None:
        same(dist(out.get_measurement()), want, "output array of the product")
    if spec["sup"] and kind == "qq":
        qs_ = res.qs
        qubits = [q for arr in (qa, qb, res) for v in arr for q in v.reg]
        amp = data_state(qs_.compile(), qubits, "matrix product")
        amp = amp[abs(amp) > 0.1]
        require(len(amp) == 2 and abs(amp[0] - sign * amp[1]) < 5e-3, "relative phase of the branches", amp=str(amp))
    # the factors are left as they were
    for q, ref, i in ((qa, A, 0), (qb, B, 1)):
        if q is not None and kind != "scalar":
            w = {}
            for br in branches:
                key = (np.shape(ref), tuple(map(float, br[i].reshape(-1))))
                w[key] = w.get(key, 0) + 1 / len(branches)
            same(dist(q.get_measurement()), w, "factor changed")
    return [kind, form if kw else "plain"]


# ------------------------------------------------------------------ quantum indices


@st.composite
def qindex_case(draw):
    shape = draw(st.sampled_from([(2,), (4,), (4,), (2, 2), (2, 4)]))
    t = draw(st.sampled_from(["f1", "f2", "bool"] if int(np.prod(shape)) < 8 else ["f1", "bool"]))
    n = 2 if t == "f2" else 1
    size = int(np.prod(shape))
    bits = [int(np.log2(s)) for s in shape]
    return {
        "shape": list(shape),
        "t": t,
        "vals": [draw(st.integers(0, 2**n - 1)) for _ in range(size)],
        "index": [draw(st.lists(st.integers(0, 2**b - 1), min_size=1, max_size=1))[0] for b in bits],
        "sup": [draw(st.booleans()) for _ in bits],
        "view": draw(st.sampled_from(["none", "rev", "T"])),
        "ops": draw(st.lists(st.sampled_from(["x", "read", "add", "z"]), min_size=1, max_size=2)),
        "kind": draw(st.sampled_from(["env", "env", "env", "indexing", "swap"])),
        "twice": draw(st.booleans()),
    }


def check_qindex(spec):
    from qrisp import QuantumArray, QuantumBool, QuantumFloat, QuantumVariable, cx, h, x, z
    from qrisp.alg_primitives.iterable_processing import q_indexing, q_swap_into

    shape = tuple(spec["shape"])
    proto = QuantumBool() if spec["t"] == "bool" else QuantumFloat(2 if spec["t"] == "f2" else 1)
    n = proto.size
    arr = QuantumArray(proto, shape)
    ref = np.array(spec["vals"]).reshape(shape)
    arr[:] = ref.astype(float) if spec["t"] != "bool" else ref.astype(bool)
    view, rv = view_of(arr, spec["view"]), view_of(ref, spec["view"])
    vshape = rv.shape
    idx, options = [], []
    for s, i, sup in zip(vshape, spec["index"], spec["sup"]):
        b = int(np.log2(s))
        q = QuantumFloat(b)
        i %= s
        q[:] = i
        opts = [i]
        if sup:
            h(q[b - 1])
            opts = [i & ~(1 << (b - 1)), i | (1 << (b - 1))]
        idx.append(q)
        options.append(opts)
    key = tuple(idx) if len(idx) > 1 else idx[0]
    res = QuantumVariable(n)
    kind = spec["kind"] if len(idx) == 1 else "env"
    want = {}
    rounds = 2 if spec["twice"] and kind == "env" else 1
    for pick in itertools.product(*options):
        r = rv.copy()
        out = 0
        if kind == "indexing":
            out = int(r[pick])
        elif kind == "swap":
            out, r[pick] = int(r[pick]), 1
        else:
            for o in spec["ops"] * rounds:
                if o == "x":
                    r[pick] ^= 1
                elif o == "add" and spec["t"] != "bool":
                    r[pick] = (r[pick] + 1) % 2**n
                elif o == "read":
                    out ^= int(r[pick])
        k = (tuple(map(float, pick)), tuple(norm(proto.decoder(int(v))) for v in r.reshape(-1)), (norm(format(out, f"0{n}b")[::-1] if kind != "swap" else out),))
        want[k] = want.get(k, 0) + 1 / int(np.prod([len(o) for o in options]))
    if kind == "indexing":
        got_var = q_indexing(view, idx[0])
        res = got_var
    elif kind == "swap":
        res = QuantumFloat(n) if spec["t"] != "bool" else QuantumBool()
        x(res[0])
        q_swap_into(view, idx[0], res)
    else:
        for _ in range(rounds):
            with view[key] as entry:
                for o in spec["ops"]:
                    if o == "x":
                        x(entry[0])
                    elif o == "z":
                        z(entry[0])
                    elif o == "add" and spec["t"] != "bool":
                        entry += 1
                    elif o == "read":
                        for i in range(n):
                            cx(entry[i], res[i])
    got = {}
    from qrisp import multi_measurement

    for k, p in multi_measurement(idx + [view, res]).items():
        if p > 1e-6:
            last = k[-1]
            if kind == "env":
                last = str(last)
            elif kind == "indexing":
                last = format(res.encoder(last), f"0{n}b")[::-1]
            else:
                last = float(res.encoder(last))
            kk = (tuple(float(v) for v in k[: len(idx)]), tuple(norm(v) for v in np.asarray(k[len(idx)]).reshape(-1)), (last,))
            got[kk] = got.get(kk, 0) + p
    same(got, want, "quantum index " + kind)
    return [kind] + (["superposed"] if any(spec["sup"]) else [])


# ------------------------------------------------------------------ traced mode


@st.composite
def traced_case(draw):
    spec = draw(view_case())
    spec["t"] = draw(st.sampled_from(["f2", "f1s", "bool", "mod"]))
    ops = [o for o in spec["ops"] if o[0] != "oob" and o[0] != "sup"]
    spec["ops"] = ops
    return spec


def check_traced(spec):
    import jax.numpy as jnp
    from qrisp import QuantumArray, measure, x
    from qrisp.jasp import jaspify

    t = spec["t"]
    n = QUBITS[t]
    ref = element(t)
    table = [ref.decoder(v) for v in range(number(t) if t == "mod" else 2**n)]
    size = int(np.prod(spec["shape"]))
    if any(o[0] == "get" and "e" in o[2] for o in spec["ops"]) or len(spec["ops"]) > 7:
        raise Reject()
    number_of = number(t)

    def run(pool_, quantum):
        for op in spec["ops"]:
            k = op[0]
            a = pool_[op[1]]
            new = None
            if k == "get":
                r = a[decode_key(op[2])]
                if (quantum and isinstance(r, QuantumArray)) or (not quantum and np.shape(r)):
                    new = r
            elif k == "reshape":
                new = a.reshape(*op[2])
            elif k == "transpose":
                new = a.transpose() if op[2] is None else a.transpose(*op[2])
            elif k == "swapaxes":
                new = a.swapaxes(*op[2])
            elif k == "flat":
                new = a.flatten()
            elif k == "concat":
                b = pool_[op[2]]
                new = a.concatenate(b, axis=op[3]) if quantum else np.concatenate([a, b], axis=op[3])
            elif k == "dup":
                if quantum:
                    new = a.duplicate(init=op[2])
                else:
                    new = np.arange(len(state), len(state) + a.size).reshape(a.shape)
                    state.extend([state[o] if op[2] else 0 for o in a.flat])
            elif k == "set":
                vals = [v % number_of for v in op[2]]
                if quantum:
                    lab = [table[v] for v in vals]
                    a[:] = jnp.array(lab, dtype=bool if t == "bool" else jnp.int64).reshape(a.shape)
                else:
                    for e, v in zip(a.flat, vals):
                        state[e] = v
            elif k == "flip" and t != "mod":
                if quantum:
                    x(a.flatten()[0][0])
                else:
                    state[a.flat[0]] ^= 1
            elif k == "add" and t == "f2":
                amounts = [op[3][0]] * len(op[3]) if op[2] == "scalar" else op[3]
                if quantum:
                    if op[2] == "scalar":
                        a += op[3][0]
                    else:
                        a += jnp.array(op[3]).reshape(a.shape)
                else:
                    for e, v in zip(a.flat, amounts):
                        state[e] = (state[e] + v) % 2**n
            if new is not None:
                pool_.append(new)
        return pool_

    state = [0] * size
    model = run([np.arange(size).reshape(spec["shape"])], False)
    look = [i for i in spec["look"] if model[i].ndim]
    if not look:
        raise Reject()

    def main():
        arr = QuantumArray(element(t), tuple(spec["shape"]))
        pool_ = run([arr], True)
        require(all(tuple(p.shape) == m.shape for p, m in zip(pool_, model)), "shape")
        return tuple(measure(pool_[i]) for i in look)

    got = jaspify(main)()
    if not isinstance(got, tuple):
        got = (got,)
    for g, i in zip(got, look):
        want = np.array([norm(table[state[e]]) for e in model[i].flat]).reshape(model[i].shape)
        require(np.array_equal(np.asarray(g).astype(float), want.astype(float)), "traced array", got=np.asarray(g).tolist(), want=want.tolist(), view=model[i].tolist())
    return sorted({o[0] for o in spec["ops"]} & {"get", "reshape", "transpose", "concat", "dup", "set", "add"})


FACETS = [
    Facet("views", view_case(), check_views, quick=150, weight=2.0),
    Facet("elementwise", element_case(), check_elementwise, quick=110, weight=2.0),
    Facet("matmul", matmul_case(), check_matmul, quick=80, weight=2.0),
    Facet("qindex", qindex_case(), check_qindex, quick=80),
    Facet("traced", traced_case(), check_traced, quick=32, weight=3.0),
]
