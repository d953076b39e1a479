"""C28 - quantum backtracking explores exactly the tree the predicates define.

Small trees with arbitrary sets of accepted and rejected nodes.  The walk
operator is rebuilt as a matrix over the nodes of the tree from the definition
(direct sums of reflections) and compared amplitude by amplitude; the phase
estimation is compared with the distribution this matrix predicts, and the
search with the classical backtracking algorithm.
"""

import itertools

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Reject, require

PROPERTY = "C28"
RULE = "the tree has at least one accepted or rejected node, or the case concerns a node below the root"
TOL = 2e-3


def paths(depth, deg):
    return [list(p) for l in range(depth + 1) for p in itertools.product(range(deg), repeat=l)]


@st.composite
def tree_spec(draw, shapes=((1, 1), (2, 1), (2, 1), (3, 1), (3, 1), (4, 1), (1, 2), (2, 2)), accept_root=True):
    depth, bits = draw(st.sampled_from(shapes))
    nodes = paths(depth, 2**bits)
    acc, rej = [], []
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        p = draw(st.sampled_from(nodes))
        if p not in acc and (p or accept_root):
            acc.append(p)
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        p = draw(st.sampled_from(nodes))
        if p not in acc and p not in rej and (p or draw(st.integers(0, 4)) == 0):
            rej.append(p)
    opt = draw(st.booleans())
    junk = []
    if not opt:
        # register states which are no node; what reject says about them must not matter
        for _ in range(draw(st.integers(0, 3))):
            p = [draw(st.integers(0, 2**bits - 1)) for _ in range(depth)]
            low = draw(st.integers(0, depth - 1))
            p[low] = draw(st.integers(1, 2**bits - 1))
            if [low, p] not in junk:
                junk.append([low, p])
    return {"depth": depth, "bits": bits, "accept": acc, "reject": rej, "opt": opt, "junk": junk}


def predicate(members, depth, bits, exact, junk=()):
    """True on the listed nodes; `exact` also looks at the entries below the node

    junk: further pairs (level, values) where a value deeper than the level is not zero
    """

    def f(tree):
        from qrisp import QuantumBool, mcx

        res = QuantumBool()
        for path in members:
            qubits, state = [tree.h[depth - len(path)]], "1"
            for j in range(depth if exact else len(path)):
                value = path[j] if j < len(path) else 0
                el = tree.branch_qa[depth - 1 - j]
                for b in range(bits):
                    qubits.append(el[b])
                    state += str((value >> b) & 1)
            mcx(qubits, res[0], ctrl_state=state)
        for level, values in junk:
            qubits, state = [tree.h[depth - level]], "1"
            for j in range(depth):
                for b in range(bits):
                    qubits.append(tree.branch_qa[depth - 1 - j][b])
                    state += str((values[j] >> b) & 1)
            mcx(qubits, res[0], ctrl_state=state)
        return res

    return f


def build(t):
    from qrisp import QuantumFloat
    from qrisp.quantum_backtracking import QuantumBacktrackingTree

    d, b = t["depth"], t["bits"]
    return QuantumBacktrackingTree(
        d, QuantumFloat(b), predicate(t["accept"], d, b, True), predicate(t["reject"], d, b, not t["opt"], t["junk"]), subspace_optimization=t["opt"]
    )


# ------------------------------------------------------------- reference


def walk(t, root=()):
    """index of the nodes below `root` and the operators R_A, R_B on them"""
    root = list(root)
    deg, n = 2 ** t["bits"], t["depth"] - len(root)
    nodes = [root + p for p in paths(n, deg)]
    index = {tuple(p): i for i, p in enumerate(nodes)}
    R = [np.eye(len(nodes)), np.eye(len(nodes))]
    for p in nodes:
        level = len(p) - len(root)
        kids = [index[tuple(p + [j])] for j in range(deg)] if level < n else []
        i = index[tuple(p)]
        M = R[level % 2]
        if p in t["accept"]:
            continue
        if p in t["reject"]:
            for k in [i] + kids:
                M[k, k] = -1
            continue
        v = np.zeros(len(nodes))
        v[i] = 1
        v[kids] = np.sqrt(n) if level == 0 else 1
        v /= np.linalg.norm(v)
        idx = [i] + kids
        M[np.ix_(idx, idx)] -= 2 * np.outer(v[idx], v[idx])
    return nodes, index, R[1] @ R[0]


def classical(t, path):
    if path in t["accept"]:
        return True
    if path in t["reject"] or len(path) == t["depth"]:
        return False
    return any(classical(t, path + [j]) for j in range(2 ** t["bits"]))


def visited(t, path):
    """nodes the classical algorithm can look at"""
    out = [path]
    if path in t["accept"] or path in t["reject"] or len(path) == t["depth"]:
        return out
    for j in range(2 ** t["bits"]):
        out += visited(t, path + [j])
    return out


def node_state(tree, t, path, extra=None):
    d = t["depth"]
    spec = {tree.h: d - len(path)}
    for j in range(d):
        spec[tree.branch_qa[d - 1 - j]] = path[j] if j < len(path) else 0
    spec.update(extra or {})
    return spec


def labels_of(t, root=()):
    out = ["depth%d" % t["depth"]]
    if t["accept"]:
        out.append("accept")
    if t["reject"]:
        out.append("reject")
    if t["opt"]:
        out.append("subspace")
    if t["junk"]:
        out.append("junk")
    if t["bits"] > 1:
        out.append("wide")
    if root:
        out.append("subtree")
    return out if (t["accept"] or t["reject"] or root) else []


# ------------------------------------------------------------- nodes


@st.composite
def node_case(draw):
    t = draw(tree_spec(((1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (1, 2), (2, 2), (3, 2), (2, 3))))
    path = draw(st.sampled_from(paths(t["depth"], 2 ** t["bits"])[:200]))
    if draw(st.integers(0, 3)):
        path = [draw(st.integers(0, 2 ** t["bits"] - 1)) for _ in range(draw(st.integers(1, t["depth"])))]
    cut = draw(st.sampled_from([None, None, 0, 1, 2]))
    if cut is not None:
        cut = min(cut, len(path))
    return {"tree": t, "path": path, "cut": cut, "what": draw(st.sampled_from(["node", "phi", "pred"]))}


def check_node(s):
    from qrisp import multi_measurement

    t, path, cut = s["tree"], s["path"], s["cut"]
    tree = build(t)
    root = []
    if cut is not None:
        root, path = path[:cut], path[cut:]
        tree = tree.subtree(root)
    d = t["depth"]
    n = d - len(root)
    full = root + path
    require(tree.max_depth == n, "wrong depth of the (sub)tree", case=s, got=tree.max_depth)
    if s["what"] == "phi" and n > 0:
        tree.init_phi(path)
        f = tree.qs.statevector("function")
        expected = [(root + path[:i], (np.sqrt(n) if i == 0 else (-1) ** i)) for i in range(len(path) + 1)]
        norm = np.sqrt(sum(a * a for _, a in expected))
        got = [complex(f(node_state(tree, t, p))) for p, _ in expected]
        require(
            np.allclose(got, [a / norm for _, a in expected], atol=TOL),
            "init_phi does not prepare the invariant state of the path",
            case=s,
            got=[str(x) for x in got],
            expected=[a / norm for _, a in expected],
        )
        return ["phi", "len%d" % len(path)] + (["subtree"] if root else [])
    tree.init_node(path)
    if s["what"] == "pred":
        a, r = tree.accept(), tree.reject()
        require(a.get_measurement() == {full in t["accept"]: 1.0}, "accept is not evaluated on the node", case=s, got=a.get_measurement())
        require(r.get_measurement() == {full in t["reject"]: 1.0}, "reject is not evaluated on the node", case=s, got=r.get_measurement())
        return ["pred"] + labels_of(t, root)
    res = multi_measurement([tree.h, tree.branch_qa])
    require(len(res) == 1, "a node is not a basis state", case=s, got=str(res))
    ((h, qa),) = res.keys()
    require(h == n - len(path), "wrong height of the node", case=s, got=h)
    top = tree.original_tree if cut is not None else tree
    require([int(x) for x in top.path_decoder(h, qa)] == full, "the node does not decode to its path", case=s, got=str(top.path_decoder(h, qa)))
    if d * t["bits"] <= 4:
        amp = {tuple(int(x) for x in v.path): complex(v.amplitude) for v in tree.statevector_graph().nodes()}
        require(len(amp) == sum(2 ** (t["bits"] * i) for i in range(n + 1)), "wrong number of nodes in the graph", case=s, got=len(amp))
        for p, a in amp.items():
            require(abs(a - (list(p) == path)) < TOL, "the graph shows a different state", case=s, node=p, got=str(a))
    return ["node", "len%d" % len(path)] + (["subtree"] if root else []) if full else []


# ------------------------------------------------------------- step


@st.composite
def step_case(draw):
    t = draw(tree_spec())
    root = []
    if t["depth"] > 1 and draw(st.integers(0, 2)) == 0:
        root = [draw(st.integers(0, 2 ** t["bits"] - 1)) for _ in range(draw(st.integers(1, t["depth"] - 1)))]
    start = [p for p in visited(t, root)]
    return {
        "tree": t,
        "root": root,
        "start": draw(st.sampled_from(start)),
        "phi": draw(st.integers(0, 3)) == 0,
        "steps": draw(st.sampled_from([1, 1, 2, 3])),
        "ctrl": draw(st.integers(0, 2)) == 0,
    }


def check_step(s):
    from qrisp import QuantumBool, h

    t, root = s["tree"], s["root"]
    nodes, index, W = walk(t, root)
    tree = build(t)
    if root:
        tree = tree.subtree(root)
    below = s["start"][len(root) :]
    vec = np.zeros(len(nodes))
    if s["phi"]:
        tree.init_phi(below)
        for i in range(len(below) + 1):
            vec[index[tuple(s["start"][: len(root) + i])]] = np.sqrt(t["depth"] - len(root)) if i == 0 else (-1) ** i
        vec /= np.linalg.norm(vec)
    else:
        tree.init_node(below)
        vec[index[tuple(s["start"])]] = 1
    expected = np.linalg.matrix_power(W, s["steps"]) @ vec
    ctrl, extra = [], [({}, 1.0, expected)]
    if s["ctrl"]:
        c = QuantumBool(qs=tree.qs)
        h(c)
        ctrl = [c[0]]
        extra = [({c: False}, np.sqrt(0.5), vec), ({c: True}, np.sqrt(0.5), expected)]
    for _ in range(s["steps"]):
        tree.quantum_step(ctrl=ctrl)
    f = tree.qs.statevector("function")
    got, want = [], []
    for spec, weight, v in extra:
        for p in nodes:
            got.append(complex(f(node_state(tree, t, p, spec))))
        want += list(weight * v)
    got, want = np.array(got), np.array(want)
    if not s["ctrl"]:
        k = int(np.argmax(np.abs(want)))
        if abs(got[k]) > 0.1 * abs(want[k]):
            got = got * (want[k] / abs(want[k])) / (got[k] / abs(got[k]))
    err = np.abs(got - want)
    require(err.max() < TOL, "the quantum step is not the walk on the tree", case=s, got=[str(np.round(x, 4)) for x in got], expected=[float(np.round(x, 4)) for x in want])
    out = labels_of(t, root) + ["step"]
    if s["ctrl"]:
        out.append("ctrl")
    return out if len(out) > 1 else []


# ------------------------------------------------------------- detection


def zero_distribution(t, root, precision):
    nodes, index, W = walk(t, root)
    v = np.zeros(len(nodes), dtype=complex)
    v[0] = 1
    N = 2**precision
    orbit = [v]
    for _ in range(N - 1):
        orbit.append(W @ orbit[-1])
    orbit = np.array(orbit)
    return np.array([np.linalg.norm(np.exp(-2j * np.pi * m * np.arange(N) / N) @ orbit / N) ** 2 for m in range(N)])


@st.composite
def phase_case(draw):
    t = draw(tree_spec(((1, 1), (2, 1), (2, 1), (3, 1), (1, 2))))
    return {"tree": t, "precision": draw(st.integers(1, 4 if t["depth"] < 3 else 3))}


def check_phase(s):
    t = s["tree"]
    tree = build(t)
    tree.init_node([])
    q = tree.estimate_phase(s["precision"])
    res = q.get_measurement()
    N = 2 ** s["precision"]
    got = np.zeros(N)
    for k, v in res.items():
        got[int(round(k * N))] += v
    want = zero_distribution(t, [], s["precision"])
    require(np.allclose(got, want, atol=TOL), "the phase estimate does not have the distribution of the walk", case=s, got=[float(x) for x in got], expected=[float(x) for x in want])
    return labels_of(t) + ["precision%d" % s["precision"]] if labels_of(t) else []


@st.composite
def search_case(draw):
    t = draw(tree_spec(((1, 1), (2, 1), (2, 1), (1, 2), (3, 1))))
    return {"tree": t, "precision": 4 if t["depth"] < 3 else 3 + draw(st.integers(0, 1)), "cl": draw(st.booleans())}


def check_search(s):
    t = s["tree"]
    tree = build(t)
    # the guarantees only hold where the precision separates the two cases
    for root in visited(t, []):
        if len(root) == t["depth"]:
            continue
        p0 = zero_distribution(t, root, s["precision"])[0]
        if (p0 <= 0.4) if classical(t, root) else (p0 >= 0.24):
            raise Reject("precision")
    kwargs = {"cl_accept": lambda path: [int(x) for x in path] in t["accept"]} if s["cl"] else {}
    res = tree.find_solution(s["precision"], **kwargs)
    if not classical(t, []):
        require(res is None, "a solution is reported for a tree without one", case=s, got=str(res))
        return ["none"] + labels_of(t) if labels_of(t) else []
    require(res is not None, "no solution is reported for a tree with one", case=s)
    path = [int(x) for x in res]
    require(path in t["accept"], "the reported path is not accepted", case=s, got=path)
    require(path in visited(t, []), "the reported path lies below a rejected node", case=s, got=path)
    return ["found"] + labels_of(t)


FACETS = [
    Facet("node", node_case(), check_node, quick=160),
    Facet("step", step_case(), check_step, quick=120),
    Facet("phase", phase_case(), check_phase, quick=32),
    Facet("search", search_case(), check_search, quick=20),
]
