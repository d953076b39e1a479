"""C27: optimisation problem encodings match their classical definition."""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, raises, require

PROPERTY = "C27"
RULE = (
    "(cost) random instances of every QAOA problem class (2-6 binary variables, random graphs, weighted QUBO matrices, clause lists, set families, colourings in both encodings): the phase separator "
    "applied to the uniform superposition must give every bit string the phase belonging to its textbook objective, the classical cost function must be the expectation of the textbook objective "
    "on random distributions. (mixer) the mixers applied to random superpositions of feasible strings against exact matrices; feasible strings stay feasible and the initial state is feasible. "
    "(qiro) QIRO replacement rules on random graphs/clause sets and random measurement results against brute force over all strings satisfying the correlation, over several rounds; reduced "
    "operators, mixers and initial states act on the right qubits. (cold) problem Hamiltonian against the QUBO objective. Oracle: enumeration. Non-trivial: the objective is not constant."
)
TOL = 2e-3


# ------------------------------------------------------------------ instances


@st.composite
def graph(draw, lo=2, hi=6, some=False):
    n = draw(st.sampled_from(range(lo, hi + 1)))
    pairs = list(itertools.combinations(range(n), 2))
    edges = [p for p in pairs if draw(st.booleans())]
    if some and not edges:
        edges = [draw(st.sampled_from(pairs))]
    edges = [list(p) if draw(st.booleans()) else [p[1], p[0]] for p in edges]
    return {"n": n, "edges": draw(st.permutations(edges)), "order": draw(st.permutations(range(n)))}


def nxgraph(g):
    import networkx as nx

    G = nx.Graph()
    G.add_nodes_from(g["order"])
    G.add_edges_from([tuple(e) for e in g["edges"]])
    return G


@st.composite
def instance(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    if kind in ("maxcut", "mis", "clique"):
        return [kind, draw(graph(some=kind == "maxcut"))]
    if kind in ("colour", "colour_bin"):
        g = draw(graph(2, 3, some=True))
        return [kind, {"g": g, "k": draw(st.sampled_from([2, 3] if g["n"] < 3 or kind == "colour_bin" else [2]))}]
    if kind == "qubo":
        n = draw(st.sampled_from(range(1, 6)))
        q = [[draw(st.sampled_from([0, 0, 1, -1, 2, 0.5, -1.5, 3.25])) for _ in range(n)] for _ in range(n)]
        if draw(st.booleans()):
            q = [[q[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        if not np.any(q):
            q[0][-1] = 1
        return [kind, q]
    if kind in ("maxsat",):
        n = draw(st.sampled_from(range(1, 6)))
        clauses = [draw(st.lists(st.sampled_from([s * v for v in range(1, n + 1) for s in (1, -1)]), min_size=1, max_size=3, unique=True)) for _ in range(draw(st.sampled_from([1, 2, 3, 4])))]
        return [kind, [n, clauses]]
    if kind == "e3lin2":
        n = draw(st.sampled_from(range(3, 7)))
        return [kind, [n, [list(draw(st.permutations(range(n)))[:3]) + [draw(st.sampled_from([0, 1]))] for _ in range(draw(st.sampled_from([1, 2, 3, 4])))]]]
    # set families
    m = draw(st.sampled_from(range(2, 6)))
    universe = list(range(draw(st.sampled_from(range(1, 6)))))
    sets = [draw(st.lists(st.sampled_from(universe), min_size=1, max_size=3, unique=True)) for _ in range(m)]
    if kind == "cover":
        missing = [u for u in universe if not any(u in s for s in sets)]
        sets[0] = sets[0] + missing
    return [kind, sets]


def objective(inst):
    """textbook cost (to be minimised) of a bit string, feasibility"""
    kind, d = inst
    if kind == "maxcut":
        return lambda x: -sum(x[i] != x[j] for i, j in d["edges"]), lambda x: True
    if kind in ("mis", "clique"):
        E = {frozenset(e) for e in d["edges"]}
        want = kind == "clique"
        ok = lambda x: all((frozenset(p) in E) == want for p in itertools.combinations([i for i in range(d["n"]) if x[i]], 2))
        return lambda x: -sum(x) if ok(x) else 0, ok
    if kind == "qubo":
        Q = np.array(d, dtype=float)
        return lambda x: float(np.array(x) @ Q @ np.array(x)), lambda x: True
    if kind == "maxsat":
        return lambda x: -sum(any(x[abs(v) - 1] == (v > 0) for v in c) for c in d[1]), lambda x: True
    if kind == "e3lin2":
        return lambda x: -sum((x[c[0]] + x[c[1]] + x[c[2]]) % 2 == c[3] for c in d[1]), lambda x: True
    if kind == "packing":
        ok = lambda x: all(not set(d[i]) & set(d[j]) for i, j in itertools.combinations([i for i in range(len(d)) if x[i]], 2))
        return lambda x: -sum(x) if ok(x) else 0, ok
    if kind == "cover":
        U = set().union(*map(set, d))
        ok = lambda x: set().union(*[set(d[i]) for i in range(len(d)) if x[i]]) == U
        return lambda x: sum(x) if ok(x) else len(d), ok
    raise AssertionError(kind)


def size(inst):
    kind, d = inst
    if kind in ("maxcut", "mis", "clique"):
        return d["n"]
    if kind in ("maxsat", "e3lin2"):
        return d[0]
    return len(d)


def problem(inst):
    from qrisp import qaoa

    kind, d = inst
    if kind == "maxcut":
        return qaoa.maxcut_problem(nxgraph(d))
    if kind == "mis":
        return qaoa.max_indep_set_problem(nxgraph(d))
    if kind == "clique":
        return qaoa.max_clique_problem(nxgraph(d))
    if kind == "qubo":
        return qaoa.QUBO_problem(np.array(d, dtype=float))
    if kind == "maxsat":
        return qaoa.maxsat_problem([d[0], [list(c) for c in d[1]]])
    if kind == "e3lin2":
        return qaoa.e3lin2_problem([list(c) for c in d[1]])
    if kind == "packing":
        return qaoa.max_set_packing_problem([set(s) for s in d])
    if kind == "cover":
        sets = [set(s) for s in d]
        return qaoa.min_set_cover_problem(sets, set.union(*sets))
    raise AssertionError(kind)


# phase of the phase separator per unit of gamma and of the textbook cost
def scale(inst):
    kind, d = inst
    if kind == "qubo":
        return -1 / math.sqrt(np.linalg.norm(np.array(d, dtype=float)))
    return {"maxcut": -2.0, "maxsat": 1.0, "e3lin2": 1.0}[kind]


def state(qubits, what):
    """state of the qubits (axis i = i-th qubit), all others back in |0>"""
    from .c05 import data_state

    qs = qubits[0].qs()
    return data_state(qs.compile(), qubits, what)


def strings(n):
    return list(itertools.product([0, 1], repeat=n))


def same_up_to_phase(got, want, what, **info):
    j = int(np.argmax(np.abs(want)))
    ph = got[j] / want[j]
    require(abs(abs(ph) - 1) < TOL * 3, what, **info)
    err = float(np.max(np.abs(got - ph * want)))
    require(err < TOL, what, error=err, **info)


# ------------------------------------------------------------------ cost


@st.composite
def cost_case(draw):
    return {
        "inst": draw(instance(["maxcut", "mis", "clique", "qubo", "qubo", "maxsat", "maxsat", "e3lin2", "packing", "cover", "colour", "colour_bin"])),
        "gamma": draw(st.sampled_from([0.3, -0.7, 1.1, 2.5])),
        "dist": draw(st.lists(st.tuples(st.integers(0, 63), st.sampled_from([0.1, 0.25, 0.5, 1, 2])), min_size=1, max_size=5, unique_by=lambda t: t[0])),
        "array": draw(st.booleans()),
    }


def check_colour(spec):
    from qrisp import QuantumArray, h
    from qrisp.qaoa import QuantumColor, graph_coloring_problem

    kind, d = spec["inst"]
    G, k, n = nxgraph(d["g"]), d["k"], d["g"]["n"]
    colours = ["red", "green", "blue"][:k]
    arr = QuantumArray(qtype=QuantumColor(colours, one_hot_enc=kind == "colour"), shape=(n,))
    qubits = [q for v in arr for q in v]
    b = len(arr[0])
    prob = graph_coloring_problem(G)
    for q in qubits:
        h(q)
    prob.cost_operator(arr, spec["gamma"])
    got = state(qubits, "colouring operator")
    # every vertex holds b bits; judged on valid assignments only
    vals, idx = [], []
    for assign in itertools.product(range(k), repeat=n):
        bits = []
        for a in assign:
            code = 1 << a if kind == "colour" else a
            bits += [(code >> t) & 1 for t in range(b)]
        idx.append(int("".join(map(str, bits)), 2))
        vals.append(sum(assign[i] == assign[j] for i, j in d["g"]["edges"]))
    vals = np.array(vals)
    same_up_to_phase(got[idx] * math.sqrt(len(got)), np.exp(2j * spec["gamma"] * vals), "colouring phase of a valid assignment")
    # classical cost
    dist = {}
    want = 0
    for v, w in spec["dist"]:
        assign = [(v // k**i) % k for i in range(n)]
        key = tuple(colours[a] for a in assign)
        dist[key] = dist.get(key, 0) + w
        want -= w * 4 ** sum(assign[i] != assign[j] for i, j in d["g"]["edges"])
    got = prob.cl_cost_function(dist)
    require(abs(got - want) < 1e-6 * max(1, abs(want)), "colouring cost function", got=got, want=want)
    # encoding
    for a, c in enumerate(colours):
        col = QuantumColor(colours, one_hot_enc=kind == "colour")
        col[:] = c
        require(col.get_measurement() == {c: 1.0}, "colour encoding", got=col.get_measurement(), want=c)
    return [kind]


def check_cost(spec):
    from qrisp import QuantumArray, QuantumVariable, h

    inst = spec["inst"]
    kind = inst[0]
    if kind.startswith("colour"):
        return check_colour(spec)
    n = size(inst)
    cost, ok = objective(inst)
    prob = problem(inst)
    xs = strings(n)
    values = np.array([cost(x) for x in xs], dtype=float)
    # classical cost function
    dist, want = {}, 0.0
    for v, w in spec["dist"]:
        x = xs[v % len(xs)]
        key = "".join(map(str, x))
        dist[key] = dist.get(key, 0) + w
        want += w * cost(x)
    got = float(prob.cl_cost_function(dist))
    require(abs(got - want) < 1e-6 * max(1, abs(want)), f"{kind}: classical cost function", got=got, want=want, dist=dist)
    # phase separator
    if spec["array"] and kind == "qubo":
        arr = QuantumArray(qtype=QuantumVariable(1), shape=(n,))
        qubits = [v[0] for v in arr]
        target = arr
    else:
        target = QuantumVariable(n)
        qubits = list(target)
    for q in qubits:
        h(q)
    prob.cost_operator(target, spec["gamma"])
    got = state(qubits, f"{kind} cost operator") * math.sqrt(2**n)
    if kind in ("mis", "clique", "packing", "cover"):
        # phase separator counts the chosen elements; feasibility is kept by the mixer
        phases = np.exp(-1j * spec["gamma"] * np.array([sum(x) for x in xs]))
    else:
        phases = np.exp(1j * scale(inst) * spec["gamma"] * values)
    same_up_to_phase(got, phases, f"{kind}: phase separator", gamma=spec["gamma"])
    if kind == "clique":
        from qrisp.algorithms.qaoa.problems.maxClique import create_max_clique_cl_cost_function

        got = float(create_max_clique_cl_cost_function(nxgraph(inst[1]))(dist))
        require(abs(got - want) < 1e-6 * max(1, abs(want)), "clique: exported cost function", got=got, want=want, dist=dist)
    if kind == "maxcut" and spec["array"]:
        from qrisp.qaoa import create_cut_computer, create_maxcut_sample_array_post_processor, maxcut_obj

        import jax.numpy as jnp

        G = nxgraph(inst[1])
        ints = [sum(b << i for i, b in enumerate(x)) for x in xs]
        for x, i in zip(xs, ints):
            require(maxcut_obj("".join(map(str, x)), G) == cost(x), "maxcut objective", x=x)
        cut = create_cut_computer(G)
        require([int(cut(i)) for i in ints[:8]] == [cost(x) for x in xs[:8]], "cut computer")
        sample = [ints[v % len(xs)] for v, _ in spec["dist"]]
        got = float(create_maxcut_sample_array_post_processor(G)(jnp.array(sample)))
        want = float(np.mean([cost(xs[v % len(xs)]) for v, _ in spec["dist"]]))
        require(abs(got - want) < 1e-5, "sample post processor", got=got, want=want)
    if kind == "qubo":
        from qrisp.algorithms.qaoa.problems.QUBO import QUBO_obj

        for x in xs:
            got = float(QUBO_obj("".join(map(str, x)), np.array(inst[1], dtype=float)))
            require(abs(got - cost(x)) < 1e-6, "QUBO objective", x=x, got=got)
    return [kind] if len(set(values.tolist())) > 1 else []


# ------------------------------------------------------------------ mixers


@st.composite
def mixer_case(draw):
    kind = draw(st.sampled_from(["mis", "mis", "clique", "packing", "cover", "cover", "rx", "ry", "xy", "xy_array", "grover", "constrained"]))
    s = {"kind": kind, "beta": draw(st.sampled_from([0.4, -0.9, 1.3, 2.2])), "seed": draw(st.integers(0, 10**6))}
    if kind in ("mis", "clique", "packing", "cover"):
        s["inst"] = draw(instance([kind]))
    else:
        s["n"] = draw(st.sampled_from([2, 3] if kind in ("xy_array", "constrained") else [2, 3, 4]))
        s["good"] = draw(st.lists(st.integers(0, 2 ** s["n"] - 1), min_size=1, max_size=2 ** (s["n"] - 1), unique=True))
    return s


def rot(kind, a):
    c, s = math.cos(a / 2), math.sin(a / 2)
    return np.array([[c, -1j * s], [-1j * s, c]]) if kind == "rx" else np.array([[c, -s], [s, c]])


def apply1(psi, M, i, n, where=None):
    """M on bit i (bit 0 = most significant), only for strings satisfying where (independent of bit i)"""
    out = psi.copy()
    for idx in range(2**n):
        if idx >> (n - 1 - i) & 1:
            continue
        x = [(idx >> (n - 1 - t)) & 1 for t in range(n)]
        if where is not None and not where(x):
            continue
        j = idx | (1 << (n - 1 - i))
        out[[idx, j]] = M @ psi[[idx, j]]
    return out


def apply_xy(psi, beta, i, j, n):
    """exp(-i beta (XX+YY)) on bits i, j"""
    out = psi.copy()
    for idx in range(2**n):
        if idx >> (n - 1 - i) & 1 and not idx >> (n - 1 - j) & 1:
            k = idx ^ (1 << (n - 1 - i)) ^ (1 << (n - 1 - j))
            a, b = psi[idx], psi[k]
            out[idx] = math.cos(2 * beta) * a - 1j * math.sin(2 * beta) * b
            out[k] = math.cos(2 * beta) * b - 1j * math.sin(2 * beta) * a
    return out


def random_on(support, n, seed):
    r = np.random.default_rng(seed)
    psi = np.zeros(2**n, dtype=complex)
    pick = r.permutation(support)[: max(1, min(len(support), int(r.integers(1, 6))))]
    psi[pick] = r.normal(size=len(pick)) + 1j * r.normal(size=len(pick))
    return psi / np.linalg.norm(psi)


def prepared(n, psi):
    from qrisp import QuantumVariable

    qv = QuantumVariable(n)
    # the dictionary keys are the bit strings of the variable (first character = first qubit)
    qv[:] = {"".join(str((i >> (n - 1 - t)) & 1) for t in range(n)): complex(a) for i, a in enumerate(psi) if a != 0}
    return qv


def check_mixer(spec):
    from qrisp import QuantumArray, QuantumVariable, qaoa

    kind, beta = spec["kind"], spec["beta"]
    if "inst" in spec:
        inst = spec["inst"]
        n = size(inst)
        cost, ok = objective(inst)
        prob = problem(inst)
        xs = strings(n)
        support = [i for i, x in enumerate(xs) if ok(x)]
        psi = random_on(support, n, spec["seed"])
        qv = prepared(n, psi)
        prob.mixer(qv, beta)
        got = state(list(qv), f"{kind} mixer")
        bad = float(sum(abs(got[i]) ** 2 for i in range(2**n) if i not in set(support)))
        require(bad < 1e-4, f"{kind}: mixer leaves the feasible space", weight=bad)
        want = psi
        for i in range(n):
            def movable(x, i=i):
                on, off = list(x), list(x)
                on[i], off[i] = 1, 0
                if kind == "cover":
                    # set i may be swapped iff its elements are covered by the other chosen sets
                    rest = set().union(*[set(inst[1][j]) for j in range(n) if j != i and x[j]])
                    return set(inst[1][i]) <= rest
                if kind == "packing":
                    return not any(x[j] and set(inst[1][i]) & set(inst[1][j]) for j in range(n) if j != i)
                E = {frozenset(e) for e in inst[1]["edges"]}
                clash = lambda j: (frozenset((i, j)) in E) == (kind == "mis")
                return not any(x[j] and clash(j) for j in range(n) if j != i)

            want = apply1(want, rot("rx", beta), i, n, movable)
        same_up_to_phase(got, want, f"{kind}: mixer matrix")
        qv = QuantumVariable(n)
        prob.init_function(qv)
        for s, p in qv.get_measurement().items():
            require(ok([int(c) for c in s]), f"{kind}: infeasible initial state", state=s)
        moved = any(abs(a) > 1e-3 for a in (got - got[np.argmax(abs(psi))] / psi[np.argmax(abs(psi))] * psi))
        return [kind] if moved and len(support) > 1 else []
    n = spec["n"]
    if kind == "xy_array":
        arr = QuantumArray(qtype=QuantumVariable(n), shape=(2,))
        n2 = 2 * n
        psi = random_on(list(range(2**n2)), n2, spec["seed"])
        qv = prepared(n2, psi)
        from qrisp import swap

        qubits = [q for v in arr for q in v]
        for a, b in zip(qv, qubits):
            swap(a, b)
        qaoa.apply_XY_mixer(arr, beta)
        got = state(qubits, "XY mixer")
        want = psi
        for off in (0, n):
            for i in range(0, n - 1, 2):
                want = apply_xy(want, beta, off + i, off + i + 1, n2)
            for i in range(1, n - 1, 2):
                want = apply_xy(want, beta, off + i, off + i + 1, n2)
            want = apply_xy(want, beta, off + n - 1, off, n2)
        same_up_to_phase(got, want, "XY mixer on an array")
        return [kind]
    if kind in ("rx", "ry", "xy", "grover"):
        psi = random_on(list(range(2**n)), n, spec["seed"])
        qv = prepared(n, psi)
        want = psi
        if kind == "grover":
            qaoa.grover_mixer(qv, beta)
            s = np.full(2**n, 2 ** (-n / 2))
            # phase on the uniform superposition
            want = psi + (np.exp(1j * beta) - 1) * s * (s @ psi)
        elif kind == "xy":
            qaoa.XY_mixer(qv, beta)
            for i in range(0, n - 1, 2):
                want = apply_xy(want, beta, i, i + 1, n)
            for i in range(1, n - 1, 2):
                want = apply_xy(want, beta, i, i + 1, n)
            want = apply_xy(want, beta, n - 1, 0, n)
        else:
            (qaoa.RX_mixer if kind == "rx" else qaoa.RY_mixer)(qv, beta)
            for i in range(n):
                want = apply1(want, rot(kind, 2 * beta), i, n)
        same_up_to_phase(state(list(qv), f"{kind} mixer"), want, f"{kind} mixer")
        return [kind]
    # constrained mixer: phase on the uniform superposition of the allowed strings
    from qrisp import mcp, z

    good = sorted(set(spec["good"]))

    def oracle(qv, phase=np.pi):
        for g in good:
            mcp(phase, list(qv), ctrl_state="".join(str((g >> (n - 1 - t)) & 1) for t in range(n)))

    mixer = qaoa.constrained_mixer_gen(oracle, lambda q: len(good))
    psi = random_on(list(range(2**n)), n, spec["seed"])
    qv = prepared(n, psi)
    mixer(qv, beta)
    f = np.zeros(2**n)
    f[good] = 1 / math.sqrt(len(good))
    same_up_to_phase(state(list(qv), "constrained mixer"), psi + (np.exp(1j * beta) - 1) * f * (f @ psi), "constrained mixer")
    return [kind]


# ------------------------------------------------------------------ QIRO


@st.composite
def qiro_case(draw):
    kind = draw(st.sampled_from(["mis", "clique", "maxsat", "maxsat"]))
    if kind == "maxsat":
        inst = draw(instance(["maxsat"]).filter(lambda i: i[1][0] > 1))
        n = inst[1][0]
    else:
        inst = [kind, draw(graph(2, 6))]
        n = inst[1]["n"]
    rounds = [
        draw(st.lists(st.tuples(st.integers(0, 2**n - 1), st.sampled_from([0.1, 0.3, 0.6])), min_size=1, max_size=4, unique_by=lambda t: t[0]))
        for _ in range(draw(st.sampled_from([1, 2, 3])))
    ]
    return {"inst": inst, "rounds": rounds, "beta": draw(st.sampled_from([0.4, 1.3])), "gamma": draw(st.sampled_from([0.5, -1.2]))}


def correlations(nodes, pairs, res, skip):
    out = []
    for p in pairs:
        out.append((sum(w * (-1) ** (int(k[p[0]]) + int(k[p[1]])) for k, w in res.items()), tuple(p)))
    for v in nodes:
        if v not in skip:
            out.append((sum(w * (-1) ** int(k[v]) for k, w in res.items()), v))
    return out


def check_qiro(spec):
    import copy

    from qrisp import QuantumVariable
    from qrisp.algorithms import qiro

    kind, d = spec["inst"]
    routine = {"mis": qiro.create_max_indep_replacement_routine, "clique": qiro.create_max_clique_replacement_routine, "maxsat": qiro.create_maxsat_replacement_routine}[kind]
    n = d[0] if kind == "maxsat" else d["n"]
    current = [d[0], [list(c) for c in d[1]]] if kind == "maxsat" else nxgraph(d)
    solutions, exclusions, labels = [], [], set()
    for rnd in spec["rounds"]:
        res = {"".join(str((v >> (n - 1 - t)) & 1) for t in range(n)): w for v, w in rnd}
        before = copy.deepcopy(current)
        sol0, exc0 = set(solutions), set(exclusions)
        if kind == "maxsat":
            nodes = [v for v in range(n) if v not in exc0]
            pairs = list(itertools.combinations(nodes, 2))
        else:
            nodes = list(current.nodes())
            pairs = [tuple(e) for e in current.edges()]
        corr = correlations(nodes, pairs, res, sol0)
        top = max([abs(c) for c, _ in corr], default=0)
        if top < 1e-9:
            break
        if sum(abs(abs(c) - top) < 1e-6 for c, _ in corr) > 1:
            # several candidates: which one is taken is not specified; all must be consistent with the result
            pass
        new, solutions, sign, exclusions = routine(res, [current, list(solutions), list(exclusions)])
        if kind == "maxsat":
            require(current == before, "replacement changed the clauses it was given")
        else:
            require(set(current.nodes()) == set(before.nodes()) and {frozenset(e) for e in current.edges()} == {frozenset(e) for e in before.edges()}, "replacement changed the graph it was given")
        sol1, exc1 = set(solutions), set(exclusions)
        require(len(sol1) == len(solutions), "repeated entries in the solutions", solutions=solutions)
        require(sol0 <= sol1 and exc0 <= exc1 and all(0 <= v < n for v in sol1 | exc1), "solutions/exclusions are not qubits of the problem", solutions=solutions, exclusions=exclusions)
        cands = [(c, item) for c, item in corr if abs(abs(c) - top) < 1e-6]
        verdicts = [(item, explain(kind, n, before, new, item, 1 if c > 0 else -1, sol1 - sol0, exc1 - exc0, sol0)) for c, item in cands if (1 if c > 0 else -1) == int(sign)]
        require(any(v is None for _, v in verdicts), f"{kind}: reduction does not follow from the correlation", verdicts=verdicts, solutions=sorted(sol1 - sol0), exclusions=sorted(exc1 - exc0))
        labels.add(kind)
        labels.add("pair" if isinstance(next(i for i, v in verdicts if v is None), tuple) else "single")
        current = new
    # operators of the reduced problem
    upd = [current, solutions, exclusions]
    fixed = set(solutions) | set(exclusions)
    from qrisp import h

    qv = QuantumVariable(n)
    h(qv)
    if kind == "maxsat":
        qiro.create_maxsat_cost_operator_reduced(upd)(qv, spec["gamma"])
        xs = strings(n)
        vals = np.array([sum(any(x[abs(v) - 1] == (v > 0) for v in c) for c in current[1]) for x in xs])
        same_up_to_phase(state(list(qv), "reduced cost operator") * math.sqrt(2**n), np.exp(-1j * spec["gamma"] * vals), "reduced MaxSat phase")
        qv = QuantumVariable(n)
        mixer, init = qiro.qiro_rx_mixer(upd), qiro.qiro_init_function(solutions, exclusions)
    else:
        (qiro.create_max_indep_cost_operator_reduced if kind == "mis" else qiro.create_max_clique_cost_operator_reduced)(upd)(qv, spec["gamma"])
        got = state(list(qv), "reduced cost operator").reshape([2] * n)
        require(float(np.max(np.abs(np.abs(got) - 2 ** (-n / 2)))) < TOL, "reduced cost operator is not diagonal")
        for v in set(range(n)) - set(current.nodes()):
            a, b = np.take(got, 0, axis=v), np.take(got, 1, axis=v)
            require(float(np.max(np.abs(a - b))) < TOL, "reduced cost operator acts on a removed node", node=v)
        if kind == "mis":
            mixer, init = qiro.create_max_indep_controlled_mixer_reduced(upd), qiro.qiro_max_indep_set_init_function(solutions, exclusions)
        else:
            mixer, init = qiro.qiro_rx_mixer(upd), qiro.qiro_init_function(solutions, exclusions)
        qv = QuantumVariable(n)
    init(qv)
    mixer(qv, spec["beta"])
    got = state(list(qv), "reduced mixer").reshape([2] * n)
    for v in range(n):
        if v in fixed:
            want = 1 if v in solutions else 0
            require(float(np.sum(np.abs(np.take(got, 1 - want, axis=v)) ** 2)) < 1e-4, "fixed variable is not at its value", node=v, want=want, solutions=sorted(solutions), exclusions=sorted(exclusions))
        elif kind != "mis":
            require(abs(float(np.sum(np.abs(np.take(got, 1, axis=v)) ** 2)) - 0.5) < TOL, "free variable is not in superposition", node=v)
    if kind == "mis":
        E = {frozenset(e) for e in d["edges"]}
        for i, x in enumerate(strings(n)):
            if abs(got.reshape(-1)[i]) ** 2 > 1e-6:
                on = [t for t in range(n) if x[t]]
                require(all(frozenset(p) not in E for p in itertools.combinations(on, 2)), "reduced mixer reaches a dependent set", x=x, solutions=sorted(solutions))
    return sorted(labels)


def explain(kind, n, before, after, item, sign, new_sol, new_exc, sol0):
    """None if the reduction is the one the correlation item/sign stands for, else a reason"""
    if kind == "maxsat":
        sat = lambda clauses, x: sum(any(x[abs(v) - 1] == (v > 0) for v in c) for c in clauses)
        if isinstance(item, tuple):
            a, b = item
            holds = lambda x: (x[a] == x[b]) == (sign > 0)
            gone = [g for g in (a, b) if g in new_exc]
            if len(gone) != 1 or new_exc != set(gone) or new_sol:
                return f"pair {item}: exclusions {sorted(new_exc)} solutions {sorted(new_sol)}"
            out = gone[0]
        else:
            holds = lambda x: x[item] == (1 if sign < 0 else 0)
            out = item
            if new_exc != {item} or new_sol != ({item} if sign < 0 else set()):
                return f"single {item}: exclusions {sorted(new_exc)} solutions {sorted(new_sol)}"
        if any(abs(v) - 1 == out for c in after[1] for v in c):
            return f"variable {out} still occurs"
        if after[0] != n:
            return "number of variables"
        diff = {sat(before[1], x) - sat(after[1], x) for x in strings(n) if holds(x)}
        return None if len(diff) == 1 else f"{item}: number of satisfied clauses changes by {sorted(diff)}"
    nodes, E = set(before.nodes()), {frozenset(e) for e in before.edges()}
    edge = kind == "clique"
    feasible = [set(s) for r in range(len(nodes) + 1) for s in itertools.combinations(sorted(nodes), r) if all((frozenset(p) in E) == edge for p in itertools.combinations(s, 2))]
    if isinstance(item, tuple):
        a, b = item
        if kind == "mis":
            rule = (lambda s: a not in s and b not in s) if sign > 0 else (lambda s: (a in s) != (b in s))
        else:
            rule = (lambda s: a in s and b in s) if sign > 0 else (lambda s: (a in s) != (b in s))
        want_sol = {a, b} if kind == "clique" and sign > 0 else set()
    else:
        rule = (lambda s: item in s) if sign < 0 else (lambda s: item not in s)
        want_sol = {item} if sign < 0 else set()
    alive = set().union(*[s for s in feasible if rule(s)])
    want_exc = nodes - alive
    if kind == "clique" and isinstance(item, tuple) and sign < 0:
        # documented rule: nodes adjacent to neither end are removed
        want_exc = {v for v in nodes - {a, b} if frozenset((v, a)) not in E and frozenset((v, b)) not in E}
    if new_exc != want_exc:
        return f"{item} sign {sign}: excluded {sorted(new_exc)}, expected {sorted(want_exc)}"
    if new_sol - sol0 != want_sol - sol0:
        return f"{item} sign {sign}: solutions {sorted(new_sol)}"
    if set(after.nodes()) != nodes - want_exc or {frozenset(e) for e in after.edges()} != {e for e in E if not e & want_exc}:
        return f"{item} sign {sign}: remaining graph"
    return None


# ------------------------------------------------------------------ problem Hamiltonians


@st.composite
def ham_case(draw):
    kind = draw(st.sampled_from(["cold", "cold", "lcd", "setpack", "heisenberg"]))
    if kind == "setpack":
        return {"kind": kind, "inst": draw(instance(["packing"]))}
    if kind == "heisenberg":
        return {"kind": kind, "g": draw(graph(2, 4)), "J": draw(st.sampled_from([1, -0.5, 2])), "B": draw(st.sampled_from([0, 1, 0.7]))}
    n = draw(st.sampled_from([2, 3, 4]))
    tri = [draw(st.sampled_from([0, -1, 1, 0.5, 2, -0.7])) for _ in range(n * (n + 1) // 2)]
    return {"kind": kind, "n": n, "tri": tri, "uniform": draw(st.booleans())}


def check_ham(spec):
    kind = spec["kind"]
    if kind == "setpack":
        from qrisp.algorithms.qiro import transform_max_set_pack_to_mis

        sets = [set(s) for s in spec["inst"][1]]
        G = transform_max_set_pack_to_mis(sets)
        want = {frozenset((i, j)) for i, j in itertools.combinations(range(len(sets)), 2) if sets[i] & sets[j]}
        require(set(G.nodes()) == set(range(len(sets))) and {frozenset(e) for e in G.edges()} == want, "set packing graph")
        return [kind] if want else []
    if kind == "heisenberg":
        from qrisp.vqe.problems.heisenberg import create_heisenberg_hamiltonian

        g = spec["g"]
        n = g["n"]
        H = create_heisenberg_hamiltonian(nxgraph(g), spec["J"], spec["B"])
        P = {"X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}

        def op(d):
            M = np.eye(1)
            for i in range(n):
                M = np.kron(M, P[d[i]] if i in d else np.eye(2))
            return M

        want = np.zeros((2**n, 2**n), dtype=complex)
        for i, j in g["edges"]:
            for p in "XYZ":
                want = want + spec["J"] * op({i: p, j: p})
        for i in range(n):
            want = want + spec["B"] * op({i: "Z"})
        if not g["edges"] and not spec["B"]:
            return []
        got = dense(H, n)
        require(float(np.max(np.abs(got - want))) < 1e-6, "Heisenberg Hamiltonian", error=float(np.max(np.abs(got - want))))
        return [kind]
    from qrisp.algorithms.cold.problems.QUBO import create_COLD_instance, create_LCD_instance

    n = spec["n"]
    Q = np.zeros((n, n))
    it = iter(spec["tri"])
    for i in range(n):
        for j in range(i, n):
            Q[i, j] = Q[j, i] = next(it)
    if kind == "cold":
        H = create_COLD_instance(Q, spec["uniform"])[2]
    else:
        H = create_LCD_instance(Q, "order1", spec["uniform"])[2]
    got = dense(H, n)
    require(float(np.max(np.abs(got - np.diag(np.diag(got))))) < 1e-9, "problem Hamiltonian is not diagonal")
    diag = np.real(np.diag(got))
    want = np.array([np.array(x) @ Q @ np.array(x) for x in strings(n)])
    diff = diag - want
    require(float(np.ptp(diff)) < 1e-6, "problem Hamiltonian does not have the QUBO objective as diagonal", got=(diag - diag[0]).tolist(), want=want.tolist(), Q=Q.tolist())
    return [kind] if np.ptp(want) > 0 else []


def dense(H, n):
    M = H.to_sparse_matrix(factor_amount=n) if not isinstance(H, (int, float)) else None
    if M is None:
        return np.eye(2**n) * H
    return np.asarray(M.todense())


FACETS = [
    Facet("cost", cost_case(), check_cost, quick=400),
    Facet("mixer", mixer_case(), check_mixer, quick=300),
    Facet("qiro", qiro_case(), check_qiro, quick=400),
    Facet("ham", ham_case(), check_ham, quick=300),
]
