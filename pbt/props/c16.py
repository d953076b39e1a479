"""C16: operator algebra agrees with matrix algebra."""

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, require

RULE = (
    "histories of operations on a pool of qubit respectively fermionic operators (sums, differences, products, powers, in-place forms, "
    "scalars, adjoints, hermitian parts, commutators, conversions to and from matrices and Paulis, Jordan-Wigner, reductions, groupings); "
    "after every step the matrices of all operators in the pool are compared with dense matrices computed independently. "
    "Non-trivial: products (mul), in-place forms (inplace), ladder/projector factors (ladder), conversions (convert), groupings (group), ..."
)
N = 3
F = {
    "I": np.eye(2),
    "X": np.array([[0, 1], [1, 0]]),
    "Y": np.array([[0, -1j], [1j, 0]]),
    "Z": np.diag([1, -1]),
    "A": np.array([[0, 1], [0, 0]]),
    "C": np.array([[0, 0], [1, 0]]),
    "P0": np.diag([1, 0]),
    "P1": np.diag([0, 1]),
}
SCALARS = [0, 1, -1, 2, 0.5, -1.5, [0, 1], [0.5, -0.25], 3]


def num(s):
    return complex(*s) if isinstance(s, list) else s


def dense_term(factors, n=N):
    M = np.eye(1)
    for i in range(n):
        M = np.kron(M, F[factors.get(i, "I")])
    return M


@st.composite
def term(draw, kinds):
    idx = draw(st.lists(st.sampled_from(range(N)), min_size=0, max_size=N, unique=True))
    return [[i, draw(st.sampled_from(kinds))] for i in idx]


@st.composite
def qubit_case(draw):
    kinds = draw(st.sampled_from([["X", "Y", "Z"], ["X", "Y", "Z", "A", "C", "P0", "P1"], ["A", "C", "P0", "P1"], ["A", "C", "Z"]]))
    pool = [
        [[draw(term(kinds)), draw(st.sampled_from(SCALARS[1:]))] for _ in range(draw(st.integers(1, 4)))] for _ in range(draw(st.integers(1, 3)))
    ]
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        op = draw(
            st.sampled_from(
                ["add", "sub", "mul", "iadd", "isub", "imul", "sadd", "ssub", "rsub", "smul", "siadd", "sisub", "simul", "pow", "adjoint"]
                + ["hermitize", "commutator", "to_pauli", "from_matrix", "from_numpy_array", "groups", "qw_groups", "subs", "ground", "herm_elim", "unitaries", "sparse"]
            )
        )
        ops.append([op, draw(st.integers(0, 5)), draw(st.integers(0, 5)), draw(st.sampled_from(SCALARS)), draw(st.integers(0, 3))])
    return {"pool": pool, "ops": ops}


def build_qubit(terms):
    from qrisp.operators import A, C, P0, P1, X, Y, Z

    make = {"X": X, "Y": Y, "Z": Z, "A": A, "C": C, "P0": P0, "P1": P1}
    total, M = None, np.zeros((2**N, 2**N), dtype=complex)
    for factors, coeff in terms:
        c = num(coeff)
        t = None
        for i, f in factors:
            t = make[f](i) if t is None else t * make[f](i)
        t = c + 0 * X(0) if t is None else c * t
        total = t if total is None else total + t
        M = M + c * dense_term({i: f for i, f in factors})
    return total, M


def arr(H, n=N):
    if isinstance(H, (int, float, complex)):
        return H * np.eye(2**n)
    return H.to_array(n)


def close(a, b):
    return np.allclose(a, b, atol=1e-6 * (1 + np.abs(b).max()))


def herm(M):
    return (M + M.conj().T) / 2


def check_qubit(spec):
    from scipy.sparse import csr_matrix

    from qrisp.operators import QubitOperator, X

    pool = [build_qubit(t) for t in spec["pool"]]
    for H, M in pool:
        require(close(arr(H), M), "constructed operator")
    labels = set()
    if any(f in ("A", "C", "P0", "P1") for t in spec["pool"] for fs, _ in t for _, f in fs):
        labels.add("ladder")
    for op, i, j, s, k in spec["ops"]:
        i, j = i % len(pool), j % len(pool)
        (H, M), (G, L) = pool[i], pool[j]
        s = num(s)
        new = None
        if np.abs(M).max() > 1e4 or np.abs(L).max() > 1e4:
            break
        if op == "add":
            new = (H + G, M + L)
        elif op == "sub":
            new = (H - G, M - L)
        elif op == "mul":
            new = (H * G, M @ L)
            labels.add("mul")
        elif op == "pow":
            new = (H**k, np.linalg.matrix_power(M, k))
            labels.add("mul")
        elif op == "sadd":
            new = (s + H if k % 2 else H + s, M + s * np.eye(2**N))
        elif op == "ssub":
            new = (H - s, M - s * np.eye(2**N))
        elif op == "rsub":
            new = (s - H, s * np.eye(2**N) - M)
        elif op == "smul":
            new = (s * H if k % 2 else H * s, s * M)
        elif op in ("iadd", "isub", "imul", "siadd", "sisub", "simul"):
            labels.add("inplace")
            arg, mat = (s, s * np.eye(2**N)) if op[0] == "s" else (G, L)
            before = H
            if op in ("iadd", "siadd"):
                H += arg
                M = M + mat
            elif op in ("isub", "sisub"):
                H -= arg
                M = M - mat
            else:
                H *= arg
                M = M @ mat
            require(H is before, op + " is not in place")
            pool[i] = (H, M)
        elif op == "adjoint":
            new = (H.adjoint(), M.conj().T)
        elif op == "hermitize":
            new = (H.hermitize(), herm(M))
        elif op == "commutator":
            if H.len() and G.len():
                new = (H.commutator(G), M @ L - L @ M)
                labels.add("mul")
        elif op == "to_pauli":
            P = H.to_pauli()
            new = (P, M)
            labels.add("convert")
            if not isinstance(P, (int, float, complex)):
                require("A(" not in str(P) and "C(" not in str(P) and "P0" not in str(P) and "P1" not in str(P), "to_pauli leaves other factors", got=str(P))
        elif op == "from_matrix":
            labels.add("convert")
            rev = bool(k % 2)
            src = M.copy()
            src[np.abs(src) < 1e-9] = 0
            O = QubitOperator.from_matrix(csr_matrix(src) if k > 1 else src, reverse_endianness=rev)
            if rev:
                perm = [int(format(x, f"0{N}b")[::-1], 2) for x in range(2**N)]
                new = (O, src[np.ix_(perm, perm)])
            else:
                new = (O, src)
        elif op == "from_numpy_array":
            labels.add("convert")
            new = (QubitOperator.from_numpy_array(M), M)
        elif op in ("groups", "qw_groups"):
            labels.add("group")
            gs = H.commuting_groups() if op == "groups" else H.commuting_qw_groups(use_graph_coloring=bool(k % 2))
            if H.len():
                require(close(sum(arr(g) for g in gs), M), "groups do not add up to the operator", op=op)
                for g in gs:
                    mats = [arr(QubitOperator({t: 1})) for t in g.terms_dict]
                    for a in mats:
                        for b in mats:
                            require(close(a @ b, b @ a), "terms of a group do not commute", op=op)
        elif op == "subs":
            pauli = {0: "Z"}
            q = k % N
            v = float(np.real(s))
            if all(t.factor_dict.get(q, "Z") == "Z" for t in H.terms_dict):
                labels.add("subs")
                D = H.subs({q: v})
                # replacing the diagonal factor Z_q by the number v
                W = M.reshape([2] * (2 * N))
                m0 = np.take(np.take(W, 0, axis=q), 0, axis=N + q - 1)
                m1 = np.take(np.take(W, 1, axis=q), 1, axis=N + q - 1)
                res = (m0 + m1) / 2 + v * (m0 - m1) / 2
                E = arr(D).reshape([2] * (2 * N))
                e0 = np.take(np.take(E, 0, axis=q), 0, axis=N + q - 1)
                e1 = np.take(np.take(E, 1, axis=q), 1, axis=N + q - 1)
                require(close(e0, res) and close(e1, res), "subs", q=q, v=v)
        elif op == "ground":
            if H.len():
                e = H.ground_state_energy()
                lo = np.linalg.eigvalsh(herm(M))[0]
                require(abs(e - lo) < 1e-4 * (1 + abs(lo)), "ground state energy", got=float(np.real(e)), want=float(lo))
                labels.add("ground")
        elif op == "herm_elim":
            E = H.hermitize().eliminate_ladder_conjugates().hermitize()
            new = (E, herm(M))
            labels.add("elim")
        elif op == "unitaries":
            if H.len():
                total = unitaries_matrix(H)
                require(close(total, herm(M)), "unitaries and coefficients do not add up to the hermitian part")
                labels.add("unitaries")
        elif op == "sparse":
            sp = H.to_sparse_matrix()
            m = H.find_minimal_qubit_amount()
            require(sp.shape == (2**m, 2**m), "shape of the sparse matrix", got=list(sp.shape))
            require(close(np.kron(np.array(sp.todense()), np.eye(2 ** (N - m))), M), "sparse matrix of minimal size")
            labels.add("convert")
        if new is not None:
            new_H, new_M = new
            require(close(arr(new_H), new_M), op + " differs from the matrix operation")
            if not isinstance(new_H, (int, float, complex)):
                pool.append((new_H, new_M))
        for n, (A_, B_) in enumerate(pool):
            require(close(arr(A_), B_), op + " modified another operator", which=n)
    return sorted(labels)


def unitaries_matrix(H):
    from qrisp import QuantumVariable

    us, cs = H.unitaries()
    total = np.zeros((2**N, 2**N), dtype=complex)
    for u, c in zip(us, cs):
        qv = QuantumVariable(N)
        u(qv)
        total = total + c * qv.qs.compile().get_unitary()
    return total


# ------------------------------------------------------------------ fermions


def ladder_matrix(index, creator, n):
    M = np.eye(1)
    for i in range(n):
        M = np.kron(M, F["Z"] if i < index else F["C" if creator else "A"] if i == index else F["I"])
    return M


@st.composite
def fermi_case(draw):
    def term_():
        return [[draw(st.sampled_from(range(N))), draw(st.booleans())] for _ in range(draw(st.integers(0, 5)))]

    pool = [[[term_(), draw(st.sampled_from(SCALARS[1:]))] for _ in range(draw(st.integers(1, 3)))] for _ in range(draw(st.integers(1, 3)))]
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        op = draw(
            st.sampled_from(
                ["add", "sub", "mul", "iadd", "isub", "imul", "sadd", "ssub", "rsub", "smul", "siadd", "sisub", "simul", "neg", "dagger"]
                + ["hermitize", "reduce", "reduce", "reduce_h", "jw", "ground"]
            )
        )
        ops.append([op, draw(st.integers(0, 5)), draw(st.integers(0, 5)), draw(st.sampled_from(SCALARS)), draw(st.integers(0, 3))])
    return {"pool": pool, "ops": ops}


def build_fermi(terms):
    from qrisp.operators import a, c

    total, M = None, np.zeros((2**N, 2**N), dtype=complex)
    for ladder, coeff in terms:
        s = num(coeff)
        t, m = None, np.eye(2**N)
        for i, creator in ladder:
            f = c(i) if creator else a(i)
            t = f if t is None else t * f
            m = m @ ladder_matrix(i, creator, N)
        t = s + 0 * a(0) if t is None else s * t
        total = t if total is None else total + t
        M = M + s * m
    return total, M


def farr(O):
    return arr(O.to_qubit_operator())


def check_fermi(spec):
    pool = [build_fermi(t) for t in spec["pool"]]
    for O, M in pool:
        require(close(farr(O), M), "constructed fermionic operator")
    labels = set()
    for op, i, j, s, k in spec["ops"]:
        i, j = i % len(pool), j % len(pool)
        (H, M), (G, L) = pool[i], pool[j]
        s = num(s)
        new = None
        if np.abs(M).max() > 1e4 or np.abs(L).max() > 1e4 or H.len() * G.len() > 60:
            break
        if op == "add":
            new = (H + G, M + L)
        elif op == "sub":
            new = (H - G, M - L)
        elif op == "neg":
            new = (-H, -M)
        elif op == "mul":
            new = (H * G, M @ L)
            labels.add("mul")
        elif op == "sadd":
            new = (s + H if k % 2 else H + s, M + s * np.eye(2**N))
        elif op == "ssub":
            new = (H - s, M - s * np.eye(2**N))
        elif op == "rsub":
            new = (s - H, s * np.eye(2**N) - M)
        elif op == "smul":
            new = (s * H if k % 2 else H * s, s * M)
        elif op in ("iadd", "isub", "imul", "siadd", "sisub", "simul"):
            labels.add("inplace")
            arg, mat = (s, s * np.eye(2**N)) if op[0] == "s" else (G, L)
            before = H
            if op in ("iadd", "siadd"):
                H += arg
                M = M + mat
            elif op in ("isub", "sisub"):
                H -= arg
                M = M - mat
            else:
                H *= arg
                M = M @ mat
            require(H is before, op + " is not in place")
            pool[i] = (H, M)
        elif op == "dagger":
            new = (H.dagger(), M.conj().T)
        elif op == "hermitize":
            new = (H.hermitize(), herm(M))
        elif op == "reduce":
            new = (H.reduce(), M)
            labels.add("reduce")
        elif op == "reduce_h":
            new = (H.hermitize().reduce(assume_hermitian=True).hermitize(), herm(M))
            labels.add("reduce")
        elif op == "jw":
            sp = np.array(H.to_sparse_matrix().todense())
            m = int(np.log2(sp.shape[0]))
            require(close(np.kron(sp, np.eye(2 ** (N - m))), M), "sparse matrix of a fermionic operator")
            labels.add("convert")
        elif op == "ground":
            if H.len():
                e = H.ground_state_energy()
                lo = np.linalg.eigvalsh(herm(M))[0]
                require(abs(e - lo) < 1e-4 * (1 + abs(lo)), "ground state energy", got=float(np.real(e)), want=float(lo))
                labels.add("ground")
        if new is not None:
            require(close(farr(new[0]), new[1]), op + " differs from the matrix operation")
            pool.append(new)
        for n, (A_, B_) in enumerate(pool):
            require(close(farr(A_), B_), op + " modified another operator", which=n)
    return sorted(labels | ({"long"} if any(len(l) > 3 for t in spec["pool"] for l, _ in t) else set()))


FACETS = [
    Facet("qubit", qubit_case(), check_qubit, quick=1500, weight=1.0),
    Facet("fermionic", fermi_case(), check_fermi, quick=1500, weight=1.0),
]
