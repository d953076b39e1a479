"""Exact output distributions of Jasp programs (terminal sampling without shots)."""

import numpy as np

from .core import require


def distribution(fn, sizes, *args):
    """fn(*args) returns unsigned QuantumFloats/QuantumBools of the given sizes (one value for a
    single variable); the joint distribution as an array indexed by the values in that order"""
    from qrisp.jasp import terminal_sampling

    res = terminal_sampling(fn)(*args)
    out = np.zeros([2**s for s in sizes])
    for key, p in res.items():
        key = key if isinstance(key, tuple) else (key,)
        idx = tuple(int(v) for v in key)
        require(all(0 <= i < 2**s for i, s in zip(idx, sizes)), "value out of range", key=[float(v) for v in key])
        out[idx] += float(p)
    return out


def little(psi, n):
    """probabilities of a big-endian state vector, indexed by the little-endian value of the register"""
    P = np.abs(np.asarray(psi).reshape([2] * n)) ** 2
    return np.transpose(P, list(range(n))[::-1]).reshape(-1)
