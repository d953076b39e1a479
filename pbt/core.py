"""Building blocks shared by all property modules.

A property module defines ``PROPERTY`` (id), ``RULE`` (what is generated, what is
non-trivial) and ``FACETS`` (list of :class:`Facet`).  A facet is one generated check:

* ``strategy`` - a Hypothesis strategy producing a *spec*: plain JSON data that completely
  determines the case,
* ``check(spec)`` - a pure function of the spec which drives the code in /repo and compares
  it with an oracle.  It raises :class:`Violation` when the property is broken and returns a
  list of labels; a case is non-trivial when the label list is non-empty.

Because the spec is plain data, a failing case is stored as JSON and replayed without
Hypothesis.
"""

import json
import os
import traceback

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class Violation(Exception):
    """The code under test broke the property on this spec."""


class HarnessError(Exception):
    """The harness itself failed (never reported as a violation)."""


class Reject(Exception):
    """The generated spec is outside the stated domain (counted, not evaluated)."""


class Facet:
    def __init__(self, name, strategy, check, quick, thorough=None, chunk=None, weight=1.0, exhaustive=None):
        self.name = name
        self.strategy = strategy  # strategy or zero-argument callable returning one
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 8
        self.chunk = chunk
        self.weight = weight
        # optional callable tier -> list of specs enumerated completely (in addition to search)
        self.exhaustive = exhaustive

    def get_strategy(self):
        return self.strategy() if callable(self.strategy) and not hasattr(self.strategy, "example") else self.strategy


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"), default=_default)


def _default(o):
    import numpy as np

    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(f"spec is not JSON: {type(o)}")


def from_sut(exc):
    """True if the exception passed through code of the repository under test."""
    for e in _chain(exc):
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(REPO_SRC):
                return True
            tb = tb.tb_next
    return False


def _chain(exc):
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        yield exc
        exc = exc.__cause__ or exc.__context__


def seed_globals(spec):
    """Code under test that samples uses the global generators: pin them per case."""
    import hashlib
    import random

    import numpy as np

    s = int(hashlib.sha256(canon(spec).encode()).hexdigest()[:8], 16)
    random.seed(s)
    np.random.seed(s % 2**32)


def require(cond, msg, **kw):
    if not cond:
        if kw:
            msg = msg + " | " + ", ".join(f"{k}={short(v)}" for k, v in kw.items())
        raise Violation(msg)


def short(v, n=400):
    try:
        s = repr(v)
    except Exception as e:  # pragma: no cover
        s = f"<repr failed {e}>"
    return s if len(s) <= n else s[:n] + "..."


def raises(fn, *types):
    """Run fn; return the exception if it raises one of types, else raise Violation."""
    try:
        r = fn()
    except types as e:
        return e
    raise Violation(f"expected {[t.__name__ for t in types]}, got result {short(r)}")


def run_check(facet, spec):
    """Evaluate one spec.  Returns labels; raises Violation or HarnessError."""
    reset_globals()
    seed_globals(spec)
    try:
        labels = facet.check(spec)
    except (Violation, Reject):
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        txt = traceback.format_exc()
        if from_sut(e):
            raise Violation(f"unexpected {type(e).__name__}: {e}\n{txt[-3000:]}") from None
        raise HarnessError(f"{type(e).__name__}: {e}\n{txt[-4000:]}") from None
    finally:
        reset_globals()
    return list(labels or [])


def reset_globals():
    """Undo global state a failing case can leave behind in the package (open environments,
    accelerated-append mode), so that cases are independent of each other."""
    import sys

    if "qrisp" not in sys.modules:
        return
    try:
        from qrisp import QuantumCircuit, QuantumEnvironment

        QuantumCircuit.xla_mode = 0
        QuantumEnvironment.deepest_environment[0] = None
    except Exception:
        pass
    try:
        from qrisp.core import QuantumSession

        for r in list(QuantumSession.qs_tracker):
            qs = r()
            if qs is not None:
                qs.env_stack.clear()
        QuantumSession.qs_tracker.clear()
    except Exception:
        pass
    try:
        from qrisp.jasp import TracingQuantumSession

        qs = TracingQuantumSession.get_instance()
        while qs is not None and qs.abs_qst is not None:
            qs.conclude_tracing()
    except Exception:
        pass
