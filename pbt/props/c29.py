"""C29: fixed-width big integers equal arbitrary-precision integers modulo 2^(32 n)."""

import math

from hypothesis import strategies as st

from ..core import Facet, require

RULE = (
    "pairs of integers of 1-5 limbs whose limbs are drawn from boundary values (0, 1, 2^31, 2^32-1, neighbours) and random values, with equal "
    "top limbs, near-multiples and powers of two included. Every operator, comparison, shift, bit operation, division, and the modular "
    "tools are compared with Python integers modulo 2^(32 n), directly and inside jit. Non-trivial: several limbs, carries/borrows/wrap, "
    "multi-limb divisor, quotient digit at its maximum, ..."
)
LIMBS = [0, 1, 2, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1]
SIZES = [1, 2, 3, 5]


@st.composite
def limbs(draw, n, nonzero=False):
    used = draw(st.integers(1, n))
    ds = [draw(st.one_of(st.sampled_from(LIMBS), st.integers(0, 2**32 - 1))) for _ in range(used)]
    v = sum(d << (32 * i) for i, d in enumerate(ds))
    return v or (1 if nonzero else 0)


@st.composite
def arith_case(draw):
    n = draw(st.sampled_from(SIZES))
    W = 2 ** (32 * n)
    b = draw(limbs(n))
    kind = draw(st.sampled_from(["free", "free", "equal", "near", "quot", "top", "top"]))
    if kind == "free":
        a = draw(limbs(n))
    elif kind == "equal":
        a = b
    elif kind == "top":
        # leading limbs of dividend and divisor agree: the quotient digit estimate is at its maximum
        k = draw(st.integers(0, max(0, n - max(1, (b.bit_length() + 31) // 32))))
        a = ((b >> 32 << 32) << (32 * k)) % W
        a = max(0, a - draw(st.sampled_from([0, 1, 2**32, 2**63, 2**64]))) % W
        a = a | draw(limbs(max(1, k)))
    elif kind == "near":
        a = (b + draw(st.integers(-2, 2))) % W
    else:
        a = (b * draw(limbs(n)) + draw(st.integers(-3, 3))) % W
    return {"n": n, "a": str(a), "b": str(b), "shift": draw(st.integers(0, 32 * n + 40)), "e": draw(st.integers(0, 40)), "c": str(draw(st.integers(0, 2**31)))}


_cache = {}


def all_ops(n):
    import jax

    if n not in _cache:

        def run(a, b, shift, e, c):
            return {
                "+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b, "~": ~a, "**": a**e,
                "<<": a << shift, ">>": a >> shift, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b,
                "//": a // b, "%": a % b, "bits": a.bit_size(), "+c": a + c, "-c": a - c, "*c": a * c, "<c": a < c, ">=c": a >= c,
                "sub_alt": a.__sub_alt__(b), "%c": a % c, "//c": a // c, "larger": (a.get_larger() * b.get_larger()),
                "bit": a.get_bit(shift % (32 * n)), "flip": a.flip_bit(shift % (32 * n)), "==c": a == c,
            }  # fmt: skip

        _cache[n] = jax.jit(run)
    return _cache[n]


def check_arith(spec):
    from qrisp import BigInteger

    n = spec["n"]
    W = 2 ** (32 * n)
    a, b, c = int(spec["a"]), int(spec["b"]), int(spec["c"])
    s, e = spec["shift"], spec["e"]
    A, B = BigInteger.create_static(a, n), BigInteger.create_static(b, n)
    require(A() == a and B() == b, "conversion", a=spec["a"])
    got = all_ops(n)(A, B, s, e, c)
    i = s % (32 * n)
    want = {
        "+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b, "~": ~a, "**": pow(a, e, W),
        "<<": a << s, ">>": a >> s, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b,
        "bits": a.bit_length(), "+c": a + c, "-c": a - c, "*c": a * c, "<c": a < c, ">=c": a >= c,
        "sub_alt": a - b, "bit": (a >> i) & 1, "flip": a ^ (1 << i), "==c": a == c, "larger": a * b,
    }  # fmt: skip
    if b:
        want["//"], want["%"] = a // b, a % b
    if c:
        want["//c"], want["%c"] = a // c, a % c
    for k, w in want.items():
        g = got[k]
        if hasattr(g, "digits"):
            require(g.digits.shape[0] == (2 * n if k == "larger" else n), "number of limbs changed", op=k)
            g, w = g(), w % (W * W if k == "larger" else W)
        require(int(g) == int(w), f"big integer operation {k}", op=k, a=spec["a"], b=spec["b"], got=str(g), want=str(w))
    labels = []
    if n > 1 and max(a, b) >= 2**32:
        labels.append("multi_limb")
    if a + b >= W or a < b or a * b >= W:
        labels.append("wraps")
    if b >= 2**32 and a >= b:
        labels.append("long_division")
    return labels


# ------------------------------------------------------------------ modular tools


@st.composite
def mod_case(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    N = draw(limbs(n))
    N = max(3, N | 1)
    return {
        "n": n,
        "N": str(N),
        "x": str(draw(limbs(n))),
        "y": str(draw(limbs(n))),
        "e": draw(st.integers(0, 200)),
        "small": draw(st.integers(2, 2**30)),
        "sx": draw(st.integers(1, 2**30)),
    }


def mod_ops(n):
    import jax
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_bigintiger as bi
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_mod_tools as mt

    if ("m", n) not in _cache:

        def run(x, y, N, e, R):
            return {
                "pow2": mt.pow2mod(e, N), "inv": mt.modinv(x, N), "enc": mt.montgomery_encoder(y, R, N),
                "dec": mt.montgomery_decoder(y, R, N), "newdec": mt.new_montgomery_decoder(y, e, N), "euclid": bi.bi_extended_euclidean(y, N),
            }  # fmt: skip

        _cache["m", n] = jax.jit(run)
    return _cache["m", n]


def convergents(a, b, k):
    out, (p0, p1), (q0, q1) = [], (0, 1), (1, 0)
    while b and len(out) < k:
        t = a // b
        p0, p1, q0, q1 = p1, t * p1 + p0, q1, t * q1 + q0
        out.append((p1, q1))
        a, b = b, a % b
    return out


def check_mod(spec):
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_bigintiger as bi
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_mod_tools as mt
    from qrisp import BigInteger

    n, e = spec["n"], spec["e"]
    W = 2 ** (32 * n)
    N, x, y = int(spec["N"]), int(spec["x"]), int(spec["y"])
    while math.gcd(x, N) != 1 or x % N == 0:
        x = (x + 1) % N or 1
    R = pow(2, e, N)
    c = lambda v: BigInteger.create_static(v, n)
    got = mod_ops(n)(c(x), c(y), c(N), e, c(R))
    want = {"pow2": R, "inv": pow(x, -1, N), "enc": y * R % N, "dec": y * pow(R, -1, N) % N, "newdec": y * pow(pow(2, e, N), -1, N) % N}
    for k, w in want.items():
        require(got[k]() == w, f"modular operation {k}", N=spec["N"], x=str(x), y=spec["y"], e=e, got=str(got[k]()), want=str(w))
    g, s, t = (v() for v in got["euclid"])
    require(g == math.gcd(y, N) and (s * y + t * N - g) % W == 0, "extended Euclid", y=spec["y"], N=spec["N"])
    # plain integers
    m, a = spec["small"], spec["sx"]
    if math.gcd(a, m) == 1:
        require(int(mt.modinv(a, m)) == pow(a, -1, m), "modinv of ints", a=a, m=m)
        require(int(mt.montgomery_decoder(x % m, a % m or 1, m)) == (x % m) * pow(a % m or 1, -1, m) % m, "decoder of ints", a=a, m=m)
    require(int(mt.pow2mod(e, m)) == pow(2, e, m), "pow2mod of ints", e=e, m=m)
    require(mt.smallest_power_of_two(m) == (m - 1).bit_length(), "smallest power of two", m=m)
    # continued fractions
    labels = ["multi_limb"] if N >= 2**32 else []
    if y and n < 3:
        want = convergents(y % N, N, 12)
        got = [(p(), q()) for p, q in bi.bi_contfrac_convergents(c(y % N), c(N), max_terms=12)]
        require(got == want, "continued fraction convergents", a=str(y % N), b=str(N), got=str(got), want=str(want))
        labels.append("contfrac")
    return labels


FACETS = [
    Facet("arith", arith_case(), check_arith, quick=6000, weight=1.0),
    Facet("modular", mod_case(), check_mod, quick=800, weight=2.0),
]
