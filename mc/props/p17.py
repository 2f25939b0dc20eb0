"""Truncated power series operations agree with exact series arithmetic."""

import itertools

from mc import gen
from mc.engine import Domain, Violation, check, equal
from mc.history import call_histories
from mc.props.p15 import strip, mul, fill

PROPERTY = "P17"
ASSUMPTIONS = ["coefficients are integers; inverted series have constant term 1 or -1",
               "series are non-empty, precisions are at least 1, exponents are non-negative",
               "the recursive product's switch-over length is at least 2"]


def trunc(c, n):
    c = list(c)[:n]
    return c + [0] * (n - len(c))


def tpow(a, k):
    out = [1] + [0] * (len(a) - 1)
    for _ in range(k):
        out = trunc(mul(out, a), len(a))
    return out


def single(case, t):
    from rosemary.algebra.power_series import power_series as ps
    a = list(case)
    n = len(a)
    for kind in (list, tuple):
        A = kind(a)
        for k in range(0, 6):
            equal(list(t.call(ps.ps_power, A, k)), tpow(a, k), "power %d of %r" % (k, a))
        if abs(a[0]) == 1:
            inv = list(t.call(ps.ps_invert, A))
            equal(trunc(mul(inv, a), n), trunc([1], n), "%r times its inverse %r" % (a, inv))
            equal(len(inv), n, "length of the inverse")
        equal(list(A), a, "the series")
    t.outcome(tuple(tpow(a, 3)))


def pairs(case, t):
    from rosemary.algebra.power_series import power_series as ps
    a, b = list(case[0]), list(case[1])
    x, y = list(a), list(b)
    want = mul(a, b)
    got = t.call(ps.ps_mult_classical, x, y)
    equal(strip(got), want, "classical product")
    equal(len(got), len(a) + len(b) - 1, "length of the classical product")
    for th in (2, 3, 4):
        equal(strip(t.call(ps.ps_mult_karatsuba, x, y, th)), want, "karatsuba product, threshold %d" % th)
    equal(strip(t.call(ps.ps_mult_karatsuba, x, y)), want, "karatsuba product")
    equal((x, y), (a, b), "operands")
    t.outcome(tuple(want))


def long(case, t):
    from rosemary.algebra.power_series import power_series as ps
    m, n, th = case
    a, b = fill(m, 5), fill(n, 11)
    args = () if th is None else (th,)
    equal(strip(t.call(ps.ps_mult_karatsuba, list(a), list(b), *args)), mul(a, b),
          "karatsuba product of lengths %d, %d, threshold %r" % (m, n, th))
    t.outcome((m, n))


def magnitude(case, t):
    """Long series with large coefficients, powers and inverses."""
    from rosemary.algebra.power_series import power_series as ps
    n, bits, shift = case
    a = [0] * shift + [(x << bits) + (-1)**i * i for i, x in enumerate(fill(n, 7))][:n - shift]
    for k in (0, 1, 2, 3, 7, 24) if n < 100 else (2, 3):
        equal(list(t.call(ps.ps_power, a, k)), tpow(a, k), "power %d of a series of %d terms" % (k, n))
    for c in (1, -1):
        b = [c] + a[1:]
        inv = list(t.call(ps.ps_invert, b))
        equal(trunc(mul(inv, b), n), trunc([1], n), "a series of %d terms times its inverse" % n)
        equal(len(inv), n, "length of the inverse")
    c = [(x << (bits // 3)) - i for i, x in enumerate(fill(2 * n // 3 + 1, 3))]
    want = mul(a, c)
    for x, y in ((a, c), (c, a)):
        equal(strip(t.call(ps.ps_mult_classical, x, y)), want, "classical product")
        equal(strip(t.call(ps.ps_mult_karatsuba, x, y)), want, "karatsuba product")
        equal(strip(t.call(ps.ps_mult_karatsuba, x, y, 9)), want, "karatsuba product, threshold 9")
    equal(strip(t.call(ps.ps_mult_karatsuba, a, a)), mul(a, a), "square of a series")
    t.outcome(case)


_EULER = {}


def euler(n):
    """prod (1 - q^i) to n terms, multiplied out."""
    if n not in _EULER:
        c = [1] + [0] * (n - 1)
        for i in range(1, n):
            for j in range(n - 1, i - 1, -1):
                c[j] -= c[j - i]
        _EULER[n] = c
    return _EULER[n]


def modular(case, t):
    from rosemary.algebra.power_series import power_series as ps
    n = case
    e = euler(n)
    equal(list(t.call(ps.eta_series, n)), e, "eta series to %d terms" % n)
    if n <= 60:
        d = [1] + [0] * (n - 1)
        for _ in range(24):
            d = trunc(mul(d, e), n)
        equal(list(t.call(ps.delta_series, n)), d, "delta series to %d terms" % n)
    if n == 1000:
        equal(list(t.call(ps.eta_series)), e, "eta series, default precision")
    inv = list(t.call(ps.ps_invert, e))
    # 1/prod(1-q^i) counts partitions
    p = [1] + [0] * (n - 1)
    for i in range(1, n):
        for j in range(i, n):
            p[j] += p[j - i]
    equal(inv, p, "inverse of the eta series")
    t.outcome((n, tuple(e[-3:])))


LEVELS = ("thorough", "deep")


def domains(tier):
    big = tier != "quick"
    deep = tier == "deep"

    def singles():
        yield from gen.sequences((-2, -1, 0, 1, 3), 4 if not big else 6 if deep else 5, 1)
        yield from gen.sequences((-1, 0, 1), 8 if deep else 6, 5)

    def prs():
        V = (-2, 0, 1, 3)
        for a in gen.sequences(V, 4 if deep else 3, 1):
            for b in gen.sequences(V, 4 if deep else 3, 1):
                yield (a, b)
        for m in range(1, 13):
            for n in range(1, 13):
                yield (tuple(fill(m, 2)), tuple(fill(n, 9)))

    def lens():
        L = [1, 2, 39, 40, 41, 42, 79, 80, 81, 82, 83, 120, 161, 323] + ([319, 320, 500, 641] if big else []) + ([639, 640, 1000, 1281] if deep else [])
        for m in L:
            for n in L:
                yield (m, n, None)
                yield (m, n, 3)
        for m in range(2, 120 if deep else 40):
            for n in (m, m + 1, 2 * m, 2 * m + 1):
                for th in (2, 5, 8):
                    yield (m, n, th)
                    yield (n, m, th)

    def calls():
        from rosemary.algebra.power_series import power_series as ps
        return {
            "eta": (ps.eta_series, lambda: (12,)), "eta long": (ps.eta_series, lambda: (30,)),
            "delta": (ps.delta_series, lambda: (6,)), "invert": (ps.ps_invert, lambda: ([1, 2, 3],)),
            "power": (ps.ps_power, lambda: ([1, 2, 3, 4], 3)),
            "power0": (ps.ps_power, lambda: ([0, 2, 3, 4], 2)),
            "classical": (ps.ps_mult_classical, lambda: ([1, 2], [3, 4, 5])),
            "karatsuba": (ps.ps_mult_karatsuba, lambda: ([1, 2, 7, 8], [3, 4, 5], 2)),
        }

    return [
        Domain("single", singles, single, bound="all series of <= %d terms over {-2,-1,0,1,3} and <= %d over {-1,0,1}; powers 0..5" % (6 if deep else 5 if big else 4, 8 if deep else 6)),
        Domain("products", prs, pairs, bound="all pairs of <= %d terms over {-2,0,1,3}; all lengths up to 12; thresholds 2, 3, 4, default" % (4 if deep else 3)),
        Domain("lengths", lens, long, bound="length pairs around every split up to %d" % (1281 if deep else 641 if big else 323)),
        Domain("magnitudes", lambda: [(n, bits, s) for n in ((1, 2, 5, 20, 45, 90, 150) if not big else (1, 2, 5, 20, 45, 60, 90, 99, 150) + ((260,) if deep else ()))
                                      for bits in (0, 40, 70, 600) for s in (0, 1, 3) if s < n], magnitude, timeout=120,
               bound="series of up to %d terms, coefficients up to 2^608, leading zeros 0, 1, 3" % (260 if deep else 150)),
        Domain("modular", list(range(1, 400 if deep else 60)) + [100, 155, 300, 1000] + ([1500, 2500] if big else []), modular, bound="precisions 1..%d and larger ones" % (399 if deep else 59)),
        call_histories("call-histories", calls(), depth=2),
    ]
