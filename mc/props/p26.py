"""Chinese remaindering returns the one solution below the product of the moduli."""

import itertools
import math

from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P26"
ASSUMPTIONS = ["at least one congruence; moduli are positive, and at least 2 for preconditioned solving"]


def C():
    from rosemary.number_theory import core as m
    return m


def coprime(ms):
    return all(math.gcd(a, b) == 1 for a, b in itertools.combinations(ms, 2))


def systems(ms, t):
    """All residue vectors (shifted ones too) of one tuple of moduli."""
    c = C()
    M = math.prod(ms)
    data = None
    if min(ms) >= 2:
        if coprime(ms):
            arg = list(ms)
            data = t.call(c.crt_preconditioning_data, arg)
            equal(arg, list(ms), "the moduli")
        else:
            k, v = t.attempt(c.crt_preconditioning_data, list(ms))
            check(k == "raised" and isinstance(v, ValueError), "preconditioning of %r -> %r", ms, v)
    if not coprime(ms):
        for rs in itertools.islice(itertools.product(*map(range, ms)), 60):
            k, v = t.attempt(c.chinese, list(zip(rs, ms)))
            check(k == "raised" and isinstance(v, ValueError),
                  "chinese(%r) -> %r, moduli are not coprime", list(zip(rs, ms)), v)
        t.outcome((ms, "bad"))
        return
    for n in range(M):
        for sh in (0, 1, -1) if M <= 300 else ((n % 3) - 1,):
            cong = [(n % m + sh * m * (i + 1), m) for i, m in enumerate(ms)]
            keep = list(cong)
            equal(t.call(c.chinese, cong), n, "chinese(%r)" % cong)
            equal(cong, keep, "the congruences")
            if data is not None:
                equal(t.call(c.chinese_preconditioned, cong, data), n, "preconditioned %r" % cong)
                equal(cong, keep, "the congruences")
    if data is not None:
        equal(t.call(c.chinese_preconditioned, [(0, m) for m in ms], data), 0, "preconditioned zero")
    t.outcome((ms, M))


def large(case, t):
    c = C()
    ms, n = case
    M = math.prod(ms)
    n %= M
    cong = [(n % m, m) for m in ms]
    equal(t.call(c.chinese, cong), n, "chinese(%r)" % cong)
    equal(t.call(c.chinese_preconditioned, cong, c.crt_preconditioning_data(list(ms))), n,
          "preconditioned %r" % cong)
    t.outcome(case)


def calls():
    c = C()
    data = c.crt_preconditioning_data([3, 5, 7])
    return {
        "a": (c.chinese, lambda: ([(2, 3), (3, 5), (2, 7)],)),
        "b": (c.chinese, lambda: ([(9, 4)],)),
        "bad": (c.chinese, lambda: ([(1, 4), (0, 6)],)),
        "data": (c.crt_preconditioning_data, lambda: ([3, 5, 7],)),
        "pre": (c.chinese_preconditioned, lambda: ([(2, 3), (3, 5), (2, 7)], data)),
        "pre2": (c.chinese_preconditioned, lambda: ([(1, 3), (2, 5), (4, 7)], data)),
    }


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    mx = 12 if q else 32 if deep else 24
    big = [2**61 - 1, 2**89 - 1, 2**31 - 1, 10**9 + 7, 2**64, 3**40, 5**20, 7]
    return [
        Domain("one modulus", lambda: ((m,) for m in range(1, 1000 if deep else 200)), systems, bound="moduli < %d" % (1000 if deep else 200)),
        Domain("two moduli", lambda: itertools.product(range(1, 2 * mx), repeat=2), systems,
               bound="all pairs of moduli < %d, every solution" % (2 * mx)),
        Domain("three moduli", lambda: itertools.product(range(1, mx + 1), repeat=3), systems,
               bound="all triples of moduli <= %d, every solution" % mx),
        Domain("more moduli", lambda: [p for k in (4, 5) for ms in itertools.combinations(
            (2, 3, 5, 7, 9, 4, 11, 1)[:6 if q else 8], k) for p in itertools.islice(
                itertools.permutations(ms), 0, None, 17 if q else 1 if deep else 3) if math.prod(p) < (30000 if deep else 8000)], systems,
            bound="four and five moduli, product < %d" % (30000 if deep else 8000)),
        Domain("large moduli", lambda: ((ms, n) for k in (1, 2, 3, 4) for ms in itertools.permutations(big, k)
                                        for n in (0, 1, -1, 12345678901234567890, 2**150 + 1, 7**60)), large,
               bound="ordered selections of four of eight moduli up to 2^89"),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
