"""Primality tests: exact tests are exact, probabilistic ones never reject a prime,
whatever base is drawn, and accept exactly the documented pseudoprimes."""

import itertools
import math

from mc import choice, ref
from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P27"
ASSUMPTIONS = ["the probabilistic tests are asked about odd n, with a base between 1 and n - 1, "
               "and draw their own base only for n >= 5",
               "an interval for a random prime holds a prime"]


def T():
    from rosemary.number_theory.primes import primality as m
    return m


def strong(n, a):
    """n is prime or a strong pseudoprime to base a, from the definition."""
    s = 0
    d = n - 1
    while d % 2 == 0:
        d //= 2
        s += 1
    x = 1
    for bit in bin(d)[2:]:
        x = x * x % n
        if bit == "1":
            x = x * a % n
    if x == 1 % n:
        return True
    for _ in range(s):
        if x == n - 1:
            return True
        x = x * x % n
    return False


def jac(a, n):
    r = 1
    for p, e in ref.factor(n):
        if a % p == 0:
            return 0
        l = 1 if any(x * x % p == a % p for x in range(1, p)) else -1
        r *= l ** e
    return r


def all_bases(n, t):
    m = T()
    prime = ref.is_prime(n)
    good = {"s": 0, "m": 0}
    cop = 0
    for a in range(1, n):
        j = jac(a, n)
        e = pow(a, (n - 1) // 2, n)
        w = j != 0 and (e - j) % n == 0
        equal(bool(t.call(m.solovay_strassen, n, a)), w, "solovay_strassen(%d, %d)" % (n, a))
        w2 = strong(n, a)
        equal(bool(t.call(m.miller_rabin, n, a)), w2, "miller_rabin(%d, %d)" % (n, a))
        if prime:
            check(w and w2, "reference")
        cop += j != 0
        good["s"] += w
        good["m"] += w2
    if not prime and n > 1:
        check(2 * good["s"] <= cop and 4 * good["m"] <= n - 1 or n == 9, "reference bound for %d", n)
    t.outcome((n, good["s"], good["m"]))


def random_bases(n, t):
    """The test draws the base itself: every possible draw."""
    m = T()
    prime = ref.is_prime(n)
    res = {"solovay_strassen": [0, 0], "miller_rabin": [0, 0]}
    for name in res:
        def body(script):
            v = bool(t.call(getattr(m, name), n))
            if prime:
                check(v, "%s(%d) rejects a prime with draws %r", name, n, script)
            res[name][v] += 1
        choice.explore(body, 1, wide=n, tracker=t)
        if not prime:
            s = sum(res[name])
            check(2 * res[name][1] <= s, "%s(%d) accepts a composite for %d of %d bases", name, n,
                  res[name][1], s)
    t.outcome((n, repr(res)))


def exact(case, t):
    m = T()
    lo, hi = case
    P = set(ref.segment(lo, hi))
    for n in range(lo, hi):
        w = n in P
        equal(bool(t.call(m.is_prime, n)), w, "is_prime(%d)" % n)
        if n % 2 and n > 1:
            equal(bool(t.call(m.is_probable_prime, n)), w, "is_probable_prime(%d)" % n)
    t.outcome((case, len(P)))


def determ(case, t):
    m = T()
    for n in range(*case):
        equal(bool(t.call(m.miller_rabin_deterministic, n)), ref.is_prime(n),
              "miller_rabin_deterministic(%d)" % n)
    t.outcome(case)


# The least composites passing the strong test for the first 1, 2, ..., 6, 8, 11 and 12 primes as bases.
SPSP = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321,
        3825123056546413051, 318665857834031151167461]
CARMICHAEL = [561, 1105, 1729, 2465, 2821, 6601, 8911, 41041, 825265, 321197185, 5394826801,
              232250619601, 9746347772161, 1436697831295441, 60977817398996785]
BIG_PRIMES = [2**31 - 1, 2**61 - 1, 2**89 - 1, 2**107 - 1, 2**127 - 1, 10**9 + 7, 10**12 + 39,
              10**15 + 37, 10**18 + 9, 2**64 - 59, 2**64 + 13]


def special(case, t):
    m = T()
    kind, n = case
    if kind == "carmichael" or kind == "semiprime":
        if kind == "carmichael":
            fs = ref.factor(n)
            check(len(fs) > 2 and all((n - 1) % (p - 1) == 0 for p, _ in fs), "reference")
        check(not t.call(m.is_probable_prime, n), "is_probable_prime(%d) accepts a composite", n)
        check(not t.call(m.is_prime, n), "is_prime(%d) accepts a composite", n)
        if n < 10**7:
            check(not t.call(m.miller_rabin_deterministic, n), "deterministic(%d)", n)
    elif kind == "proth":
        g = next(g for g in range(3, 200) if pow(g, (n - 1) // 2, n) == n - 1)     # a certificate (Proth), and non-residue
        check(t.call(m.is_probable_prime, n), "is_probable_prime(%d) rejects a prime", n)
        for a in list(range(2, 45)) + [pow(g, (n - 1) >> i, n) for i in range(2, 20)] + [g * g % n, n - 2, n - 3]:
            if not 1 < a < n:
                continue
            check(t.call(m.miller_rabin, n, a), "miller_rabin(%d, %d) rejects a prime", n, a)
            check(t.call(m.solovay_strassen, n, a), "solovay_strassen(%d, %d) rejects a prime", n, a)
    elif kind == "spsp":
        check(all(strong(n, a) for a in (2, 3, 5, 7)[:max(1, SPSP.index(n) + 1)]), "reference")
        check(not t.call(m.is_probable_prime, n), "is_probable_prime(%d) accepts a composite", n)
        if n < 10**13:
            check(not t.call(m.is_prime, n), "is_prime(%d) accepts a composite", n)
    else:
        check(t.call(m.is_probable_prime, n), "is_probable_prime(%d) rejects a prime", n)
        for a in (2, 3, 5, 7, 1234567, n - 1, n // 2):
            check(t.call(m.miller_rabin, n, a), "miller_rabin(%d, %d) rejects a prime", n, a)
            check(t.call(m.solovay_strassen, n, a), "solovay_strassen(%d, %d) rejects a prime", n, a)
        if n < 3 * 10**12:
            check(t.call(m.is_prime, n), "is_prime(%d) rejects a prime", n)
            check(t.call(m.miller_rabin_deterministic, n), "deterministic(%d) rejects a prime", n)
    t.outcome(case)


def proths(top):
    """For every s the least prime k*2^s + 1 with odd k < 2^s: bases of every 2-part of the order exist."""
    for s in range(3, top):
        for k in range(1, min(2**s, 4000), 2):
            n = (k << s) + 1
            if all(n % p for p in (3, 5, 7, 11, 13) if p < n) and any(pow(g, (n - 1) // 2, n) == n - 1 for g in (3, 5, 7, 11, 13, 17, 19)):
                yield n
                break


def near_pseudoprimes(case, t):
    """Products p*q with q - 1 a small multiple of p - 1: the richest source of strong pseudoprimes."""
    m = T()
    lo, hi = case
    for p in ref.segment(lo, hi):
        for r in range(2, 8):
            q = r * (p - 1) + 1
            if strong(q, 2) and strong(q, 3) and strong(q, 61) and q < 4759123141:
                n = p * q
                if strong(n, 2):
                    t.outcome(n)
                check(not t.call(m.is_probable_prime, n), "is_probable_prime(%d) accepts %d*%d", n, p, q)
    t.outcome(case)


MERSENNE = {3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423}


def mersenne(p, t):
    m = T()
    equal(bool(t.call(m.lucas_lehmer, p)), p in MERSENNE, "lucas_lehmer(%d)" % p)
    if p < 40 and ref.is_prime(p):
        equal(p in MERSENNE, ref.is_prime(2**p - 1), "reference")
    t.outcome(p)


def following(case, t):
    m = T()
    lo, hi = case
    seg = ref.segment(lo, hi + 2000)
    it = 0
    for n in range(lo, hi):
        while seg[it] <= n:
            it += 1
        equal(t.call(m.next_prime, n), seg[it], "next_prime(%d)" % n)
        equal(t.call(m.next_probable_prime, n), seg[it], "next_probable_prime(%d)" % n)
    t.outcome(case)


# The distance from a number to the next prime.
GAPS = [(10**12, 39), (10**15, 37), (10**18, 3), (2**53, 5), (2**61 - 3, 2), (2**63, 29), (2**64, 13), (10**20, 39), (2**89 - 2, 1),
        (10**30, 57), (2**107 - 2, 1), (2**127 - 2, 1), (10**40, 121), (10**50, 151), (2**200, 235), (10**100, 267)]


def far(case, t):
    m = T()
    n, gap = case
    for k in sorted({0, 1, gap // 3, gap // 2, gap - 2, gap - 1} & set(range(gap))):
        if n <= 10**12:         # is_prime is exact, hence slow, beyond
            equal(t.call(m.next_prime, n + k), n + gap, "next_prime(%d)" % (n + k))
        equal(t.call(m.next_probable_prime, n + k), n + gap, "next_probable_prime(%d)" % (n + k))
    t.outcome(case)


def rand(case, t):
    m = T()
    a, b = case
    seen = set()

    def body(script):
        p = t.call(m.random_prime, a, b)
        check(a <= p <= b and ref.is_prime(p), "random_prime(%d, %d) -> %r with draws %r", a, b, p, script)
        seen.add(p)
    choice.explore(body, 2, wide=min(b - a + 1, 12), tracker=t)
    if b - a < 12:
        equal(seen, set(ref.segment(a, b + 1)), "primes random_prime(%d, %d) can return" % (a, b))
    t.outcome((case, len(seen)))


def calls():
    m = T()
    return {"ss": (m.solovay_strassen, lambda: (341, 2)), "mr": (m.miller_rabin, lambda: (2047, 2)),
            "ip": (m.is_prime, lambda: (1000003,)), "small": (m.is_prime, lambda: (91,)),
            "next": (m.next_prime, lambda: (999983,)), "det": (m.miller_rabin_deterministic, lambda: (561,)),
            "ll": (m.lucas_lehmer, lambda: (13,)), "pp": (m.is_probable_prime, lambda: (1105,)),
            "rp": (m.random_prime, lambda: (10, 30))}


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    D = Domain
    win = lambda c, w, k=500: [(max(x - w, 0), x + w) for x in c]
    blocks = lambda a, b, k: [(x, min(x + k, b)) for x in range(a, b, k)]
    semis = [p * r for p in (1009, 10007, 999983) for r in (1013, 10009, 99991, 999979, 999983)]
    semis += [p * p for p in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 1009, 99991, 999983, 1000003)]
    semis = sorted(set(semis))
    return [
        D("every base", lambda: range(3, 350 if q else 2500 if deep else 1100, 2), all_bases,
          bound="odd n < %d, every base 1..n - 1" % (350 if q else 2500 if deep else 1100)),
        D("every draw", lambda: range(5, 300 if q else 2200 if deep else 1000, 2), random_bases,
          bound="odd n < %d, every base the test may draw" % (300 if q else 2200 if deep else 1000)),
        D("exact", lambda: blocks(0, 60000 if q else 5000000 if deep else 1000000, 1000) + win(
            [10**6, 1018081, 2**20, 10**7, 2**31, 2**32, 10**10, 999983**2, 1000003**2], 60 if q else 400),
          exact, timeout=300,
          bound="n < %d and windows up to 10^12" % (60000 if q else 5000000 if deep else 1000000)),
        D("deterministic", lambda: blocks(0, 6000 if q else 300000 if deep else 60000, 200), determ,
          bound="n < %d" % (6000 if q else 300000 if deep else 60000)),
        D("special numbers", lambda: [("carmichael", n) for n in CARMICHAEL] + [("spsp", n) for n in SPSP] +
          [("prime", n) for n in BIG_PRIMES] + [("proth", n) for n in proths(60 if q else 260)] + [("semiprime", n) for n in semis], special, timeout=120,
          bound="Carmichael numbers, strong pseudoprimes, large primes, semiprimes and primes k*2^s + 1, s < %d" % (60 if q else 260)),
        D("near pseudoprimes", lambda: blocks(3, 100000 if q else 10000000 if deep else 1500000, 1000) + win([10670053], 200), near_pseudoprimes,
          bound="products p*(r(p - 1) + 1) of two primes, p < %d, r = 2..7" % (100000 if q else 10000000 if deep else 1500000)),
        D("mersenne", lambda: (p for p in range(3, 700 if q else 4500 if deep else 2300, 2) if ref.is_prime(p)), mersenne,
          timeout=120, bound="odd prime exponents < %d" % (700 if q else 4500 if deep else 2300)),
        D("next prime", lambda: [(-5, 1)] + blocks(0, 8000 if q else 1000000 if deep else 100000, 500) + win(
            [999983, 10**6, 31397 + 36, 370261 + 56, 10**9, 10**10], 30), following, timeout=120,
          bound="n < %d and windows up to 10^10" % (8000 if q else 1000000 if deep else 100000)),
        D("next prime far out", GAPS, far, bound="16 gaps known from 10^12 to 10^100"),
        D("random prime", lambda: [(a, b) for a in range(1, 40) for b in range(a, a + 12)
                                   if ref.segment(a, b + 1)] + [(10**6, 10**6 + 100), (2, 1000)], rand,
          bound="all intervals of <= 12 numbers below 50, every answer to the first two draws"),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
