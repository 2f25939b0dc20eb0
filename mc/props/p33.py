"""Totient preimages are complete and sound."""

import functools
import itertools
import math

from mc import ref
from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P33"
ASSUMPTIONS = ["preimages k of n <= 100000 satisfy k <= 2 n^2, hence have at most 10 prime factors and k < 7 n"]


def M():
    from rosemary.number_theory.arithmetic_functions import inverse_functions as m
    return m


@functools.lru_cache(None)
def preimages(N):
    top = 7 * N + 60
    phi = list(range(top + 1))
    for p in ref.primes_upto(top):
        for x in range(p, top + 1, p):
            phi[x] -= phi[x] // p
    inv = [[] for _ in range(N + 1)]
    for k in range(1, top + 1):
        if phi[k] <= N:
            inv[phi[k]].append(k)
    return inv


def small(case, t):
    m = M()
    lo, hi, N = case
    inv = preimages(N)
    for n in range(lo, hi):
        equal(list(t.call(m.euler_phi_inverse, n)), inv[n], "euler_phi_inverse(%d)" % n)
        equal(list(t.call(m.inverse_phi, n)), inv[n], "inverse_phi(%d)" % n)
        for fac in [ref.factor(n)] if n > 1 else [[], [(1, 1)]]:
            keep = list(fac)
            equal(list(t.call(m.euler_phi_inverse, fac)), inv[n], "euler_phi_inverse(%r)" % (fac,))
            equal(fac, keep, "the factorization passed")
    t.outcome((case, [len(inv[n]) for n in range(lo, hi)]))


def prime(n):
    """Plain division below 10^10, above it the strong test to the first 24 prime bases."""
    if n < 10**10:
        return ref.is_prime(n)
    s = (n - 1 & 1 - n).bit_length() - 1
    return n % 2 == 1 and all(
        n % a and (pow(a, n - 1 >> s, n) == 1 or any(pow(a, n - 1 >> i, n) == n - 1 for i in range(1, s + 1)))
        for a in ref.primes_upto(90))


def divisors(n):
    out = [1]
    for p, e in ref.factor(n):
        out = [d * p**i for d in out for i in range(e + 1)]
    return sorted(out)


def direct(n):
    """All k with phi(k) = n: choose the largest prime power first (independent search)."""
    out = []
    ps = [d + 1 for d in divisors(n) if prime(d + 1)]

    def go(i, left, k):
        if left == 1:
            out.append(k)
        for j in range(i, len(ps)):
            p = ps[j]
            if left % (p - 1):
                continue
            r, pk = left // (p - 1), p
            while True:
                go(j + 1, r, k * pk)
                if r % p:
                    break
                r //= p
                pk *= p
    go(0, n, 1)
    return sorted(out)


def fermat(k):
    """All n whose totient is 2^k, k < 140: distinct Fermat primes times a power of two (no others below 2^2^33)."""
    out = []
    for r in range(6):
        for S in itertools.combinations((1, 2, 4, 8, 16), r):
            if sum(S) <= k:
                odd = math.prod(2**e + 1 for e in S)
                out.append(odd << (k - sum(S) + 1))
                if sum(S) == k:
                    out.append(odd)
    return sorted(out)


def large(case, t):
    m = M()
    n = case
    w = direct(n) if n & (n - 1) or n < 2**36 else fermat(n.bit_length() - 1)
    if not n & (n - 1):
        equal(w, fermat(n.bit_length() - 1), "reference")
    equal(list(t.call(m.euler_phi_inverse, n)), w, "euler_phi_inverse(%d)" % n)
    equal(list(t.call(m.euler_phi_inverse, ref.factor(n))), w, "euler_phi_inverse(%r)" % (ref.factor(n),))
    equal(list(t.call(m.inverse_phi, n)), w, "inverse_phi(%d)" % n)
    t.outcome((n, len(w)))


def errors(case, t):
    m = M()
    kind, v = t.attempt(m.euler_phi_inverse, case)
    check(kind == "raised" and isinstance(v, ValueError), "euler_phi_inverse(%r): %r", case, v)
    t.outcome(case)


def calls():
    m = M()
    return {
        "inv": (m.euler_phi_inverse, lambda: (40,)),
        "inv 1": (m.euler_phi_inverse, lambda: (1,)),
        "inv odd": (m.euler_phi_inverse, lambda: (103,)),
        "inv factored": (m.euler_phi_inverse, lambda: ([(2, 2), (5, 2)],)),
        "other": (m.inverse_phi, lambda: (40,)),
        "other 2": (m.inverse_phi, lambda: (96,)),
    }


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    D = Domain
    N = 20000 if q else 500000 if deep else 100000
    big = [2**k for k in range(12, 24 if q else 40)] + [2**k * 3**j for k in range(1, 14) for j in range(1, 8)] + \
        [5040, 10080, 27720, 50400, 55440, 110880, 720720, 40320, 362880, 3628800] + \
        list(range(10**6, 10**6 + (200 if q else 20000 if deep else 2000), 2)) + \
        [p - 1 for p in ref.segment(10**6, 10**6 + 500)] + [p * (p - 1) for p in ref.segment(1000, 1100)] + \
        [(p - 1) * (s - 1) for p in ref.segment(100, 140) for s in ref.segment(100, 140)]
    big = sorted(set(big))
    if q:
        big = [n for n in big if n < 10**7]
    # more than 400 divisors
    big += [2162160, 4324320, 7207200, 21621600] + ([] if q else [36756720, 73513440, 367567200])
    big += [2**k for k in range(24, 140)] + [3 * 2**k for k in range(24, 38)] + [2 * 3**k for k in range(15, 26)]
    # beyond machine words, with few divisors
    big += [2 * 3**k for k in range(32, 50)] + \
        [(p - 1) * p**k for p, top in ((5, 28), (7, 22), (11, 18), (101, 10), (65537, 6)) for k in range(3 * top // 4, top)]
    return [
        D("small", lambda: [(a, min(a + 25, N + 1), N) for a in range(1, N, 25)], small, timeout=200,
          bound="1 <= n <= %d, both functions, by integer and by factorization" % N),
        D("large", lambda: big, large, timeout=200, bound="%d values up to 10^9, powers of two up to 2^139, (p - 1) p^k up to 10^29" % len(big)),
        D("errors", [0, -1, -40, "40", 2.5, [(-1, 1), (2, 2)]], errors),
        call_histories("histories", calls(), depth=3),
    ]
