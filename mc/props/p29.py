"""Prime counting and prime summing agree with counting and summing the primes."""

import functools
import itertools
from itertools import accumulate

from mc import ref
from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P29"
ASSUMPTIONS = ["tables are asked for bounds n >= 0, value tables of counts for n >= 1"]

COUNTERS = ["legendre", "meissel", "lehmer", "lmo", "lmo_bit"]


def M():
    from rosemary.number_theory.primes import prime_counting as m
    return m


@functools.lru_cache(None)
def sums(N):
    return [0] + list(accumulate(ref.primes_upto(N)))


def counts(case, t):
    m = M()
    lo, hi, step, names = case
    N = 1500000 if hi <= 1500000 else 12000000
    P = ref.primes_upto(N)
    for n in range(lo, hi, step):
        w = ref.pi(P, n)
        for f in names:
            equal(t.call(getattr(m, f), n), w, "%s(%d)" % (f, n))
    t.outcome((case[:3], w))


def quotients(k, lo, hi):
    """All n in (lo, hi] that have p**k among their quotients by products of distinct larger primes, p >= 11 prime: the
    arguments at which a recursion by x // p meets an exact square or cube."""
    P = [p for p in ref.primes_upto(hi // 11**k + 11) if p >= 11]
    out = set()

    def rec(v, j):
        if v > lo:
            out.add(v)
        while j < len(P) and v * P[j] <= hi:
            rec(v * P[j], j + 1)
            j += 1

    for i, p in enumerate(P):
        if p**k > hi:
            break
        rec(p**k, i)
        rec(p**k, i + 1)
    return sorted(out)


def near(case, t):
    m = M()
    n, N, names = case
    P = ref.primes_upto(N)
    for x in (n - 1, n):
        w = ref.pi(P, x)
        for f in names:
            equal(t.call(getattr(m, f), x), w, "%s(%d)" % (f, x))
    t.outcome((n, w))


KNOWN = {10**7: 664579, 10**8: 5761455, 2 * 10**8: 11078937, 10**9: 50847534, 10**10: 455052511,
         2**31: 105097565, 2**30: 54400028}


def known(case, t):
    f, n = case
    equal(t.call(getattr(M(), f), n), KNOWN[n], "%s(%d)" % case)
    t.outcome(case)


KNOWN_SUMS = {10**6: 37550402023, 10**7: 3203324994356, 10**8: 279209790387276, 10**9: 24739512092254535}


def known_sum(case, t):
    f, n = case
    equal(t.call(getattr(M(), f), n), KNOWN_SUMS[n], "%s(%d)" % case)
    t.outcome(case)


def summing(case, t):
    m = M()
    lo, hi, step = case
    N = 10000 if hi <= 10000 else 1500000
    P = ref.primes_upto(N)
    A = sums(N)
    for n in range(lo, hi, step):
        w = A[ref.pi(P, n)]
        for f in ("prime_sum", "prime_sum2"):
            equal(t.call(getattr(m, f), n), w, "%s(%d)" % (f, n))
    t.outcome(case)


def tables(case, t):
    m = M()
    lo, hi = case
    P = ref.primes_upto(2100000)
    for n in range(lo, hi):
        ps, tab = t.call(m.pi_table, n)
        k = ref.pi(P, n)
        check(list(ps) == P[:k], "pi_table(%d): wrong primes", n)
        want = [0] * (n + 1)
        c = 0
        for i in range(n + 1):
            if c < k and P[c] == i:
                c += 1
            want[i] = c
        check(list(tab) == want, "pi_table(%d): table differs at %r", n,
              [i for i, (a, b) in enumerate(zip(tab, want)) if a != b][:3])
    t.outcome(case)


def values(case, t):
    m = M()
    P = ref.primes_upto(2100000)
    for n in range(*case):
        S = t.call(m.prime_count, n)
        r = int(n ** 0.5)
        for k in {n // i for i in range(1, n + 1)} if n < 2000 else S:
            check(k in S, "prime_count(%d) has no entry for %d", n, k)
        for k, v in S.items():
            equal(v, ref.pi(P, k), "prime_count(%d)[%d]" % (n, k))
    t.outcome(case)


def calls():
    m = M()
    out = {f: (getattr(m, f), lambda: (1000100,)) for f in COUNTERS}
    out.update({f + " small": (getattr(m, f), lambda: (100,)) for f in COUNTERS})
    out["lehmer2"] = (m.lehmer, lambda: (1030301,))
    out["meissel2"] = (m.meissel, lambda: (1092727,))
    out["sum"] = (m.prime_sum, lambda: (100,))
    out["sum2"] = (m.prime_sum2, lambda: (100,))
    out["table"] = (m.pi_table, lambda: (20,))
    out["values"] = (m.prime_count, lambda: (50,))
    return out


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    D = Domain
    cub = [101**3, 103**3, 10**6, 107**3]
    sqs = [1009**2, 1013**2, 1019**2, 1021**2, 1024**2]
    w = 60 if q else 6000 if deep else 600

    wins = [(c - w, c + w, 1, tuple(COUNTERS[1:4])) for c in cub + sqs + [32**4, 33**4, 37**4 // 1]]
    wins += [(c - 2, c + 3, 1, tuple(COUNTERS)) for c in cub + sqs]
    wins += [(999980, 1000010, 1, tuple(COUNTERS))]
    # fourth powers of primes p make the a of Lehmer's formula change
    wins += [(c - 4, c + 5, 1, ("meissel", "lehmer", "lmo")) for c in (41**4, 43**4, 47**4, 53**4, 211**3, 223**3,
                                                                     2003**2, 3001**2)]
    wins += [(10**6 + 1 + 25000 * i, 10**6 + 1 + 25000 * i + 25000, 257 if q else 3 if deep else 19, tuple(COUNTERS[1:4]))
             for i in range(16)]
    kn = [(f, n) for n in KNOWN for f in ("meissel", "lehmer", "lmo") if n <= (2 * 10**8 if q else 10**9)]
    c3, c2 = (2, 1.5) if q else (40, 12) if deep else (12, 2.2)
    qs = sorted({(n, int(c3 * 10**6), tuple(COUNTERS[1:4])) for n in quotients(3, 10**6, int(c3 * 10**6)) + quotients(2, 10**6, int(c2 * 10**6))})
    return [
        D("counts at exact quotients", lambda: qs, near, timeout=200,
          bound="all p^3 q < %g million and p^2 q < %g million, q a product of distinct primes >= p >= 11, and the integers before" % (c3, c2)),
        D("small counts", lambda: [(a, a + 500, 1, tuple(COUNTERS)) for a in range(-5, 12000 if q else 300000 if deep else 60000, 500)],
          counts, timeout=300, bound="all n < %d" % (12000 if q else 300000 if deep else 60000)),
        D("counts beyond the precomputed primes", lambda: wins, counts, timeout=600,
          bound="windows of radius %d around squares, cubes and fourth powers above 10^6; steps up to 1.4*10^6" % w),
        D("known counts", lambda: kn, known, timeout=800, bound="%d published values" % len(kn)),
        D("sums", lambda: [(a, a + 200, 1) for a in range(0, 6000 if q else 60000 if deep else 10000, 200)] +
          [(10**5 - 20, 10**5 + 20, 1), (999980, 1000010, 1), (10**6, 10**6 + 50000, 5000 if q else 500)], summing,
          timeout=300, bound="all n < %d and windows up to 1.05 million" % (6000 if q else 60000 if deep else 10000)),
        D("known sums", lambda: [("prime_sum", n) for n in KNOWN_SUMS] + [("prime_sum2", n) for n in KNOWN_SUMS if n <= 10**8 or tier != "quick"],
          known_sum, timeout=600, bound="published values up to 10^9"),
        D("tables", lambda: [(a, a + 40) for a in range(0, 800 if q else 10000 if deep else 3000, 40)] +
          [(10**5, 10**5 + 3), (10**6 - 1, 10**6 + 2)], tables, timeout=120,
          bound="all n < %d, and around 10^5, 10^6" % (800 if q else 10000 if deep else 3000)),
        D("tables of values", lambda: [(a, a + 40) for a in range(1, 1200 if q else 20000 if deep else 5000, 40)] +
          [(10**5, 10**5 + 5), (10**6, 10**6 + 5), (1009**2 - 1, 1009**2 + 2)], values, timeout=120,
          bound="all n < %d, and windows up to 10^6" % (1200 if q else 20000 if deep else 5000)),
        call_histories("histories", calls(), depth=2, timeout=600),
    ]
