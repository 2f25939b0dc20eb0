"""Every prime sieve and generator yields exactly the primes of its range, in order."""

import itertools

from mc import ref
from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P28"
ASSUMPTIONS = ["an interval has its upper end above its lower end",
               "the integer square roots of bounds fit a double exactly (bounds below 2^50)"]

SIEVES = ["primes", "eratosthenes1", "eratosthenes2", "luo", "chartres", "pritchard"]


def S():
    from rosemary.number_theory.primes import sieves as m
    return m


def same(got, want, what):
    got = list(got)
    if got != want:
        g, w = set(got), set(want)
        check(False, "%s: missing %r, extra %r, %d values against %d", what, sorted(w - g)[:5],
              sorted(g - w)[:5], len(got), len(want))


def small(case, t):
    m = S()
    for n in range(*case):
        want = ref.primes_upto(max(n, 1))
        for name in SIEVES:
            same(t.call(getattr(m, name), n), want, "%s(%d)" % (name, n))
    t.outcome(case)


def larger(case, t):
    m = S()
    n, names = case
    P = ref.primes_upto(1300000)
    want = P[:ref.pi(P, n)] if n <= 1300000 else ref.primes_upto(n)
    for name in names:
        same(t.call(getattr(m, name), n), want, "%s(%d)" % (name, n))
    t.outcome(case)


def first(case, t):
    m = S()
    P = ref.primes_upto(1300000)
    for n in range(*case):
        same(t.call(m.primes_first_n, n), P[:max(n, 0)], "primes_first_n(%d)" % n)
    t.outcome(case)


def ranges(a, t):
    m = S()
    P = ref.primes_upto(400)
    if a > 0:
        same(t.call(m.prime_range, a), [p for p in P if p < a], "prime_range(%d)" % a)
    for b in range(a + 1, a + 90):
        same(t.call(m.prime_range, a, b), [p for p in P if a <= p < b], "prime_range(%d, %d)" % (a, b))
    t.outcome(a)


def windows(case, t):
    m = S()
    a, b = case
    same(t.call(m.prime_range, a, b), ref.segment(a, b), "prime_range(%d, %d)" % (a, b))
    t.outcome(case)


def prefix(case, t):
    """A long range read only at its start."""
    m = S()
    a, b, k = case
    want = []
    x = a
    while len(want) < k:
        want += ref.segment(x, x + 5000)
        x += 5000
    it = t.call(m.prime_range, a, b)
    same(itertools.islice(it, k), want[:k], "start of prime_range(%d, %d)" % (a, b))
    t.outcome(case)


def calls():
    m = S()
    out = {n: (getattr(m, n), lambda: (30,)) for n in SIEVES}
    out["first"] = (m.primes_first_n, lambda: (12,))
    out["range"] = (m.prime_range, lambda: (10, 40))
    out["range1"] = (m.prime_range, lambda: (20,))
    out["primes big"] = (lambda n: m.primes(n)[-5:], lambda: (1000100,))
    out["range big"] = (m.prime_range, lambda: (10**7 + 1, 10**7 + 60))
    return out


def edges():
    """Calls around the end of the precomputed list."""
    m = S()
    out = {"primes %d" % n: (m.primes, lambda n=n: (n,)) for n in (999982, 999983, 999984)}
    out.update({"first %d" % n: (m.primes_first_n, lambda n=n: (n,)) for n in (78497, 78498, 78499)})
    return out


def domains(tier):
    q = tier == "quick"
    D = Domain
    fast = ("eratosthenes1", "eratosthenes2", "luo")
    slow = ("chartres", "pritchard")
    sq = [p * p for p in ref.primes_upto(331)]
    near = [(n + d, fast if n > 20000 else fast + slow) for n in sq for d in (-1, 0, 1, 2) if n > 2000]
    bigs = [(n, ("primes",)) for c in (999979, 999983, 1000000, 1000003, 1018081, 1062961) for n in (c - 1, c, c + 1)]
    bigs += [(1000000, fast), (1200000, fast), (200000 if q else 1000000, slow)]
    bigs += [(n, slow) for n in (1018080, 1018081, 1025111) + (() if q else (1100000, 1299827, 1500000))]
    base = [10**7, 10**7 + 10**5, 3169**2, 10**8, 2**31, 2**32, 10**10, 99991**2]
    base += [] if q else [10**12, 999983**2, 10**11]
    w = 25 if q else 120
    win = [(a, a + k) for c in base for a in range(c - w if c > 10**7 else c, c + w) for k in
           ((1, 2, 3, 17, 40) if q else (1, 2, 3, 4, 5, 16, 17, 40, 199))]
    # whole blocks and block boundaries of the segmented sieve
    win += [(10**7 - d, 10**7 + e) for d in (0, 1, 50592 * 2, 50592 + 7, 120001) for e in (1, 2, 50, 50607)]
    win += [(c + o, c + o + L) for c in (10**8, 3200**2) for o in (0, 1) for L in
            (159999, 160000, 160001, 51200, 51201, 51199, 102400, 102401)]
    roots = [p for p in ref.primes_upto(3600 if q else 5000) if p > 3162] + [9973, 10007, 31607]
    bigs += [(n, fast + ("primes",)) for n in (1400000, 2000000, 2097152, 3000000, 4194304, 10**7)]
    win += [(p * p + d, p * p + e) for p in roots for d in (-40, -1, 0, 1) for e in (1, 2, 3, 30) if d < e]
    return [
        D("every bound", lambda: [(a, a + 25) for a in range(-10, 2500 if q else 8000, 25)], small, timeout=120,
          bound="all six sieves, all n < %d" % (2500 if q else 8000)),
        D("near squares", lambda: near, larger, bound="bounds within 2 of squares of primes < 331"),
        D("large bounds", lambda: bigs, larger, timeout=200, bound="%d bounds up to ten million" % len(bigs)),
        D("first primes", lambda: [(a, a + 50) for a in range(-5, 1500, 50)] +
          [(x, x + 1) for x in (78497, 78498, 78499, 78500, 80000, 99999, 100000)], first, timeout=120,
          bound="counts < 1500 and around the precomputed list"),
        D("short ranges", lambda: range(0, 250), ranges, bound="a < 250, b <= a + 89"),
        D("windows", lambda: [(10**6 - 20 + i, 10**6 + j) for i in range(0, 20, 3) for j in (0, 1, 3, 4, 40)] + win,
          windows, timeout=200, bound="windows around %r, and whole blocks" % (base,)),
        D("long ranges", lambda: [(a, b, 900) for b in (10**7 + 1, 10**7 + 10**5, 3200**2, 10**8) for a in
                                  (1, 2, 3, 1000, 3001, 3119, 3121, 3137, 3160, 3162, 3163, 3164, 3167, 3169,
                                   3170, 3199, 3200, 3201, 3203, 9973, 9999, 10000, 10001, 10007)], prefix,
          timeout=120, bound="first 900 primes of 96 ranges longer than the cutoff"),
        D("ends at squares", lambda: [(a, b, 60) for p in roots for b in range(p * p - 1, p * p + 3)
                                      for a in range(p - 2, p + 3) if b > 10**7], prefix, timeout=120,
          bound="starts within 2 of a prime square root of the end, for all primes in [3163, %d)" % (3600 if q else 5000)),
        call_histories("histories", calls(), depth=2, timeout=300),
        call_histories("histories at the end of the list", edges(), depth=2, timeout=300),
    ]
