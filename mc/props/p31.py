"""Factorizations multiply back, are made of primes, and determine every list of divisors."""

import itertools

from mc import choice, ref
from mc.engine import Domain, check, equal, raises
from mc.history import call_histories

PROPERTY = "P31"
ASSUMPTIONS = ["random draws follow fixed pseudo-random streams, except in the draw domain, where the first two vary"]

OPTIONS = [{}, {"skip_trial_division": True}, {"skip_power_detection": False}, {"use_cfrac": True},
           {"use_cfrac": True, "skip_power_detection": False}]


def M():
    from rosemary.number_theory.factorization import factorization as m
    return m


def want_factor(n):
    return ([(-1, 1)] if n < 0 else []) + ref.factor(abs(n))


def factor(case, t):
    m = M()
    lo, hi, opts = case
    for n in range(lo, hi):
        if n == 0:
            raises(ValueError, m.factor, 0, what="factor(0)")
            continue
        w = want_factor(n)
        for o in opts:
            got = t.call(m.factor, n, **OPTIONS[o])
            equal([tuple(x) for x in got], w, "factor(%d, %r)" % (n, OPTIONS[o]))
        equal(t.call(m.factor_back, w), n, "factor_back(%r)" % (w,))
    t.outcome(case)


def products(case, t):
    """Products of primes beyond the stored list, so that the search methods run."""
    m = M()
    ps, o, streams = case
    n = 1
    for p in ps:
        n *= p
    w = [(p, ps.count(p)) for p in sorted(set(ps))]
    for s in range(streams):
        choice.reset(s)
        equal([tuple(x) for x in t.call(m.factor, n, **OPTIONS[o])], w, "factor(%d, %r), stream %d" % (n, OPTIONS[o], s))
    choice.reset()
    t.outcome(case)


def draws(case, t):
    """The first draws (of the primality test and of the search) take extreme values."""
    m = M()
    ps, depth = case
    n = 1
    for p in ps:
        n *= p
    w = [(p, ps.count(p)) for p in sorted(set(ps))]

    def body(script):
        got = t.call(m.factor, n)
        prod = 1
        for p, e in got:
            prod *= p ** e
        equal(prod, n, "factor(%d) after draws %r: product" % (n, script))
        equal([tuple(x) for x in got], w, "factor(%d) after draws %r" % (n, script))
    choice.explore(body, depth, 5, tracker=t)
    t.outcome(case)


def lists(case, t):
    m = M()
    lo, hi = case
    for n in range(lo, hi):
        if n == 0:
            for f in ("divisors", "prime_divisors", "unitary_divisors", "divisor_pairs"):
                raises(ValueError, getattr(m, f), 0, what=f + "(0)")
            continue
        a = abs(n)
        D = ref.divisors(a)
        fac = want_factor(n)
        ps = [p for p, e in ref.factor(a)]
        uni = [d for d in D if ref.gcd(d, a // d) == 1]
        pairs = [(d, a // d) for d in D if d * d <= a]
        want = dict(divisors=D, prime_divisors=ps, unitary_divisors=uni, divisor_pairs=pairs)
        for f, w in want.items():
            fn = getattr(m, f)
            equal(list(t.call(fn, n)), w, "%s(%d)" % (f, n))
            keep = list(fac)
            equal(list(t.call(fn, factorization=fac)), w, "%s(factorization=%r)" % (f, keep))
            equal(list(t.call(fn, n, fac)), w, "%s(%d, %r)" % (f, n, keep))
            equal(fac, keep, "the factorization given to " + f)
        for kw in (dict(n=n), dict(factorization=fac), dict(n=n, factorization=fac)):
            x = list(t.call(m.xdivisors, **kw))
            equal(sorted(x), D, "xdivisors(%r)" % (kw,))
    t.outcome(case)


def large_lists(case, t):
    """Integers beyond machine words, by integer and by factorization."""
    m = M()
    fac = list(case)
    n = 1
    D, uni = [1], [1]
    for p, e in fac:
        n *= p ** e
        if p > 0:
            D = [d * p ** k for d in D for k in range(e + 1)]
            uni = [d * x for d in uni for x in (1, p ** e)]
    D.sort()
    a = abs(n)
    want = dict(divisors=D, prime_divisors=[p for p, _ in fac if p > 1], unitary_divisors=sorted(uni),
                divisor_pairs=[(d, a // d) for d in D if d * d <= a])
    for f, w in want.items():
        fn = getattr(m, f)
        equal(list(t.call(fn, factorization=list(fac))), w, "%s(factorization=%r)" % (f, fac))
        equal(list(t.call(fn, n)), w, "%s(%d)" % (f, n))
        equal(list(t.call(fn, n, list(fac))), w, "%s(%d, %r)" % (f, n, fac))
    for kw in (dict(n=n), dict(factorization=list(fac)), dict(n=n, factorization=list(fac))):
        equal(sorted(t.call(m.xdivisors, **kw)), D, "xdivisors(%r)" % (kw,))
    equal([tuple(x) for x in t.call(m.factor, n)], fac, "factor(%d)" % n)
    equal(t.call(m.factor_back, list(fac)), n, "factor_back(%r)" % (fac,))
    t.outcome(n)


def large_case_list(q):
    bigs = [[(2, 30), (3, 20)], [(2, 60), (10**9 + 7, 1)], [(p, 1) for p in (2, 3, 5, 7, 11, 13, 17, 19, 23)], [(3, 40)], [(2, 200)],
            [(2, 2), (2**61 - 1, 1)], [(2, 1), (3, 1), (2**89 - 1, 1)], [(999983, 3), (1000003, 2)], [(101, 6), (10007, 4)],
            [(2**31 - 1, 2)], [(2, 1), (2**31 - 1, 2)], [(65537, 4)], [(5, 1), (7, 25)], [(2, 53)], [(2, 54)], [(3, 34)], [(94906297, 2)],
            [(67108859, 2)], [(67108859, 1), (67108879, 1)], [(2, 10), (3, 6), (5, 4), (7, 3), (11, 2), (13, 1)], [(10**9 + 7, 1), (10**9 + 9, 1)],
            [(2, 3), (3, 3), (5, 3), (7, 3), (11, 3), (13, 3)], [(2, 17), (131071, 1), (524287, 1)]]
    if not q:
        bigs += [[(p, 1) for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)], [(2, 20), (3, 20), (5, 10)], [(2, 500)], [(3, 300)],
                 [(999983, 8)], [(2, 1), (10007, 12)], [(2**127 - 1, 1)], [(3, 2), (2**107 - 1, 1)]]
    return [tuple(b) for b in bigs] + [tuple([(-1, 1)] + b) for b in bigs[::3]]


def nothing(case, t):
    m = M()
    f = getattr(m, case)
    kind, v = t.attempt(lambda: list(f()))
    check(kind == "raised" and isinstance(v, TypeError), "%s() with no argument: %r", case, v)
    t.outcome(case)


def ranged(case, t):
    m = M()
    args = case
    a, b = (1, args[0]) if len(args) == 1 else args
    a = max(a, 1)
    got = list(t.call(m.factored_range, *args))
    equal([n for n, _ in got], list(range(a, b)), "factored_range%r: integers" % (args,))
    for n, fac in got:
        fac = [tuple(x) for x in fac]
        if n == 1:
            fac = [x for x in fac if x != (1, 1)]
        equal(fac, ref.factor(n), "factored_range%r: factorization of %d" % (args, n))
    t.outcome(case)


def lists_of_primes(k, ps):
    return itertools.combinations_with_replacement(ps, k)


def calls():
    m = M()
    F = lambda: [(2, 2), (5, 2)]
    out = {
        "factor": (m.factor, lambda: (360,)), "factor2": (m.factor, lambda: (1000003 * 1000033,)),
        "factor3": (m.factor, lambda: (1000003**2,)), "back": (m.factor_back, lambda: (F(),)),
        "range": (m.factored_range, lambda: (90, 130)), "range1": (m.factored_range, lambda: (30,)),
    }
    for f in ("divisors", "divisor_pairs", "prime_divisors", "xdivisors", "unitary_divisors"):
        out[f] = (getattr(m, f), lambda: (360,))
        out[f + " factored"] = (getattr(m, f), lambda: (None, F()))
    return out


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    D = Domain
    N = 20000 if q else 1000000 if deep else 120000
    near = ref.segment(999900, 1000400)
    far = ref.segment(10**6, 10**6 + 120) + ref.segment(3 * 10**6, 3 * 10**6 + 60)
    big = ref.segment(10**9, 10**9 + 60) + ref.segment(10**8, 10**8 + 60)
    trips = list(lists_of_primes(3, far[:6 if q else 16 if deep else 12]))
    prods = [((p, s), o, 3) for p, s in lists_of_primes(2, near[:30]) for o in (0, 2)]
    prods += [((p, s), o, 1) for p, s in lists_of_primes(2, far + big) for o in (0, 2, 3, 4)]
    prods += [(tr, o, 2) for tr in trips for o in (0, 3)]
    prods += [((2, 2, 3, p, s), o, 1) for p, s in lists_of_primes(2, far) for o in (0, 2, 3)]
    prods += [((p,) * k, o, 1) for p in far[:4] for k in (2, 3, 4, 5) for o in range(5)]
    prods += [((p,), o, 1) for p in big + far for o in range(5)]
    prods += [(ps, o, 1) for ps in ((10670053, 32010157), (149491, 747451, 34233211), (1303, 16927, 157543),
                                    (151, 751, 28351), (6763, 10627, 29947)) for o in (0, 2)]
    if not q:
        prods += [((399165290221, 798330580441), 0, 1)]
    dr = [((p, s), 3) for p, s in lists_of_primes(2, far[:6] + [1000003, 1018081])if ref.is_prime(p) and ref.is_prime(s)]
    W = 130 if q else 900 if deep else 300
    return [
        D("factor", lambda: [(a, a + 200, (0, 1, 2, 3, 4)) for a in range(-3000, N, 200)] +
          [(c - 40, c + 40, (0, 2)) for c in (10**6, 10**9, 10**12, 999983**2, 2**31, 2**40)] +
          [(-c - 20, -c + 20, (0, 2)) for c in (10**6, 10**9, 999983**2)], factor, timeout=300,
          bound="all n in [-3000, %d), 5 option settings; windows up to 2^40" % N),
        D("factors beyond the stored primes", lambda: prods, products, timeout=300,
          bound="all products of two or three primes of windows above 10^6, powers included; least strong pseudoprimes"),
        D("draws", lambda: dr, draws, timeout=300, bound="5 values for each of the first 3 draws"),
        D("divisor lists", lambda: [(a, a + 50) for a in range(-1000, 5000 if q else 200000 if deep else 30000, 50)] +
          [(c - 5, c + 6) for c in (10**6, 720720, 2**20, 3**13, 510510)], lists, timeout=120,
          bound="all |n| in the range, by integer, by factorization and by both"),
        D("large divisor lists", lambda: large_case_list(q), large_lists, timeout=120,
          bound="integers up to 2^%d of %d factorizations, by integer, by factorization and by both" % (200 if q else 500, len(large_case_list(q)))),
        D("no argument", ["divisors", "divisor_pairs", "prime_divisors", "xdivisors", "unitary_divisors"], nothing),
        D("ranges", lambda: [(b,) for b in range(-3, 600)] +
          [(a, b) for a in range(-2, W) for b in range(-2, W) if b - a < 60] +
          [(a, a + w) for c in (31**2, 32**2, 1000, 997**2, 10**6, 10**8, 1009**2, 3163**2) for a in range(c - 3, c + 4) for w in (1, 7, 40)] +
          [(a, a + 700) for a in range(1, 200000 if deep else 20000, 700)] + [(20000,)], ranged, timeout=120,
          bound="all (a, b) below %d up to 60 apart; windows up to 10^8" % W),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
