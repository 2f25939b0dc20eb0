"""Every factoring algorithm returns a divisor, nontrivial wherever it promises one."""

import itertools
import math

from mc import choice, ref
from mc.engine import Domain, check, equal, raises
from mc.history import call_histories

PROPERTY = "P30"
ASSUMPTIONS = ["random draws are any values of their range; the rho methods are given composites, or primes >= 5",
               "the continued fraction method is given composites"]


def M():
    from rosemary.number_theory.factorization import algorithms as m
    return m


def trial(case, t):
    m = M()
    n, bounds = case
    least = ref.factor(n)[0][0] if n < 10**9 else None
    for b in bounds:
        got = t.call(m.trial_division, n) if b is None else t.call(m.trial_division, n, b)
        if least is None:
            continue
        want = least if b is None or least <= b else n
        equal(got, want, "trial_division(%d, %r)" % (n, b))
    t.outcome((n, least))


def trial_big(case, t):
    m = M()
    p, q = case
    n = p * q
    equal(t.call(m.trial_division, n), min(p, q), "trial_division(%d)" % n)
    equal(t.call(m.trial_division, n, min(p, q)), min(p, q), "trial_division(%d, %d)" % (n, min(p, q)))
    equal(t.call(m.trial_division, n, min(p, q) - 1), n, "trial_division(%d, %d)" % (n, min(p, q) - 1))
    t.outcome(case)


def nontrivial(d, n, what):
    check(type(d) is int and 1 < d < n and n % d == 0, "%s = %r is not a nontrivial divisor", what, d)


def complete(case, t):
    """Methods that find a divisor or prove primality."""
    m = M()
    name, lo, hi = case
    for n in range(lo, hi):
        d = t.call(getattr(m, name), n)
        if ref.is_prime(n):
            equal(d, n, "%s(%d)" % (name, n))
        else:
            nontrivial(d, n, "%s(%d)" % (name, n))
    t.outcome(case)


def semiprime(case, t):
    m = M()
    name, p, q = case
    d = t.call(getattr(m, name), p * q)
    nontrivial(d, p * q, "%s(%d)" % (name, p * q))
    t.outcome(case)


def proves(case, t):
    m = M()
    name, p = case
    equal(t.call(getattr(m, name), p), p, "%s(%d)" % case)
    t.outcome(case)


def cfrac(case, t):
    m = M()
    lo, hi, ks = case
    for n in range(lo, hi):
        if n < 4 or ref.is_prime(n):
            continue
        for k in ks:
            d = t.call(m.cfrac, n) if k is None else t.call(m.cfrac, n, k)
            nontrivial(d, n, "cfrac(%d, %r)" % (n, k))
    t.outcome(case)


def cf_big(case, t):
    m = M()
    n = case[0] * case[1]
    nontrivial(t.call(m.cfrac, n), n, "cfrac(%d)" % n)
    t.outcome(case)


def rho(case, t):
    m = M()
    name, n, wide = case
    found = set()

    def body(script):
        d = t.call(getattr(m, name), n)
        check(type(d) is int and d > 1 and n % d == 0, "%s(%d) = %r after draws %r", name, n, d, script)
        found.add(d)
    choice.explore(body, 2, wide, tracker=t)
    if name == "pollard_rho_brent" and n > 25 and not ref.is_prime(n):
        check(any(d < n for d in found), "no draw makes %s split %d", name, n)
    t.outcome((name, n, sorted(found)))


def rho_capped(case, t):
    m = M()
    n, its = case

    def body(script):
        d = t.call(m.pollard_rho, n, its)
        check(d > 1 and n % d == 0, "pollard_rho(%d, %d) = %r after draws %r", n, its, d, script)
    choice.explore(body, 2, 7, tracker=t)
    t.outcome(case)


def pm1(case, t):
    m = M()
    lo, hi, limit = case
    P = ref.primes_upto(limit)
    # the exponent of the method: each prime at its highest power within the limit
    Q = 1
    for p in P:
        k = p
        while k * p <= limit:
            k *= p
        Q *= k
    for n in range(lo, hi):
        d = t.call(m.pollard_p_minus_1, n, limit)
        check(d > 0 and n % d == 0, "pollard_p_minus_1(%d, %d) = %r", n, limit, d)
        ps = [p for p, e in ref.factor(n)]
        if any(p != 13 and Q % (p - 1) == 0 for p in ps):
            check(d > 1, "pollard_p_minus_1(%d, %d) found nothing", n, limit)
    t.outcome(case)


def pm1_edge(case, t):
    """p - 1 is covered by the limit but only just; the cofactor's is not covered."""
    m = M()
    r, limit = case              # a prime power at most `limit`
    p = next(k * r + 1 for k in range(1, 10**4) if ref.is_prime(k * r + 1)
             and all(f ** e <= limit for f, e in ref.factor(k * r)))
    for c in (2 * 10**6, 10**9):  # a safe prime s: (s - 1)/2 is a prime above the limit
        h = next(x for x in itertools.count(c + 1, 2) if ref.is_prime(x) and ref.is_prime(2 * x + 1))
        for x, y in (((2 * h + 1), p), (p, p * (2 * h + 1))):
            n = x * y
            args = (n,) if limit == 10**5 and c > 10**8 else (n, limit)
            d = t.call(m.pollard_p_minus_1, *args)
            check(1 < d <= n and n % d == 0 and d % p == 0, "pollard_p_minus_1%r = %r, a multiple of %r is promised", args, d, p)
    t.outcome(case)


def smooth(case, t):
    m = M()
    base = list(case)
    for n in list(range(-150, 0)) + list(range(1, 1500)):
        fac = dict(ref.factor(abs(n)))
        if n < 0:
            fac[-1] = 1
        kind, v = t.attempt(m.smooth_factor, n, base)
        if all(p in base for p in fac):
            check(kind == "ok", "smooth_factor(%d, %r) raised %r", n, base, v)
            equal(list(v), [fac.get(p, 0) for p in base], "smooth_factor(%d, %r)" % (n, base))
        else:
            check(kind == "raised" and isinstance(v, ValueError), "smooth_factor(%d, %r): %r", n, base, v)
    equal(base, list(case), "the factor base")
    t.outcome(case)


def smooth_big(case, t):
    m = M()
    base, es = case
    base = list(base)
    n = math.prod(p ** e for p, e in zip(base, es))
    for sign in (1, -1):
        for c in (1, 101, 2**61 - 1, 10**18 + 9):
            for B in (base, [-1] + base):
                kind, v = t.attempt(m.smooth_factor, sign * n * c, B)
                if c == 1 and (sign == 1 or B[0] == -1):
                    check(kind == "ok", "smooth_factor(%d, %r) raised %r", sign * n, B, v)
                    equal(list(v), ([int(sign < 0)] if B[0] == -1 else []) + list(es), "smooth_factor(%d, %r)" % (sign * n, B))
                else:
                    check(kind == "raised" and isinstance(v, ValueError), "smooth_factor(%d, %r): %r", sign * n * c, B, v)
    t.outcome(case)


def bases():
    ps = [2, 3, 5, 7, 11]
    for r in range(1, 6):
        for c in itertools.combinations(ps, r):
            yield c
            yield (-1,) + c


def rank(rows):
    rows = list(rows)
    r = 0
    while rows:
        p = rows.pop()
        if p:
            r += 1
            low = p & -p
            rows = [x ^ p if x & low else x for x in rows]
    return r


def gauss(case, t):
    m = M()
    shape, first = case
    r, c = shape
    for rest in itertools.product(range(1 << c), repeat=r - 1):
        codes = (first,) + rest
        rows = [[(v >> i & 1) + 2 * ((v + i) % 2) for i in range(c)] for v in codes]
        keep = [list(x) for x in rows]
        rel = t.call(m._z2_gaussian_elimination, rows)
        t.states += 1
        equal(rows, keep, "the exponent vectors")
        for w in rel:
            check(len(w) == r and any(w) and set(w) <= {0, 1}, "%r: relation %r", rows, w)
            acc = 0
            for i, x in enumerate(w):
                if x:
                    acc ^= codes[i]
            check(acc == 0, "%r: relation %r does not sum to zero", rows, w)
        masks = [sum(x << i for i, x in enumerate(w)) for w in rel]
        equal(len(rel), r - rank(codes), "%r: number of relations" % (rows,))
        equal(rank(masks), len(rel), "%r: rank of the relations" % (rows,))
    t.outcome(case)


def aq(case, t):
    m = M()
    for n in range(*case):
        r = math.isqrt(n)
        if r * r == n:
            continue
        # continued fraction of sqrt(n) with exact convergents
        P, Q, a = 0, 1, r
        h0, h1 = 1, r
        want = []
        for i in range(1, 31):
            P = a * Q - P
            Q = (n - P * P) // Q
            want.append((i, h1 % n, Q))
            a = (r + P) // Q
            h0, h1 = h1, a * h1 + h0
        got = list(itertools.islice(t.call(m._cfrac_aq_pairs, n), 30))
        got = [(i, x % n, q) for i, x, q in got]
        equal(got, want, "_cfrac_aq_pairs(%d)" % n)
    t.outcome(case)


def calls():
    m = M()
    return {
        "trial": (m.trial_division, lambda: (10403,)),
        "trial2": (m.trial_division, lambda: (10403, 50)),
        "fermat": (m.fermat, lambda: (10403,)),
        "lehman": (m.lehman, lambda: (10403,)),
        "p-1": (m.pollard_p_minus_1, lambda: (10403, 100)),
        "rho": (m.pollard_rho, lambda: (10403,)),
        "brent": (m.pollard_rho_brent, lambda: (10403,)),
        "cfrac": (m.cfrac, lambda: (12007001,)),
        "cfrac2": (m.cfrac, lambda: (1000730021,)),
        "smooth": (m.smooth_factor, lambda: (100, [2, 5])),
        "z2": (m._z2_gaussian_elimination, lambda: ([[1, 1], [1, 1], [0, 1], [2, 3]],)),
    }


def powers_below(limit):
    return sorted(p ** e for p in ref.primes_upto(limit) for e in range(1, limit.bit_length()) if p ** e <= limit)


def domains(tier):
    q = tier == "quick"
    D = Domain
    P = ref.primes_upto(40000)
    near = [p for p in ref.segment(999900, 1000200)]
    mid = [p for p in P if 500 < p < (700 if q else 1300)]
    big = ref.segment(10**5, 10**5 + (400 if q else 1500))
    hug = ref.segment(10**7, 10**7 + 120) + ref.segment(10**8, 10**8 + 60)
    far = ref.segment(10**8, 10**8 + 300)[:8] + ref.segment(3 * 10**8, 3 * 10**8 + 300)[:8] + ref.segment(10**9, 10**9 + 300)[:8]
    giants = [(2**61 - 1,), (10**18 + 3, 10**18 + 9), (2**89 - 1,), (10**30 + 57,), (10**50 + 151,), (2**200 + 235, 2**200 + 2**60 + 117, 2**200 + 2**95 + 787),
              (10**9 + 7, 10**9 + 9)]
    N = 6000 if q else 40000
    rhos = [(f, n, 60 if n <= 60 else 7) for f in ("pollard_rho", "pollard_rho_brent")
            for n in list(range(4, 600 if q else 3000))]
    rhos += [(f, p * s, 6) for f in ("pollard_rho", "pollard_rho_brent")
             for p, s in itertools.combinations_with_replacement(mid[:14], 2)]
    rhos += [("pollard_rho_brent", p * s, 4) for p, s in itertools.combinations_with_replacement(big[:8] + hug[:3], 2)]
    rhos += [(f, p * s, 3) for f in ("pollard_rho", "pollard_rho_brent") for p in (1009, 10007, 65537, 100003)
             for s in (10**9 + 7, 2**31 - 1, 67108859, 2**61 - 1, 2**89 - 1, 2**127 - 1)]
    shapes = [(r, c) for r in range(1, 5) for c in range(1, 5) if r * c <= (12 if q else 16)] + [(5, 2), (6, 2), (5, 3)]
    if not q:
        shapes += [(6, 3), (7, 2), (4, 4)]
    shapes = sorted(set(shapes))
    return [
        D("trial division", lambda: [(n, (None, 2, 3, 5, 6, 7, 10, 31, n - 1, n, n + 5)) for n in range(2, N)], trial,
          bound="n < %d, 11 bounds each" % N),
        D("trial division past the stored primes", lambda: itertools.combinations_with_replacement(near, 2), trial_big,
          timeout=60, bound="all products of 2 primes in (999900, 1000200)"),
        D("complete methods", lambda: [(f, a, a + w) for f, top, w in
                                       (("fermat", 2000 if q else 9000, 100), ("lehman", N, 100))
                                       for a in [2] + list(range(102, top, w))], complete, timeout=120,
          bound="fermat n < %d, lehman n < %d" % (2000 if q else 9000, N)),
        D("complete methods on semiprimes", lambda: [("lehman", a, b) for a, b in itertools.combinations_with_replacement(mid, 2)] +
          [("fermat", a, b) for a, b in itertools.combinations_with_replacement(mid[:20], 2)] +
          [("lehman", a, b) for a, b in itertools.combinations_with_replacement(big[:8] + hug[:2], 2)] +
          [("fermat", a, b) for i, a in enumerate(big[:12]) for b in big[i:12]],
          semiprime, timeout=120, bound="all products of two primes of a window, squares included"),
        D("complete methods on large semiprimes", lambda: [("lehman", a, b) for w in (far[:8], far[8:16], far[16:])
                                                           for a, b in itertools.combinations_with_replacement(w, 2)] +
          [("lehman", a, b) for a, b in zip(far, far[8:])] +
          [("fermat", a, b) for w in giants for a, b in itertools.combinations_with_replacement(w, 2)], semiprime, timeout=30,
          bound="windows at 10^8, 3 * 10^8 and 10^9, close factors up to 2^200, squares included"),
        D("complete methods on primes", lambda: [("lehman", p) for p in ref.segment(10**6, 10**6 + 1000)] +
          [("fermat", p) for p in ref.segment(10**5, 10**5 + 300)], proves, timeout=120, bound="prime windows"),
        D("cfrac", lambda: [(a, a + 20, (None, 1, 2, 3) if a < 1000 else (None,)) for a in range(4, 5000 if q else 40000, 20)] +
          [(10**6 + a, 10**6 + a + 20, (None,)) for a in range(0, 1000 if q else 6000, 20)] +
          [(10**9 + a, 10**9 + a + 20, (None, 1, 7)) for a in range(0, 200 if q else 2000, 20)], cfrac, timeout=120,
          bound="all composites of windows at 4, 10^6, 10^9"),
        D("cfrac on semiprimes", lambda: list(itertools.combinations_with_replacement(mid, 2)) +
          list(itertools.combinations_with_replacement(big, 2)) +
          list(itertools.combinations_with_replacement(hug, 2)), cf_big, timeout=300,
          bound="all products of two primes of three windows, squares included"),
        D("cfrac on large semiprimes", lambda: [(a, b) for a, b in itertools.combinations((
            10**7 + 19, 10**9 + 7, 10**9 + 9, 10**10 + 19, 10**10 + 33, 10**11 + 3, 10**12 + 39) + (() if q else (2**61 - 1,)), 2)
            if a * b < (10**23 if q else 10**28)], cf_big, timeout=300, bound="products of two primes"),
        D("rho methods", lambda: rhos, rho, timeout=300,
          bound="every pair of draws for n <= 60, a 7 x 7 menu above; cofactors up to 2^127"),
        D("rho with a cap", lambda: [(n, i) for n in list(range(4, 300)) + [1009 * 1013, 10403] for i in (0, 1, 5, 100, 101, 250)],
          rho_capped, timeout=120, bound="n < 300, 6 caps, 7 x 7 draws"),
        D("p minus 1", lambda: [(a, a + 50, L) for a in range(2, 1500 if q else 8000, 50) for L in (2, 3, 10, 30, 100)] +
          [(10**6, 10**6 + 60, 1000), (10403, 10404, 10**5)], pm1, timeout=120, bound="n, 5 limits"),
        D("p minus 1 at the limit", lambda: [(r, L) for L in (100, 1000, 10**4) for r in powers_below(L)[-8 if q else -40:]] +
          [(r, 10**5) for r in powers_below(10**5)[-4 if q else -30:]] + [(2**16, 10**5), (3**10, 10**5), (5**7, 10**5)],
          pm1_edge, timeout=120, bound="the largest prime powers below 4 limits, cofactors safe primes"),
        D("smooth factor", lambda: bases(), smooth, timeout=60, bound="-150 <= n < 1500, all bases over 5 primes, with and without -1"),
        D("smooth factor of large numbers", lambda: [(b, e) for b in ((2, 3, 5), (3, 7, 11), (2, 17, 97)) for e in
                                                     itertools.product((0, 1, 20, 41, 70), repeat=3) if any(e)], smooth_big, timeout=60,
          bound="three bases, every exponent vector over (0, 1, 20, 41, 70), four cofactors, both signs"),
        D("relations", lambda: [(s, f) for s in shapes for f in range(1 << s[1])], gauss, timeout=300,
          bound="all 0/1 matrices of %d shapes, up to 4 x 4" % len(shapes)),
        D("continued fraction pairs", lambda: [(a, a + 50) for a in range(2, 3000 if q else 20000, 50)] +
          [(x, x + 10) for m in (2**26, 10**8, 2**27 + 1, 2**53 + 1, 10**17 + 3, 2**64 + 1, 10**30) for x in (m * m - 5, m * m + 2 * m - 5,
                                                                                                  m * m // 3)], aq, timeout=60,
          bound="30 terms for every nonsquare n, windows around large squares"),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
