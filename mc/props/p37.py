"""Pell equations: fundamental solutions, class representatives and enumerations are exact and complete."""

import itertools
import math

from mc import ref
from mc.engine import Domain, check, equal, raises
from mc.history import call_histories

PROPERTY = "P37"
ASSUMPTIONS = ["N != 0; positive solutions have x > 0 and y > 0"]


def M():
    from rosemary.number_theory.diophantine_equations import pell as m
    return m


def brute(D, N, Y):
    """All (x, y), x > 0, 0 < y <= Y, with x^2 - D y^2 = N."""
    out = []
    for y in range(1, Y + 1):
        v = N + D * y * y
        if v > 0:
            x = math.isqrt(v)
            if x * x == v:
                out.append((x, y))
    return out


def unit(D, n, limit):
    """Least positive solution of x^2 - D y^2 = n with y <= limit, by trying every y."""
    for y in range(1, limit + 1):
        v = n + D * y * y
        if v > 0:
            x = math.isqrt(v)
            if x * x == v:
                return x, y
    return None


def chakravala(D):
    """Fundamental solution of x^2 - D y^2 = 1 by the cyclic method (no continued fraction)."""
    a = math.isqrt(D)
    if (a + 1) ** 2 - D < D - a * a:
        a += 1
    b, k = 1, a * a - D
    while k != 1:
        # m with a + b m divisible by k and |m^2 - D| least
        ak = abs(k)
        m0 = next(m for m in range(ak) if (a + b * m) % ak == 0)
        r = math.isqrt(D)
        lo = r - (r - m0) % ak
        c = [m for m in (lo - ak, lo, lo + ak) if m > 0]
        m = min(c, key=lambda m: (abs(m * m - D), m))
        a, b, k = (a * m + D * b) // ak, (a + b * m) // ak, (m * m - D) // k
    return a, b


def nsq(lo, hi):
    return [d for d in range(lo, hi) if math.isqrt(d) ** 2 != d]


def fundamental(case, t):
    m = M()
    D = case
    u, v = chakravala(D)
    lim = min(v, 3000)
    w = unit(D, 1, lim)
    check(w is None if v > 3000 else w == (u, v), "reference disagreement at %d", D)
    E = m.PellEquation(D, 1)
    for got in (t.call(m.pell_fundamental_solution, D), t.call(m.pell_fundamental_solution, D, 1),
                t.call(E.resolvent_solution)):
        equal(tuple(got), (u, v), "fundamental solution for D = %d" % D)
    # x^2 - D y^2 = -1 is soluble iff (u, v) is the square of its least solution:
    # u = 2 x^2 + 1, v = 2 x y
    neg = None
    if u % 2 and v % 2 == 0:
        h = (u - 1) // 2
        x = math.isqrt(h)
        if x * x == h and x and v % (2 * x) == 0:
            y = v // (2 * x)
            if x * x - D * y * y == -1:
                neg = (x, y)
    if neg is None:
        raises(ValueError, m.pell_fundamental_solution, D, -1, what="pell_fundamental_solution(%d, -1)" % D)
        raises(ValueError, m.PellEquation(D, -1).resolvent_solution, -1, what="resolvent_solution(-1) for D = %d" % D)
    else:
        equal(tuple(t.call(m.pell_fundamental_solution, D, -1)), neg, "pell_fundamental_solution(%d, -1)" % D)
        equal(tuple(t.call(m.PellEquation(D, -1).resolvent_solution, -1)), neg, "resolvent_solution(-1) for D = %d" % D)
    t.outcome((D, u, v, neg))


def invalid(case, t):
    m = M()
    D, n = case
    raises(ValueError, m.pell_fundamental_solution, D, n, what="pell_fundamental_solution(%d, %d)" % case)
    if D <= 0 or math.isqrt(D) ** 2 == D:
        raises(ValueError, m.PellEquation, D, n, what="PellEquation(%d, %d)" % case)
        raises(ValueError, m.pell_small, D, n, what="pell_small(%d, %d)" % case)
    t.outcome(case)


def classes(D, N, sols):
    """Least member of each class of positive solutions (sols sorted by y, complete up to a bound)."""
    reps = []
    for x, y in sols:
        for a, b in reps:
            if (x * a - D * y * b) % N == 0 and (x * b - y * a) % N == 0:
                break
        else:
            reps.append((x, y))
    return reps


def bound(D, N, u, v):
    # every class has a solution 0 <= y0 <= v*sqrt(|N|/2)-ish; one more step by the unit gives a positive one
    y0 = math.isqrt(v * v * abs(N)) + 1
    x0 = math.isqrt(abs(N) + D * y0 * y0) + 1
    return x0 * v + y0 * u


def minimal(case, t):
    m = M()
    D, N, lim = case
    u, v = chakravala(D)
    Y = bound(D, N, u, v)
    if Y > lim:
        # complete up to lim only: compare what lies within
        sols = brute(D, N, lim)
        got = [tuple(x) for x in t.call(m.pell_minimal_positive_solutions, D, N)]
        for x, y in got:
            check(x > 0 and y > 0 and x * x - D * y * y == N, "D = %d, N = %d: %r is no solution", D, N, (x, y))
        equal(got, sorted(got), "order of pell_minimal_positive_solutions(%d, %d)" % (D, N))
        equal(sorted(s for s in got if s[1] <= lim), sorted(classes(D, N, sols)),
              "pell_minimal_positive_solutions(%d, %d), y <= %d" % (D, N, lim))
        t.outcome((D, N, len(got)))
        return
    sols = brute(D, N, Y)
    w = sorted(classes(D, N, sols))
    equal([tuple(x) for x in t.call(m.pell_minimal_positive_solutions, D, N)], w,
          "pell_minimal_positive_solutions(%d, %d)" % (D, N))
    if D < 12:
        equal(nagell(D, N, u, v), w, "the two references for (%d, %d)" % (D, N))
    t.outcome((D, N, len(w)))


def nagell(D, N, u, v):
    """Least positive member of every class: fundamental solutions obey Nagell's bounds on y."""
    top = math.isqrt(v * v * abs(N) // (2 * (u + (1 if N > 0 else -1)))) + 1
    cand = set()
    for y in range(top + 1):
        x = math.isqrt(max(0, N + D * y * y))
        if x * x - D * y * y != N:
            continue
        for a, b in ((x, y), (-x, y), (x, -y), (-x, -y)):
            for _ in range(3):
                if a > 0 and b > 0:
                    cand.add((a, b))
                a, b = a * u + D * b * v, a * v + b * u
    return sorted(classes(D, N, sorted(cand, key=lambda s: (s[1], s[0]))))


def large(case, t):
    """D in a family with a small unit, so that the bounds on x are huge but easily searched."""
    m = M()
    D, N, (u, v) = case
    assert u * u - D * v * v == 1
    w = nagell(D, N, u, v)
    equal([tuple(x) for x in t.call(m.pell_minimal_positive_solutions, D, N)], w,
          "pell_minimal_positive_solutions(%d, %d)" % (D, N))
    equal(tuple(t.call(m.pell_fundamental_solution, D)), (u, v), "fundamental solution for D = %d" % D)
    for L in (max(w)[0] * 2 * u, max(w)[0]) if w else (u * u,):
        full = []
        for a, b in w:
            while a <= L and b <= L:
                full.append((a, b))
                a, b = a * u + D * b * v, a * v + b * u
        got = [tuple(x) for x in t.call(m.pell_solution_generator, D, N, L)]
        equal(sorted(got), sorted(full), "pell_solution_generator(%d, %d, %d)" % (D, N, L))
    t.outcome((D, N, len(w)))


def roots(N, p):
    return [x for x in range(p) if (x * x - N) % p == 0]


def wide(case, t):
    """D = k^2 - 1 with k - 1 and k + 1 twin primes, right-hand sides so large that y^2 passes 2^53."""
    m = M()
    k, N = case
    D, u, v = k * k - 1, k, 1
    p, s = k - 1, k + 1
    # every class has a member with x at most this (Nagell), and x^2 = N modulo p and modulo s
    top = math.isqrt((u + (1 if N > 0 else -1)) * abs(N) // 2) + 1
    h = pow(p, -1, s)
    cand = set()
    for a, b in itertools.product(roots(N % p, p), roots(N % s, s)):
        for x in range((a + p * ((b - a) * h % s)) % D, top + 1, D):
            y2 = (x * x - N) // D
            y = math.isqrt(max(y2, 0))
            if y * y != y2:
                continue
            for a1, b1 in ((x, y), (-x, y), (x, -y), (-x, -y)):
                for _ in range(3):
                    if a1 > 0 and b1 > 0:
                        cand.add((a1, b1))
                    a1, b1 = a1 * u + D * b1 * v, a1 * v + b1 * u
    w = sorted(classes(D, N, sorted(cand, key=lambda c: (c[1], c[0]))))
    check(w, "no solution planted for %r", case)
    equal([tuple(x) for x in t.call(m.pell_minimal_positive_solutions, D, N)], w,
          "pell_minimal_positive_solutions(%d, %d)" % (D, N))
    t.outcome((D, N, len(w)))


def wides(q):
    for k in (1020, 10008, 65538 + 180) if q else (1020, 10008, 65538 + 180, 1000212):
        k = next(j for j in itertools.count(k) if ref.is_prime(j - 1) and ref.is_prime(j + 1))
        for s in (2**27 + 1, 2**27 + 29, 3**18):
            yield (k, 2 * (k + 1) * s * s)
            yield (k, -2 * (k - 1) * s * s)
            x = s * k // 3
            yield (k, x * x - D_(k) * (s // 3 - 5) ** 2)
            yield (k, (s + 1) ** 2)


def D_(k):
    return k * k - 1


def families(q):
    ks = [3, 10, 99, 10**6, 2**26 - 2, 2**26, 2**27 + 2, 2**52 + 2, 2**53, 2**53 + 2, 10**17, 10**17 + 2]
    for k in ks:
        D = k * k - 1
        for s in range(1, 4 if q else 12):
            yield (D, 2 * (k + 1) * s * s, (k, 1))
            yield (D, -2 * (k - 1) * s * s, (k, 1))
        for N in (1, 4, 9, 2, 3, -1, -3, -4, k + 1, -k - 1, 2 * k + 2):
            yield (D, N, (k, 1))
        for N in (k * k, -D, 4 * D + 1, D * D):
            if k < 1000:
                yield (D, N, (k, 1))
    for k in (2, 10, 100, 9999, 10**8):
        D = k * k + 1
        for s in (1, 2, 3):
            for N in (D * s * s, -D * s * s, 1 - D, 4) if k < 100 else (4, 9) if k < 10**6 else (s,):
                yield (D, N, (2 * D - 1, 2 * k))
    for k in (3, 11, 101, 2**13 + 1):
        D = k * k + 2
        for N in (-2, 4, 2 * k * k + 4, 7, -D) if k < 1000 else (-2, 4, 9):
            yield (D, N, (D - 1, k))
        D = k * k - 2
        for N in (2, 4, -D, 2 * k * k - 4) if k < 1000 else (2, 4):
            yield (D, N, (D + 1, k))


def generated(case, t):
    m = M()
    D, N, B = case
    w = [(x, y) for x, y in brute(D, N, B) if x <= B]
    got = [tuple(x) for x in t.call(m.pell_solution_generator, D, N, B)]
    check(len(got) == len(set(got)), "pell_solution_generator(%d, %d, %d) repeats %r", D, N, B, got[:6])
    equal(sorted(got), sorted(w), "pell_solution_generator(%d, %d, %d)" % case)
    t.outcome((D, N, len(w)))


def small(case, t):
    m = M()
    D, N, B = case
    w = [(x, y) for x, y in brute(D, N, B) if ref.gcd(x, y) == 1]
    if N * N >= D:
        raises(ValueError, m.pell_small, D, N, what="pell_small(%d, %d)" % (D, N))
        return
    got = [tuple(x) for x in itertools.islice(t.call(m.pell_small, D, N), len(w))]
    equal(got, w, "pell_small(%d, %d), y <= %d" % case)
    t.outcome((D, N, len(w)))


def farey(case, t):
    m = M()
    D = case
    a, b = t.call(m.farey, D, 1)
    equal((a, b), chakravala(D), "farey(%d, 1)" % D)
    t.outcome(case)


def text(case, t):
    m = M()
    D, N = case
    E = m.PellEquation(D, N)
    equal((E.D, E.N), (D, N), "fields")
    equal(repr(E), "Pell Equation x^2 - %d*y^2 = %d" % (D, N), "text")
    if N in (1, -1):
        for n in (2, 0, -2):
            raises(ValueError, E.resolvent_solution, n, what="resolvent_solution(%d)" % n)
    t.outcome(case)


def calls():
    m = M()
    return {
        "61": (m.pell_fundamental_solution, lambda: (61,)), "17": (m.pell_fundamental_solution, lambda: (17, -1)),
        "none": (m.pell_fundamental_solution, lambda: (15, -1)),
        "min": (m.pell_minimal_positive_solutions, lambda: (13, 27)),
        "min2": (m.pell_minimal_positive_solutions, lambda: (5, 4)),
        "gen": (m.pell_solution_generator, lambda: (13, 27, 10**6)),
        "class": (lambda D: m.PellEquation(D, 1).resolvent_solution(), lambda: (61,)),
    }


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    D = Domain
    lim = 20000 if q else 200000
    mins = [(d, N, lim) for d in nsq(2, 32 if q else 100 if deep else 60) for N in list(range(-40, 0)) + list(range(1, 80 if q else 300 if deep else 160))]
    mins = [c for c in mins if chakravala(c[0])[0] * abs(c[1]) < 10**10]
    mins += [(13, 108, lim), (157, 12, lim), (13, 27, lim)]
    gens = [(d, N, B) for d in nsq(2, 40 if q else 300 if deep else 90) for N in list(range(-25, 0)) + list(range(1, 50)) for B in (1, 10, 100, 3000)
            if chakravala(d)[0] * abs(N) < 10**10]
    smalls = [(d, N, 2000) for d in nsq(2, 120 if q else 1500 if deep else 400) for N in range(-12, 13) if N]
    return [
        D("fundamental solutions", lambda: nsq(2, 1500 if q else 40000 if deep else 6000), fundamental, timeout=120,
          bound="every nonsquare D in the range, n = 1 and -1"),
        D("invalid arguments", [(d, n) for d in (-3, -1, 0, 1, 4, 9, 16, 100) for n in (1, -1)] +
          [(d, n) for d in (2, 3, 13, 15) for n in (0, 2, -2, 5)], invalid),
        D("class representatives", lambda: mins, minimal, timeout=300, bound="all D, N of a window, against all y <= %d" % lim),
        D("large D", lambda: sorted(set(families(q))), large, timeout=300,
          bound="D = k^2 - 1, k^2 + 1, k^2 + 2, k^2 - 2 up to 10^34, right-hand sides on the search bound and beside it"),
        D("wide right-hand sides", lambda: list(wides(q)), wide, timeout=120,
          bound="D from twin primes, solutions planted with y past 2^26"),
        D("bounded enumeration", lambda: gens, generated, timeout=300, bound="all D, N of a window, four bounds"),
        D("small right-hand sides", lambda: smalls, small, timeout=60, bound="|N| <= 12, y <= 2000"),
        D("mediants", lambda: [d for d in nsq(2, 130) if chakravala(d)[1] < 10**5], farey, timeout=60, bound="D < 130, N = 1"),
        D("equation objects", lambda: [(d, n) for d in nsq(2, 12) for n in range(-5, 6)], text),
        call_histories("histories", calls(), depth=3),
    ]
