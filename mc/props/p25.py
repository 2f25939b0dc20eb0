"""Elementary integer arithmetic is exact over the whole integer range."""

import itertools
import math

from mc.engine import Domain, check, equal, raises
from mc.history import call_histories

PROPERTY = "P25"
ASSUMPTIONS = ["the valuation at p is only asked for |p| >= 2 and nonzero numbers",
               "lists of integers are nonempty"]


def C():
    from rosemary.number_theory import core as m
    return m


def egcd_gcd(a, b):
    a, b = abs(a), abs(b)
    while b:
        a, b = b, a % b
    return a


def pair(x, y, t):
    m = C()
    g = egcd_gcd(x, y)
    equal(t.call(m.gcd, x, y), g, "gcd(%d, %d)" % (x, y))
    a, b, d = t.call(m.ext_gcd, x, y)
    check(d == g and a * x + b * y == g, "ext_gcd(%d, %d) -> %r", x, y, (a, b, d))
    equal(t.call(m.lcm, x, y), abs(x * y) // g if g else 0, "lcm(%d, %d)" % (x, y))


def pairs(case, t):
    x, N = case
    for y in range(-N, N + 1):
        pair(x, y, t)
    t.outcome(case)


def structured(N):
    """Numbers where carries, signs and sizes change: fibonacci, powers, factorials, mersennes."""
    f = [1, 2]
    while len(f) < N:
        f.append(f[-1] + f[-2])
    s = set(f) | {2**k + e for k in (1, 5, 15, 16, 30, 31, 32, 52, 53, 60, 61, 62, 63, 64, 100, 127, 128, 200)
                  for e in (-1, 0, 1)}
    s |= {math.factorial(k) for k in (5, 10, 20, 30)} | {10**k for k in (3, 9, 18, 30)} | {0}
    return sorted(s | {-x for x in s})


def bigpairs(x, t):
    for y in structured(40):
        pair(x, y, t)
    t.outcome(x)


def lists(L, t):
    m = C()
    g = 0
    for v in L:
        g = egcd_gcd(g, v)
    l = 1
    for v in L:
        l = abs(l * v) // egcd_gcd(l, v) if v and l else 0
    for arg in (list(L), tuple(L)):
        equal(t.call(m.gcd_list, arg), g, "gcd_list(%r)" % (arg,))
        equal(t.call(m.lcm_list, arg), l, "lcm_list(%r)" % (arg,))
        equal(tuple(arg), L, "the list")
    t.outcome(L)


def modular(m, t):
    c = C()
    N = m + 3
    for a in range(0, 2 * m + 3):
        w = 1 % m
        for k in range(0, min(2 * m, 40) + 3):
            equal(t.call(c.power_mod, a, k, m), w, "power_mod(%d, %d, %d)" % (a, k, m))
            w = w * a % m
    for a in range(-2 * m, 2 * m + 3):
        if m < 2:
            raises(ValueError, c.inverse_mod, a, m, what="inverse_mod(%d, %d)" % (a, m))
        elif egcd_gcd(a, m) != 1:
            raises(ValueError, c.inverse_mod, a, m, what="inverse_mod(%d, %d)" % (a, m))
        else:
            b = t.call(c.inverse_mod, a, m)
            check(0 <= b < m and a * b % m == 1, "inverse_mod(%d, %d) -> %r", a, m, b)
    t.outcome(m)


def modular_big(case, t):
    c = C()
    a, k, m = case
    equal(t.call(c.power_mod, a, k, m), pow(a, k, m), "power_mod%r" % (case,))
    if m > 1 and egcd_gcd(a, m) == 1:
        b = t.call(c.inverse_mod, a, m)
        check(0 <= b < m and a * b % m == 1, "inverse_mod(%d, %d) -> %r", a, m, b)
    t.outcome(case)


def errors(case, t):
    c = C()
    name, args = case
    raises(ValueError, getattr(c, name), *args, what="%s%r" % (name, args))
    t.outcome(case)


def bits(case, t):
    c = C()
    for n in case:
        for s in (n, -n):
            equal(t.call(c.bit_count, s), bin(n).count("1"), "bit_count(%d)" % s)
    t.outcome(case)


def logs(b, t):
    """Every argument up to a bound, then both sides of every power."""
    c = C()
    ns = set(range(1, 600))
    p = 1
    for _ in range(70):
        ns |= {p - 1, p, p + 1, 2 * p}
        p *= b
    for n in sorted(ns):
        if n < 1:
            continue
        k = 0
        q = b
        while q <= n:
            q *= b
            k += 1
        equal(t.call(c.integer_log, b, n), k, "integer_log(%d, %d)" % (b, n))
    t.outcome(b)


def root_ok(c, t, n, m):
    r = t.call(c.integer_nth_root, n, m)
    check(isinstance(r, int) and r ** n <= m < (r + 1) ** n, "integer_nth_root(%d, %d) -> %r", n, m, r)
    if n == 2:
        r = t.call(c.integer_sqrt, m)
        check(isinstance(r, int) and r * r <= m < (r + 1) ** 2, "integer_sqrt(%d) -> %r", m, r)


def roots(case, t):
    n, lo, hi = case
    c = C()
    for m in range(lo, hi):
        root_ok(c, t, n, m)
    t.outcome(case)


def roots_around(case, t):
    """Both sides of r^n for every r near every power of two."""
    n, e, N = case
    c = C()
    for d in range(-N, N + 1):
        r = (1 << e) + d
        if r >= 1:
            for m in (r ** n - 1, r ** n, r ** n + 1, (r + 1) ** n - 1, r ** n + r):
                root_ok(c, t, n, m)
    r = (3 << e) // 2
    for m in (r ** n - 1, r ** n, (r + 1) ** n - 1):
        root_ok(c, t, n, m)
    t.outcome(case)


def legendre(a, p):
    a %= p
    if a == 0:
        return 0
    return 1 if any(x * x % p == a for x in range(1, p)) else -1


def jacobi(m, t):
    c = C()
    fac = []
    n, p = m, 3
    while n > 1:
        while n % p == 0:
            fac.append(p)
            n //= p
        p += 2
    tab = {p: [legendre(a, p) for a in range(p)] for p in set(fac)}
    for a in range(-m - 2, 2 * m + 3):
        w = 1
        for p in fac:
            w *= tab[p][a % p]
        equal(t.call(c.jacobi_symbol, a, m), w, "jacobi_symbol(%d, %d)" % (a, m))
        if a % 2 == 0:
            raises(ValueError, c.jacobi_symbol, m, a, what="jacobi_symbol(%d, %d)" % (m, a))
    t.outcome(m)


def valuations(p, t):
    c = C()
    ns = set(range(1, 400)) | {p ** k * u for k in range(1, 70) for u in (1, p - 1, p + 1, 2 * p + 1, 6)}
    for n in sorted(ns):
        if n == 0:
            continue
        k = 0
        while n % p ** (k + 1) == 0:
            k += 1
        for s in (n, -n):
            equal(t.call(c.valuation, p, s), k, "valuation(%d, %d)" % (p, s))
    t.outcome(p)


def huge():
    """Integers of hundreds to thousands of bits, whose floating-point images overflow or collide."""
    f, g = 1, 1
    for _ in range(3000):
        f, g = g, f + g
    s = {f, g, math.factorial(300), 10**400, 10**309 - 1, 3**1000, 6**700, 2**1024 - 1, 2**1023 + 2**970, 2**5003 - 1,
         (2**4096 - 1) * (2**607 - 1), 2**4096, 2**521 - 1, (10**200 + 357)**3}
    return sorted(s)


def hugepairs(x, t):
    for y in huge() + [0, 1, 2, 3, 10**18, -(2**64) - 1]:
        for s, u in itertools.product((1, -1), repeat=2):
            pair(s * x, u * y, t)
        if y > 1 and x < 10**700 and y < 10**700:
            c = C()
            equal(t.call(c.power_mod, x, y, x + 2), pow(x, y, x + 2), "power_mod")
    equal(t.call(C().bit_count, x), bin(x).count("1"), "bit_count(%d)" % x)
    equal(t.call(C().bit_count, -x), bin(x).count("1"), "bit_count(%d)" % -x)
    t.outcome(x)


def hugelogs(b, t):
    c = C()
    p, top = 1, 9000 // b.bit_length()
    for k in range(0, top):
        if k > 60 and k % 7 and k % 64 not in (0, 1, 63):
            p *= b
            continue
        for n in {p, p + 1, p * b - 1, p * b - p}:
            if p <= n < p * b:
                equal(t.call(c.integer_log, b, n), k, "integer_log(%d, %d)" % (b, n))
        for u in (1, b + 1, -b - 1, 2 * b + 1 if b > 2 else 3):
            equal(t.call(c.valuation, b, p * u), k, "valuation(%d, %d**%d*%d)" % (b, b, k, u))
        p *= b
    t.outcome(b)


def hugeroots(case, t):
    c = C()
    n, r = case
    for m in (r ** n - 1, r ** n, r ** n + 1, (r + 1) ** n - 1, r ** n + r, r ** n - r):
        root_ok(c, t, n, m)
    t.outcome(case)


def hugejacobi(case, t):
    """Primes of hundreds of bits by Euler's criterion, and their products by multiplicativity."""
    c = C()
    p, q = case
    for a in [2, 3, 5, 6, 7, 10, 30, 2**64, 2**65, 10**30 + 1, p - 1, p - 2, q - 1, p + q, p * q - 2, -1, -2, -3, -7, 0, p, q, p * q, p * 3]:
        w = []
        for r in (p, q):
            e = pow(a, (r - 1) // 2, r)
            w.append(-1 if e == r - 1 else e)
            equal(t.call(c.jacobi_symbol, a, r), w[-1], "jacobi_symbol(%d, %d)" % (a, r))
        equal(t.call(c.jacobi_symbol, a, p * q), w[0] * w[1], "jacobi_symbol(%d, %d*%d)" % (a, p, q))
        equal(t.call(c.jacobi_symbol, a, p * p * q), w[0] * w[0] * w[1], "jacobi_symbol(%d, %d^2*%d)" % (a, p, q))
    t.outcome(case)


def calls():
    c = C()
    return {"gcd": (c.gcd, lambda: (12, 18)), "gcd_list": (c.gcd_list, lambda: ([6, 4, 10],)),
            "ext": (c.ext_gcd, lambda: (12, -18)), "lcm": (c.lcm, lambda: (4, 6)),
            "lcm_list": (c.lcm_list, lambda: ([4, 6, 10],)), "pow": (c.power_mod, lambda: (3, 7, 10)),
            "inv": (c.inverse_mod, lambda: (3, 7)), "log": (c.integer_log, lambda: (3, 100)),
            "root": (c.integer_nth_root, lambda: (3, 100)), "sqrt": (c.integer_sqrt, lambda: (99,)),
            "jac": (c.jacobi_symbol, lambda: (5, 21)), "val": (c.valuation, lambda: (2, 24)),
            "inv bad": (c.inverse_mod, lambda: (2, 4))}


ERR = [("power_mod", (-1, 2, 3)), ("power_mod", (2, -1, 3)), ("power_mod", (2, 1, 0)), ("power_mod", (2, 1, -5)),
       ("inverse_mod", (3, 1)), ("inverse_mod", (3, 0)), ("inverse_mod", (3, -7)), ("inverse_mod", (0, 5)),
       ("integer_log", (1, 5)), ("integer_log", (0, 5)), ("integer_log", (-2, 5)), ("integer_log", (2, 0)),
       ("integer_log", (2, -3)), ("integer_nth_root", (0, 5)), ("integer_nth_root", (-1, 5)),
       ("integer_nth_root", (2, -1)), ("integer_nth_root", (3, -8)), ("integer_sqrt", (-1,)),
       ("integer_sqrt", (-100,)), ("jacobi_symbol", (3, 4)), ("jacobi_symbol", (3, 0))]


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    D = Domain
    N = 200 if q else 1500 if deep else 700
    S = structured(40)
    pr = [v for v in S if v > 0]
    return [
        D("pairs", lambda: ((x, N) for x in range(-N, N + 1)), pairs, bound="|x|, |y| <= %d" % N),
        D("structured pairs", lambda: S, bigpairs, bound="%d^2 pairs up to 2^200" % len(S)),
        D("lists", lambda: itertools.chain.from_iterable(
            itertools.product((-6, -4, -1, 0, 1, 2, 3, 4, 6, 9), repeat=k) for k in (1, 2, 3, 4)[:3 if q else 4]),
          lists, bound="all lists of length <= %d over 10 values" % (3 if q else 4)),
        D("modular", lambda: range(1, 80 if q else 400 if deep else 200), modular,
          bound="all moduli < %d with bases up to 2m + 2 and exponents up to 42" % (80 if q else 400 if deep else 200)),
        D("large modular", lambda: ((a, k, m) for a in pr[::3] for k in (0, 1, 2, 3, 10, 2**31, 2**64 - 1, 10**30)
                                    for m in pr[::2]), modular_big, bound="structured values up to 2^200"),
        D("errors", lambda: ERR, errors, bound="each documented error"),
        D("bits", lambda: [tuple(range(a, a + 256)) for a in range(0, 2**13 if q else 2**20 if deep else 2**17, 256)] +
          [tuple(pr)] + [tuple((1 << i) | (1 << j) for j in range(0, 130, 3)) for i in range(0, 130, 3)], bits,
          bound="all below %d, all pairs of bits below 130" % (2**13 if q else 2**20 if deep else 2**17)),
        D("logarithms", lambda: list(range(2, 60 if q else 1000 if deep else 300)) + [1000, 2**16, 2**31 - 1, 10**12, 3**50], logs,
          bound="bases < %d and five large, every n < 600 and both sides of the first 70 powers" %
                (60 if q else 1000 if deep else 300)),
        D("roots", lambda: ((n, a, a + 500) for n in range(1, 20) for a in range(0, 5000 if q else 300000 if deep else 60000, 500)),
          roots, bound="degrees 1..19, all radicands < %d" % (5000 if q else 300000 if deep else 60000)),
        D("roots near powers", lambda: ((n, e, 40 if q else 800 if deep else 200) for n in range(2, 14) for e in range(1, 66)),
          roots_around, bound="degrees 2..13, all r within %d of every power of two up to 2^65" % (
              40 if q else 800 if deep else 200)),
        D("jacobi", lambda: range(1, 160 if q else 2000 if deep else 700, 2), jacobi,
          bound="odd moduli < %d, a from -m - 2 to 2m + 2" % (160 if q else 2000 if deep else 700)),
        D("valuations", lambda: list(range(2, 30 if q else 500 if deep else 120)) + [-2, -3, -10, 2**31 - 1, 10**20], valuations,
          bound="|p| < %d, n < 400 and multiples of the first 70 powers, both signs" % (30 if q else 500 if deep else 120)),
        D("huge pairs", lambda: huge(), hugepairs, bound="pairs of %d integers of up to 5003 bits" % len(huge())),
        D("huge logarithms and valuations", lambda: [2, 3, 5, 6, 7, 10, 16, 1000, 2**31 - 1, 10**30 + 57], hugelogs, timeout=120,
          bound="powers of up to 9000 bits of ten bases, and both sides"),
        D("huge roots", lambda: [(n, r) for n in (1, 2, 3, 4, 5, 7, 10, 16, 31, 64, 100, 257) for r in
                                 (2, 3, 2**53 + 1, 2**64 - 1, 10**25, 3**80, 2**199 + 1, 10**100 + 267, 2**1024 + 1, 7**500)
                                 if n * r.bit_length() < 40000], hugeroots, timeout=120, bound="radicands of up to 40000 bits"),
        D("huge jacobi", lambda: itertools.combinations([3, 65537, 2**61 - 1, 2**89 - 1, 2**127 - 1, 2**521 - 1, 2**607 - 1,
                                                         2**1279 - 1, 10**9 + 7, 2**64 - 59], 2), hugejacobi, timeout=60),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
