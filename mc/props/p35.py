"""Solving congruences yields exactly the residues that satisfy them."""

import itertools
import math

from mc import choice, ref
from mc.engine import Domain, check, equal, raises
from mc.history import call_histories

PROPERTY = "P35"
ASSUMPTIONS = ["square roots modulo p are asked for primes p", "quadratics have a nonzero leading coefficient and a modulus of at least 2"]


def M():
    from rosemary.number_theory import zn_arithmetic as m
    return m


def squares(n):
    out = [[] for _ in range(n)]
    for x in range(n):
        out[x * x % n].append(x)
    return out


def sqrt_p(case, t):
    m = M()
    p, depth = case
    S = squares(p)
    for a in range(p):
        for b in ((a, a - p, a + 3 * p) if p < 100 else (a,)):
            def body(script):
                equal(list(t.call(m.sqrts_mod_p, b, p)), S[a], "sqrts_mod_p(%d, %d), draws %r" % (b, p, script))
            choice.explore(body, depth, 6, tracker=t)
    t.outcome(case)


def sqrt_p_big(case, t):
    m = M()
    p = case
    for x in (1, 2, 3, p // 2, p - 5, 12345 % p, 2**16 % p):
        a = x * x % p

        def body(script):
            equal(list(t.call(m.sqrts_mod_p, a, p)), sorted({x, (p - x) % p}), "sqrts_mod_p(%d, %d), draws %r" % (a, p, script))
        choice.explore(body, 2, 5, tracker=t)
    for a in range(2, 40):
        w = pow(a, (p - 1) // 2, p) != p - 1
        equal(bool(t.call(m.sqrts_mod_p, a, p)), w, "sqrts_mod_p(%d, %d) is nonempty" % (a, p))
    t.outcome(case)


def sqrt_n(case, t):
    m = M()
    for n in range(*case):
        S = squares(n)
        fac = ref.factor(n)
        for a in range(n):
            for b in ((a, a - n, a + 2 * n) if n < 80 else (a,)):
                equal(list(t.call(m.sqrts_mod_n, b, n)), S[a], "sqrts_mod_n(%d, %d)" % (b, n))
            equal(list(t.call(m.sqrts_mod_n, a, n, fac)), S[a], "sqrts_mod_n(%d, %d, %r)" % (a, n, fac))
        equal(fac, ref.factor(n), "the factorization passed")
    t.outcome(case)


def sqrt_n_some(case, t):
    """A larger modulus, every residue that the reference marks, and their neighbours."""
    m = M()
    n, alist = case
    S = {}
    for x in range(n):
        S.setdefault(x * x % n, []).append(x)
    for a in alist or range(n):
        equal(list(t.call(m.sqrts_mod_n, a, n)), S.get(a % n, []), "sqrts_mod_n(%d, %d)" % (a, n))
    t.outcome(case)


def lift(case, t):
    m = M()
    p, k = case
    n, N = p ** k, p ** (k + 1)
    for a in range(N):
        for r in range(n):
            if (r * r - a) % n == 0:
                w = [r + j * n for j in range(p) if ((r + j * n) ** 2 - a) % N == 0]
                equal(list(t.call(m._quadratic_lift, a, r, p, k)), w, "_quadratic_lift(%d, %d, %d, %d)" % (a, r, p, k))
            elif a < 2 * n:
                raises(ValueError, m._quadratic_lift, a, r, p, k, what="_quadratic_lift(%d, %d, %d, %d)" % (a, r, p, k))
    t.outcome(case)


def linear(case, t):
    m = M()
    n = case
    for a in range(-n, 2 * n):
        sol = {}
        for x in range(n):
            sol.setdefault(a * x % n, []).append(x)
        for b in range(-n, 2 * n):
            equal(list(t.call(m.linear_congruence, a, b, n)), sol.get(b % n, []), "linear_congruence(%d, %d, %d)" % (a, b, n))
    t.outcome(case)


def prime_power(case, t):
    """Squares modulo a large prime power: all roots from their closed form."""
    m = M()
    p, k = case
    n = p ** k
    for j in range(0, k // 2 + 1):
        if p ** j > 300:
            break
        for z in (1, 3, 5, 7, 12345, 99991, n // 3, n - 5):
            if z % p == 0:
                continue
            u, e = z * z, k - 2 * j
            a = u * p ** (2 * j) % n
            if e <= 0:
                if p ** (k // 2) > 300:
                    continue
                w = {y % n for y in range(0, n, p ** ((k + 1) // 2))} if p ** (k // 2) <= 300 else None
            else:
                q = p ** e
                if p > 2:
                    zs = {z % q, -z % q}
                elif e == 1:
                    zs = {1}
                elif e == 2:
                    zs = {1, 3}
                else:
                    zs = {z % q, -z % q, (z + q // 2) % q, (q // 2 - z) % q}
                w = {(y + i * q) * p ** j % n for y in zs for i in range(p ** j)}
            for y in w:
                equal((y * y - a) % n, 0, "reference")
            equal(list(t.call(m.sqrts_mod_n, a, n, [(p, k)])), sorted(w), "sqrts_mod_n(%d, %d**%d)" % (a, p, k))
            if n < 10**15:
                equal(list(t.call(m.sqrts_mod_n, a - n, n)), sorted(w), "sqrts_mod_n(%d, %d**%d)" % (a - n, p, k))
    t.outcome(case)


def composite(case, t):
    """Large squarefree moduli with three prime factors: all roots by combining the signs."""
    m = M()
    fac = [(p, 1) for p in sorted(case)]
    n = math.prod(case)
    for z in (1, 2, 3, 1000, 123456789, n // 2, n - 7):
        w = {0}
        M0 = 1
        for p in case:
            w = {x + M0 * ((s * z - x) * pow(M0, -1, p) % p) for x in w for s in (1, -1)}
            M0 *= p
        for y in w:
            check((y * y - z * z) % n == 0 and 0 <= y < n, "reference")
        a = z * z % n
        equal(list(t.call(m.sqrts_mod_n, a, n, fac)), sorted(w), "sqrts_mod_n(%d, %d, %r)" % (a, n, fac))
        equal(list(t.call(m.sqrts_mod_n, a, n)), sorted(w), "sqrts_mod_n(%d, %d)" % (a, n))
        for c in (1, 5, -3):
            for s in (0, 1, 11):        # c*((x + s)^2 - z^2)
                co = [c, 2 * c * s, c * (s * s - z * z)]
                if all(c % p for p in case):
                    v = sorted((x - s) % n for x in w)
                    equal(list(t.call(m.quadratic_congruence, co, n, fac)), v, "quadratic_congruence(%r, %d)" % (co, n))
    t.outcome(case)


def linear_big(case, t):
    m = M()
    d, n = case
    n *= d
    if n < 2:
        return
    for u in (1, 2, -1, 7, 10**12 + 39, n // 3, -n - 1):
        a = u * d
        g = math.gcd(a, n)
        if g > 3000:
            continue
        for b in (0, 1, g, -g, 3 * g, 5 * g + 1, g * (n // (2 * g) + 1), -7 * n + 2 * g):
            if b % g:
                w = []
            else:
                q = n // g
                x = (b // g) * pow(a // g, -1, q) % q if q > 1 else 0
                w = [x + i * q for i in range(g)]
            equal(list(t.call(m.linear_congruence, a, b, n)), w, "linear_congruence(%d, %d, %d)" % (a, b, n))
    t.outcome(case)


def bad_modulus(case, t):
    m = M()
    name, args = case
    raises(ValueError, getattr(m, name), *args, what="%s%r" % (name, args))
    t.outcome(case)


def quadratic(case, t):
    m = M()
    n, aa, span = case
    fac = ref.factor(n)
    for a in aa:
        if a == 0:
            continue
        for b in span:
            vals = {}
            for x in range(n):
                vals.setdefault((-(a * x * x + b * x)) % n, []).append(x)
            for c in span:
                w = vals.get(c % n, [])
                co = [a, b, c]
                equal(list(t.call(m.quadratic_congruence, co, n)), w, "quadratic_congruence(%r, %d)" % (co, n))
                equal(co, [a, b, c], "the coefficients")
                if (b + c) % 3 == 0:
                    equal(list(t.call(m.quadratic_congruence, tuple(co), n, fac)), w,
                          "quadratic_congruence(%r, %d, %r)" % (co, n, fac))
    t.outcome(case)


def calls():
    m = M()
    return {
        "p": (m.sqrts_mod_p, lambda: (10, 13)), "p 17": (m.sqrts_mod_p, lambda: (2, 17)),
        "p none": (m.sqrts_mod_p, lambda: (2, 13)),
        "n": (m.sqrts_mod_n, lambda: (49, 720)), "n f": (m.sqrts_mod_n, lambda: (49, 45, [(3, 2), (5, 1)])),
        "lift": (m._quadratic_lift, lambda: (0, 0, 7, 1)),
        "linear": (m.linear_congruence, lambda: (10, 6, 12)), "linear none": (m.linear_congruence, lambda: (10, 3, 12)),
        "q": (m.quadratic_congruence, lambda: ([1, 3, -18], 1000)),
        "q2": (m.quadratic_congruence, lambda: ([11, 5, 18], 29)),
        "q3": (m.quadratic_congruence, lambda: ([7, -17, -2], 128, [(2, 7)])),
    }


def domains(tier):
    q = tier == "quick"
    D = Domain
    P = ref.primes_upto(2000)
    sp = [(p, 2) for p in P if p < (130 if q else 400)] + [(p, 1) for p in P if 400 < p < (700 if q else 1500)]
    bigp = [65537, 2**31 - 1, 40961, 786433, 10**9 + 7, 998244353, 2**61 - 1, 104857601, 257, 7681] + \
        ref.segment(10**6, 10**6 + 150)
    # every residue class modulo 8, beyond machine words
    bigp += [10**18 + 3, 10**18 + 9, 2**64 + 13, 10**20 + 39, 2**63 + 29, 2**89 - 1, 10**30 + 57, 10**40 + 121, 10**50 + 151,
             2**200 + 235]
    # p - 1 divisible by a high power of two
    bigp += [3 * 2**30 + 1, 2**64 - 2**32 + 1, 5 * 2**39 + 1, 29 * 2**57 + 1, 5 * 2**55 + 1, 3 * 2**66 + 1, 3 * 2**189 + 1]
    some = [(2**k, None) for k in range(8, 11 if q else 13)] + [(3**k, None) for k in (5, 6, 7)] + \
        [(5**4, None), (7**3, None), (11**3, None), (720, None), (1260, None), (2310, None), (2**4 * 3**3 * 5, None)] + \
        [(n, tuple(range(-20, 200))) for n in (2**14, 3**9, 30030, 45045, 27720, 2**7 * 81, 5**5 * 4)]
    N = 34 if q else 60
    quad = [(n, range(-n - 1, n + 2) if n <= 8 else range(-6, 13), range(-n, n + 1) if n <= 9 else range(-5, 8))
            for n in range(2, N)]
    quad += [(n, (1, 2, 3, 4, 6, 8, -1, -2, 12, n, n // 2, n - 1), range(-3, 6)) for n in (64, 72, 81, 96, 100, 108, 125, 128, 144, 243)]
    bad = [("sqrts_mod_p", (10, 1)), ("sqrts_mod_p", (10, 0)), ("sqrts_mod_p", (1, -3)), ("linear_congruence", (10, 3, 0)),
           ("linear_congruence", (10, 3, 1)), ("linear_congruence", (1, 1, -5)), ("_quadratic_lift", (2, 18, 101, 0)),
           ("_quadratic_lift", (1, 18, 1, 2))]
    return [
        D("roots modulo primes", lambda: sp, sqrt_p, timeout=300, bound="every residue; 6 values for each of the first 2 draws"),
        D("roots modulo large primes", lambda: bigp, sqrt_p_big, timeout=120, bound="%d primes, 5 x 5 draws" % len(bigp)),
        D("roots modulo n", lambda: [(n, n + 1) for n in range(1, 330 if q else 800)], sqrt_n, timeout=300,
          bound="every residue of every modulus"),
        D("roots modulo prime powers and smooth moduli", lambda: some, sqrt_n_some, timeout=300, bound="%d moduli" % len(some)),
        D("lifting", lambda: [(p, k) for p in (2, 3, 5, 7) for k in range(1, 8) if p ** (2 * k + 1) < (10**5 if q else 3 * 10**6)],
          lift, timeout=300, bound="every residue and root"),
        D("linear congruences", lambda: range(2, 40 if q else 90), linear, timeout=120, bound="all a, b in [-n, 2n)"),
        D("large prime powers", lambda: [(2, k) for k in range(1, 70 if q else 200)] + [(p, k) for p in (3, 5, 7, 11, 101, 257, 65537, 10**9 + 7)
                                          for k in range(2, 12 if q else 40)], prime_power, timeout=120,
          bound="eight roots of every even valuation with at most 300 lifts"),
        D("large composite moduli", lambda: [c for c in itertools.combinations((5, 17, 97, 257, 65537, 1000003, 998244353, 2**31 - 1), 3)
                                              if math.prod(c) < (10**20 if q else 10**40)], composite, timeout=120),
        D("large linear congruences", lambda: [(d, n) for d in (1, 2, 3, 99, 100, 101, 128, 360, 1000) for n in
                                               (1, 2, 10**9 + 7, 2**53 - 1, 2**53 + 1, 10**18 + 9, 2**61 - 1, 10**30 + 57, 6**30)],
          linear_big, timeout=60),
        D("invalid moduli", bad, bad_modulus),
        D("quadratic congruences", lambda: quad, quadratic, timeout=300,
          bound="moduli below %d and ten larger ones, all coefficients of a window" % N),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
