"""Polynomial division identities hold, and the gcd of integer polynomials is the gcd."""

import itertools
import math
from fractions import Fraction

from mc import gen
from mc.engine import Domain, Violation, check, equal, raises
from mc.history import call_histories
from mc.props.p15 import strip, add, mul, power, same

PROPERTY = "P16"
ASSUMPTIONS = ["divisors are not the zero polynomial", "coefficients are integers"]


def qdivmod(a, b):
    """Division over the rationals."""
    a = [Fraction(x) for x in strip(a)]
    b = [Fraction(x) for x in strip(b)]
    q = [Fraction(0)] * max(1, len(a) - len(b) + 1)
    while len(a) >= len(b) and a != [0]:
        c = a[-1] / b[-1]
        s = len(a) - len(b)
        q[s] = c
        for i, y in enumerate(b):
            a[s + i] -= c * y
        a = strip(a)
    return strip(q), a


def prim(a):
    a = strip(a)
    g = 0
    for x in a:
        g = math.gcd(g, x)
    if g == 0:
        return 0, [0]
    s = -1 if a[-1] < 0 else 1
    return g, [s * x // g for x in a]


def polygcd(a, b):
    """gcd over Z: gcd of contents times the primitive monic-normalised gcd over Q."""
    a, b = strip(a), strip(b)
    ca, cb = prim(a)[0], prim(b)[0]
    x, y = a, b
    while strip(y) != [0]:
        x, y = y, qdivmod(x, y)[1]
    x = [Fraction(v) for v in x]
    if strip(x) == [0]:
        return [0]
    l = 1
    for v in x:
        l = l * v.denominator // math.gcd(l, v.denominator)
    p = prim([int(v * l) for v in x])[1]
    d = math.gcd(ca, cb)
    return [d * v for v in p]


def division(case, t):
    from rosemary.algebra.polynomials.polynomials import PolyZZ
    a, b = list(case[0]), list(case[1])
    A, B = PolyZZ(a), PolyZZ(b)
    sa, sb = strip(a), strip(b)
    m, n = len(sa) - 1, len(sb) - 1
    q, r = t.call(A.pseudo_quo_rem, B)
    q, r = strip(q.coefficients()), strip(r.coefficients())
    if m >= n:
        l = sb[-1] ** (m - n + 1)
        equal(add(mul(q, sb), r), strip([l * x for x in sa]), "pseudo division identity for %r by %r" % (a, b))
        check(len(r) - 1 < n or r == [0], "pseudo remainder %r of %r by %r", r, a, b)
    else:
        equal((q, r), ([0], sa), "pseudo division by a longer polynomial")
    same(A, a, "dividend"), same(B, b, "divisor")
    Q, R = qdivmod(sa, sb)
    exact = R == [0] and all(x.denominator == 1 for x in Q)
    try:
        q, r = t.call(A.quo_rem, B)
    except ValueError:
        check(m >= n and sa[-1] % sb[-1] != 0, "division of %r by %r refused", a, b)
        t.outcome("refused")
        return
    q, r = strip(q.coefficients()), strip(r.coefficients())
    equal(add(mul(q, sb), r), sa, "division identity for %r by %r" % (a, b))
    if m < n:
        equal((q, r), ([0], sa), "division by a longer polynomial")
    elif abs(sb[-1]) == 1:
        check(len(r) - 1 < n or r == [0], "remainder %r of %r by %r", r, a, b)
    if exact:
        equal((q, r), ([int(x) for x in Q], [0]), "exact division of %r by %r" % (a, b))
    same(A, a, "dividend"), same(B, b, "divisor")
    t.outcome((tuple(q), tuple(r)))


def constants(case, t):
    """Division by a plain number."""
    from rosemary.algebra.polynomials.polynomials import PolyZZ
    a, c = list(case[0]), case[1]
    A = PolyZZ(a)
    q, r = t.call(A.pseudo_quo_rem, c)
    m = len(strip(a)) - 1
    equal((strip(q.coefficients()), strip(r.coefficients())),
          (strip([x * c**m for x in a]), [0]), "pseudo division of %r by %d" % (a, c))
    if all(x % c == 0 for x in a):
        q, r = t.call(A.quo_rem, c)
        equal((strip(q.coefficients()), strip(r.coefficients())), (strip([x // c for x in a]), [0]),
              "division of %r by %d" % (a, c))
    t.outcome(tuple(q.coefficients()))


def gcds(case, t):
    from rosemary.algebra.polynomials.polynomials import PolyZZ
    a, b = list(case[0]), list(case[1])
    if len(case) == 3:
        c = list(case[2])
        a, b = mul(a, c), mul(b, c)
    A, B = PolyZZ(a), PolyZZ(b)
    g = t.call(A.gcd, B)
    cs = strip(g.coefficients())
    check(all(isinstance(x, int) for x in cs), "gcd with coefficients %r", cs)
    want = polygcd(a, b)
    if cs != want and [-x for x in cs] != want:
        raise Violation("gcd of %r and %r: got %r, expected %r" % (a, b, cs, want))
    same(A, a, "first operand"), same(B, b, "second operand")
    ca, pa = prim(a)
    equal(t.call(A.content), ca, "content of %r" % a)
    same(t.call(A.primitive_part), pa, "primitive part of %r" % a)
    t.outcome(tuple(want))


def shape(n, seed, scale=1):
    return [((i * i * 17 + i * seed + seed) % 23 - 11) * scale or 5 for i in range(n)]


def gapped(gaps, lead, scale):
    """Two polynomials whose remainder sequence drops by the given gaps, up to multiples."""
    r, s = shape(4, 3, scale), shape(2, 7)
    for i, g in enumerate(gaps):
        q = [i - 1] + [0] * (g - 1) + [lead]
        r, s = add(mul(r, q), s), r
    return r, s


def divisions(big):
    for m in range(1, 30 if big else 22):
        for n in range(1, 8 if big else 6):
            for lead in (2, -3, 10**20, 1, -1):
                for scale in (1, 10**45):
                    yield (tuple(shape(m, 5, scale)), tuple(shape(n - 1, 4) + [lead]))
                    yield (tuple(mul(shape(m, 9, scale), shape(n - 1, 4) + [lead])), tuple(shape(n - 1, 4) + [lead]))


def long_gcds(big):
    for gaps in itertools.product((1, 2, 3, 4), repeat=3):
        for lead in (2, -3) if not big else (1, 2, -3, 5):
            for scale in (1, 10**30):
                a, b = gapped(gaps, lead, scale)
                yield (tuple(a), tuple(b), (1,))
                yield (tuple(a), tuple(b), (3, -2, 6))
    for gaps in itertools.product((1, 3, 5), repeat=4) if big else ((3, 3, 3, 3), (1, 3, 1, 3), (2, 5, 2, 1), (6, 1, 4, 2)):
        a, b = gapped(gaps, 3, 1)
        yield (tuple(a), tuple(b), (1,))
        yield (tuple(b), tuple(a), (2, 0, 10**25))
    for d in (12, 16) if not big else (12, 16, 20, 24):
        for k in (1, 2, 3):
            yield (tuple(shape(d, k, 10**20)), tuple(shape(d - 1, k + 5, 10**9)), (4, 6 * 10**15, 10))
            yield (tuple(shape(d, k)), tuple(shape(d - 3, k + 5)), (1,))


LEVELS = ("thorough", "deep")


def domains(tier):
    big = tier != "quick"
    deep = tier == "deep"

    def divs():
        for a in gen.sequences((-2, 0, 1, 3), 5 if deep else 4, 1):
            for b in gen.sequences((-2, 0, 1, 3), 3, 1):
                if any(b):
                    yield (a, b)
        for a in gen.sequences((-1, 0, 2), 5, 5):
            for b in gen.sequences((-1, 1, 2), 3, 1):
                yield (a, b)
        # exact products
        for x in gen.sequences((-3, 0, 2), 3, 1):
            for y in gen.sequences((-2, 1, 5), 3, 1):
                yield (tuple(mul(x, y)), y)

    def gs():
        V = (-2, 0, 1, 3)
        for a in gen.sequences(V, 4 if deep else 3, 1):
            for b in gen.sequences(V, 4 if deep else 3, 1):
                yield (a, b)
        W = (-2, 0, 1) if not big else (-2, 0, 1, 3)
        for a in gen.sequences(W, 4, 4):
            for b in gen.sequences(W, 4, 2):
                yield (a, b)
                yield (b, a)
        # a planted common factor
        for c in gen.sequences((-3, 1, 2), 3, 1):
            for a in gen.sequences((-1, 1, 4), 3, 2):
                for b in gen.sequences((-2, 3), 3, 2):
                    yield (a, b, c)
        # remainder sequences in which the degree drops by several at once, more than once
        for c in ((1,), (3, 2), (0, 0, 0, 5)):
            for a in gen.sequences((0, 2, 3), 3, 3):
                for b in gen.sequences((-3, 0, 2), 3, 3):
                    for j, k in ((2, 3), (3, 2), (4, 1), (3, 3), (1, 5)) if deep else ((2, 3), (3, 2), (4, 1)) if big else ((2, 3),):
                        # u = v * (x^j + ...) + sparse, v = r * (2x^k + ...) + sparse
                        r = mul(strip(a), [0, 0, 3]) if any(a) else [5, 0, 2]
                        v = add(mul(r, [1] + [0] * (k - 1) + [2]), strip(b))
                        u = add(mul(v, [-1] + [0] * (j - 1) + [3]), r)
                        yield (tuple(u), tuple(v), c)
        # Knuth's example and other long remainder sequences
        yield ((-5, 2, 8, -3, -3, 0, 1, 0, 1), (21, -9, -4, 0, 5, 0, 3))
        for d in range(2, 13 if deep else 10 if big else 8):
            for k in range(1, 9):
                a = tuple(((i * k + 3) % 11) - 5 for i in range(d)) + (k,)
                b = tuple(((i * i + k) % 7) - 3 for i in range(d - 1)) + (2,)
                for c in ((1,), (2, 3), (-1, 0, 4), (6, -5, 1, 2)):
                    yield (a, b, c)
                    yield (b, a, c)

    def calls():
        from rosemary.algebra.polynomials.polynomials import PolyZZ
        P = lambda: (PolyZZ([-1, 0, 0, 1]), PolyZZ([2, -3, 1]))
        return {
            "pseudo": (lambda a, b: a.pseudo_quo_rem(b), P), "quo_rem": (lambda a, b: a.quo_rem(b), P),
            "gcd": (lambda a, b: a.gcd(b), P), "rgcd": (lambda a, b: b.gcd(a), P),
            "content": (lambda a, b: b.content(), P), "prim": (lambda a, b: b.primitive_part(), P),
            "quo_rem self": (lambda a, b: a.quo_rem(a), P),
            "pseudo short": (lambda a, b: b.pseudo_quo_rem(a), P),
        }

    return [
        Domain("division", divs, division,
               bound="all dividends of <= %d coefficients by divisors of <= 3 over {-2,0,1,3}; degree-4 dividends over {-1,0,2}; exact products" % (5 if deep else 4)),
        Domain("long divisions", lambda: divisions(big), division, timeout=60,
               bound="dividends of up to %d coefficients up to 10^46 by divisors of up to %d, five leading coefficients; exact products" % ((29, 7) if big else (21, 5))),
        Domain("long remainder sequences", lambda: long_gcds(big), gcds, timeout=60,
               bound="all triples of degree gaps 1..4 and %s quadruples, planted factors, coefficients beyond 10^30" % ("81" if big else "four")),
        Domain("constants", [(a, c) for a in gen.sequences((-6, 0, 4, 5), 3, 1) for c in (-2, -1, 1, 3)], constants,
               bound="all lists of <= 3 coefficients over {-6,0,4,5} by four constants"),
        Domain("gcd", gs, gcds,
               bound="all pairs of <= %d coefficients over {-2,0,1,3}, pairs of cubics, planted common factors, long remainder sequences" % (4 if deep else 3)),
        call_histories("call-histories", calls(), depth=2),
    ]
