"""Polynomial ring arithmetic is exact whichever algorithm is selected by size."""

import itertools
from fractions import Fraction

from mc import gen
from mc.engine import Domain, Violation, check, equal, raises
from mc.history import call_histories

PROPERTY = "P15"
ASSUMPTIONS = ["coefficients are integers or exact fractions", "exponents are non-negative integers"]


def strip(c):
    c = list(c)
    while len(c) > 1 and c[-1] == 0:
        c.pop()
    return c or [0]


def add(a, b):
    n = max(len(a), len(b))
    return strip([(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)])


def mul(a, b):
    out = [0] * (len(a) + len(b))
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                out[i + j] += x * y
    return strip(out)


def power(a, k):
    out = [1]
    for _ in range(k):
        out = mul(out, a)
    return out


def same(P, want, what):
    want = strip(want)
    equal(list(P.coefficients()), want, what)
    equal(P.degree, len(want) - 1 if want != [0] else -1, what + ": degree")
    equal(P.lead_coeff, want[-1], what + ": leading coefficient")


def pair(case, t):
    from rosemary.algebra.polynomials.polynomials import Polynomial, PolyZZ, PolyQQ
    from rosemary.algebra.polynomials import algorithms as al
    a, b = list(case[0]), list(case[1])
    for cls in (Polynomial, PolyZZ, PolyQQ):
        la, lb = list(a), list(b)
        A, B = t.call(cls, la), t.call(cls, lb)
        same(A, a, "constructor")
        same(t.call(lambda: A + B), add(a, b), "sum")
        same(t.call(lambda: A - B), add(a, [-x for x in b]), "difference")
        same(t.call(lambda: A * B), mul(a, b), "product")
        eq = strip(a) == strip(b)
        equal(t.call(lambda: A == B), eq, "equality")
        equal(t.call(lambda: A != B), not eq, "inequality")
        check(isinstance(A + B, cls) and isinstance(A * B, cls) and isinstance(-A, cls), "type of results")
        same(A, a, "left operand afterwards")
        same(B, b, "right operand afterwards")
        equal((la, lb), (a, b), "lists the polynomials were made from")
    if a and b:
        ta, tb = tuple(a), tuple(b)
        for x, y in ((list(a), list(b)), (ta, tb)):
            equal(strip(t.call(al.mul_classical, x, y)), mul(a, b), "mul_classical")
            equal(strip(t.call(al.mul_karatsuba, x, y)), mul(a, b), "mul_karatsuba")
            equal(strip(t.call(al.list_add, x, y)), add(a, b), "list_add")
            equal(strip(t.call(al.list_subtract, x, y)), add(a, [-v for v in b]), "list_subtract")
            equal((list(x), list(y)), (a, b), "operands of the list operations")
    t.outcome((tuple(mul(a, b)), tuple(add(a, b))))


def single(case, t):
    from rosemary.algebra.polynomials.polynomials import Polynomial, PolyZZ
    a = list(case)
    for cls in (Polynomial, PolyZZ):
        P = t.call(cls, tuple(a))
        same(t.call(lambda: -P), [-x for x in a], "negation")
        for c in (-2, 0, 1, 5):
            same(t.call(lambda: P + c), add(a, [c]), "P + %d" % c)
            same(t.call(lambda: c + P), add(a, [c]), "%d + P" % c)
            same(t.call(lambda: P - c), add(a, [-c]), "P - %d" % c)
            same(t.call(lambda: c - P), add([-x for x in a], [c]), "%d - P" % c)
            same(t.call(lambda: P * c), [c * x for x in a], "P * %d" % c)
            same(t.call(lambda: c * P), [c * x for x in a], "%d * P" % c)
            equal(t.call(lambda: P == c), strip(a) == [c], "P == %d" % c)
            equal(t.call(lambda: P != c), strip(a) != [c], "P != %d" % c)
        for x in (-3, -1, 0, 1, 2, Fraction(1, 2)):
            equal(t.call(P, x), sum(c * x**i for i, c in enumerate(a)), "value at %r" % x)
        for i, c in enumerate(strip(a)):
            equal(P[i], c, "coefficient %d" % i)
        cs = P.coefficients()
        cs[0] = 987
        same(P, a, "the polynomial after its coefficient list was overwritten")
        text = t.call(repr, P)
        for x in (2, -3, 10):
            equal(eval(text.replace("^", "**"), {"x": x}), sum(c * x**i for i, c in enumerate(a)),
                  "value of the printed form %r" % text)
        for k in range(0, 5):
            want = power(a, k)
            same(t.call(lambda: P**k), want, "P**%d" % k)
            same(t.call(P.power_binary, k), want, "power_binary(%d)" % k)
        same(P, a, "the polynomial after its powers")
        Q = t.call(P, P)
        want = [0]
        for c in reversed(a):
            want = add(mul(want, a), [c])
        if isinstance(Q, Polynomial):
            same(Q, want, "composition with itself")
        else:
            equal([Q], want, "composition with itself")
    t.outcome(tuple(a))


def rational(case, t):
    from rosemary.algebra.polynomials.polynomials import PolyQQ
    a = [Fraction(*x) for x in case[0]]
    b = [Fraction(*x) for x in case[1]]
    A, B = PolyQQ(a), PolyQQ(b)
    same(t.call(lambda: A + B), add(a, b), "sum")
    same(t.call(lambda: A - B), add(a, [-x for x in b]), "difference")
    same(t.call(lambda: A * B), mul(a, b), "product")
    for k in range(4):
        same(t.call(lambda: A**k), power(a, k), "A**%d" % k)
        same(t.call(A.power_binary, k), power(a, k), "power_binary")
    t.outcome((tuple(a), tuple(b)))


def fill(n, seed):
    return [((i * i * 31 + i * seed + seed * seed) % 199) - 99 or 7 for i in range(n)]


def long(case, t):
    """Operand lengths around every split of the recursive multiplication."""
    from rosemary.algebra.polynomials import algorithms as al
    from rosemary.algebra.polynomials.polynomials import PolyZZ
    m, n = case
    a, b = fill(m, 3), fill(n, 17)
    want = mul(a, b)
    x, y = list(a), list(b)
    equal(strip(t.call(al.mul_karatsuba, x, y)), want, "mul_karatsuba of lengths %d, %d" % (m, n))
    equal(strip(t.call(al.mul_classical, x, y)), want, "mul_classical of lengths %d, %d" % (m, n))
    same(t.call(lambda: PolyZZ(x) * PolyZZ(y)), want, "product of lengths %d, %d" % (m, n))
    equal((x, y), (a, b), "operands")
    t.outcome((m, n, want[0], want[-1]))


def longpow(case, t):
    from rosemary.algebra.polynomials.polynomials import PolyZZ
    a, k = list(case[0]), case[1]
    want = power(a, k)
    P = PolyZZ(a)
    same(t.call(lambda: P**k), want, "P**%d" % k)
    same(t.call(P.power_binary, k), want, "power_binary(%d)" % k)
    t.outcome((a[0], k, want[-1]))


def magnitude(case, t):
    """Long polynomials with coefficients of any size: values, ring operations, one object as both operands."""
    from rosemary.algebra.polynomials.polynomials import PolyZZ, Polynomial
    n, bits, gap = case
    a = [((x << bits) + i * (-1)**i) if i % (gap + 1) == 0 else 0 for i, x in enumerate(fill(n, 13))]
    b = [(x << (bits // 2)) - i for i, x in enumerate(fill(max(1, n // 3), 29))]
    for cls in (Polynomial, PolyZZ) if n < 60 else (PolyZZ,):
        A, B = cls(a), cls(b)
        for x in (0, 1, -1, 2, -3, 10**12 + 39, -2**70, Fraction(-2, 3)):
            equal(t.call(A, x), sum(c * x**i for i, c in enumerate(a)), "value at %r" % x)
        same(t.call(lambda: A + A), add(a, a), "P + P")
        same(t.call(lambda: A - A), [0], "P - P")
        same(t.call(lambda: A * A), mul(a, a), "P * P")
        same(t.call(lambda: A * B), mul(a, b), "P * Q")
        same(t.call(lambda: B * A), mul(a, b), "Q * P")
        same(t.call(lambda: A - B), add(a, [-x for x in b]), "P - Q")
        same(t.call(lambda: B - A), add(b, [-x for x in a]), "Q - P")
        same(t.call(lambda: A * 10**20), [x * 10**20 for x in a], "P * 10^20")
        equal(t.call(lambda: A == cls(list(a))), True, "P == P")
        equal(t.call(lambda: A == cls(a[:-1] + [a[-1] + 1])), False, "P == another")
        equal(t.call(lambda: A != cls([a[0] + 1] + a[1:])), True, "P != another")
        for k in (2, 3) if n < 100 else (2,):
            same(t.call(lambda: A**k), power(a, k), "P**%d" % k)
            same(t.call(A.power_binary, k), power(a, k), "power_binary(%d)" % k)
        equal(eval(repr(A).replace("^", "**"), {"x": 3}), sum(c * 3**i for i, c in enumerate(a)), "value of the printed form")
        same(A, a, "P afterwards"), same(B, b, "Q afterwards")
    t.outcome(case)


def highpow(case, t):
    from rosemary.algebra.polynomials.polynomials import PolyZZ, PolyQQ
    a, k = [Fraction(x) if isinstance(x, str) else x for x in case[0]], case[1]
    want = power(a, k)
    P = (PolyQQ if any(isinstance(x, Fraction) for x in a) else PolyZZ)(a)
    same(t.call(lambda: P**k), want, "P**%d" % k)
    same(t.call(P.power_binary, k), want, "power_binary(%d)" % k)
    t.outcome((case[0], k))


def misc(case, t):
    from rosemary.algebra.polynomials.polynomials import Polynomial, PolyZZ
    for cls in (Polynomial, PolyZZ):
        same(t.call(cls), [0, 1], "the default polynomial")
        same(t.call(cls, []), [0], "the polynomial of no coefficients")
        for c in (0, 4, -4):
            same(t.call(cls, c), [c], "constant polynomial")
        same(cls([1, 2], "y") + cls([0, 1], "z"), [1, 3], "sum with names")
        equal(repr(cls([1, 2, 1], "y")), "y^2 + 2*y + 1", "printed form")
        equal(cls([1, 2], "y") == cls([1, 2], "x"), True, "names and equality")
    t.outcome(case)


LEVELS = ("thorough", "deep")


def domains(tier):
    big = tier != "quick"
    deep = tier == "deep"
    V = (-2, 0, 1, 3)

    def pairs():
        small = list(gen.sequences(V, 4 if deep else 3))
        for a in small:
            for b in small:
                if len(a) + len(b) <= (7 if deep else 6 if big else 5):
                    yield (a, b)

    def singles():
        yield from gen.sequences((-3, -1, 0, 1, 2), 4, 1)
        if big:
            yield from gen.sequences((-1, 0, 1, 2), 8 if deep else 6, 5)

    F = ((1, 2), (-2, 3), (0, 1), (1, 1))

    def rats():
        for a in gen.sequences(F, 3, 1):
            for b in gen.sequences(F, 2, 1):
                yield (a, b)

    def lens():
        L = list(range(1, 6)) + list(range(26, 36)) + list(range(56, 66)) + [90, 119, 120, 121, 240, 241] + ([300, 480, 481] if big else []) + ([500, 960, 961, 1000] if deep else [])
        for m in L:
            for n in L:
                yield (m, n)
        for m in range(29, 300 if deep else 130 if big else 80):
            yield (m, m)
            yield (m, m + 1)
            yield (2 * m + 1, m)

    def pows():
        for a in gen.sequences((-2, 0, 1, 3), 3, 1):
            for k in (5, 6, 7, 12):
                yield (a, k)
        for a in ((1, 1), (2, -3, 0, 5), (0, 0, 7, 1)):
            for k in (20, 33):
                yield (a, k)

    def calls():
        from rosemary.algebra.polynomials.polynomials import PolyZZ
        from rosemary.algebra.polynomials import algorithms as al
        P = lambda: (PolyZZ([1, 2, 3]), PolyZZ([4, 0, -1]))
        L = lambda: ([1, 2, 3], [4, 0, -1, 5])
        return {
            "add": (lambda a, b: a + b, P), "sub": (lambda a, b: a - b, P), "mul": (lambda a, b: a * b, P),
            "pow": (lambda a, b: a**3, P), "binary": (lambda a, b: a.power_binary(3), P),
            "coeffs": (lambda a, b: a.coefficients(), P),
            "list_add": (al.list_add, L), "list_subtract": (al.list_subtract, L),
            "classical": (al.mul_classical, L), "karatsuba": (al.mul_karatsuba, lambda: ([1] * 40, [2] * 35)),
            "power_jcp": (al.power_jcp, lambda: ([0, 1, 2], 3)),
            "default": (PolyZZ, lambda: ()),
        }

    return [
        Domain("pairs", pairs, pair, bound="all pairs of coefficient lists of length <= %d over {-2,0,1,3}%s" % (4 if deep else 3, ", at most 7 coefficients together" if deep else "" if big else ", at most 5 coefficients together")),
        Domain("single", singles, single, bound="all coefficient lists of length 1-4 over {-3,-1,0,1,2}; powers 0..4"),
        Domain("rational", rats, rational, bound="all pairs of lists of length <= 3 and <= 2 over {1/2,-2/3,0,1}"),
        Domain("lengths", lens, long, bound="length pairs around the splits of the recursive multiplication, up to %d" % (1000 if deep else 481 if big else 241)),
        Domain("powers", pows, longpow, bound="exponents up to 33"),
        Domain("magnitudes", lambda: [(n, bits, gap) for n in ((1, 2, 3, 29, 31, 45, 64, 65, 66, 100, 121) if not big else range(1, 200, 1 if deep else 2))
                                      for bits in (0, 40, 64, 200, 1100) for gap in (0, 2)], magnitude, timeout=60,
               bound="lengths up to %d, coefficients up to 2^1108, dense and sparse, operands aliased" % (199 if big else 121)),
        Domain("high powers", lambda: [(a, k) for a in ((1, 1), (-1, 1), (0, 1, 1), (10**20, -3), (1, 2, 3), ("1/3", 2), ("-2/5", "7/3", 1),
                                                        (0, 0, "1/2", 10**30), (7,), (0, 1), (2, 0, 0, 1))
                                       for k in ((31, 32, 63, 64, 100) if not big else range(30, 200, 1 if deep else 7))], highpow, timeout=60,
               bound="eleven bases, exponents up to %d" % (100 if not big else 199)),
        Domain("construction", [0], misc, bound="default, empty, constant and named polynomials"),
        call_histories("call-histories", calls(), depth=2),
    ]
