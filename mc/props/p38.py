"""Power, square and shape classification of integers is exact, on integers and on factorizations."""

import functools
import itertools
import math

from mc import ref
from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P38"
ASSUMPTIONS = ["factorizations are lists of (prime, exponent) pairs of integers above one"]


def M():
    from rosemary.number_theory import classification as m
    return m


@functools.lru_cache(None)
def powers(N):
    """n -> maximal exponent k and root b with n = b^k, k >= 2, for n <= N."""
    out = {}
    b = 2
    while b * b <= N:
        k, v = 2, b * b
        while v <= N:
            if v not in out or out[v][1] < k:
                out[v] = (b, k)
            v *= b
            k += 1
        b += 1
    return out


def small(case, t):
    m = M()
    lo, hi, N = case
    pw = powers(N)
    fact, f = {1}, 1
    for i in range(2, 12):
        f *= i
        fact.add(f)
    for n in range(lo, hi):
        r = math.isqrt(n) if n >= 0 else 0
        issq = n >= 0 and r * r == n
        got = t.call(m.is_square, n)
        check(got is False if not issq else (got is not False and got == r), "is_square(%d) = %r", n, got)
        if n < 0:
            continue
        equal(bool(t.call(m.is_factorial, n)), n in fact, "is_factorial(%d)" % n)
        if n < 1:
            continue
        want = pw.get(n, False)
        equal(t.call(m.is_power, n), want, "is_power(%d)" % n)
        got = t.call(m.is_power2, n)
        check((got is False) == (want is False) and (got is False or (got[0] ** got[1] == n and got[1] >= 2)),
              "is_power2(%d) = %r", n, got)
        fac = ref.factor(n)
        sqf = all(e == 1 for _, e in fac)
        equal(t.call(m.is_squarefree, n), sqf, "is_squarefree(%d)" % n)
        if n > 1:
            equal(t.call(m.is_squarefree, fac), sqf, "is_squarefree(%r)" % (fac,))
            equal(t.call(m.is_power, fac), want, "is_power(%r)" % (fac,))
            got = t.call(m.is_square, fac)
            check(got is False if not issq else got == r, "is_square(%r) = %r", fac, got)
        for k in range(1, 8):
            root = next((b for b in range(1, r + 2 if k > 1 else 1) if b ** k >= n), None) if n < 400 else \
                (round(n ** (1 / k)) if k > 1 else None)
            if k == 1:
                w = (n, 1)
            else:
                w = (root, k) if root is not None and root ** k == n else False
            equal(t.call(m.is_power, n, k), w, "is_power(%d, %d)" % (n, k))
            if n > 1:
                equal(t.call(m.is_power, fac, k), w, "is_power(%r, %d)" % (fac, k))
        equal(fac, ref.factor(n), "the factorization passed")
    t.outcome(case)


def big(case, t):
    """b^k + delta: detected exactly when it is a power."""
    m = M()
    b, k = case
    n = b ** k
    base, mult = (2, 32) if b == 2**32 else powers(10**6).get(b, (b, 1))
    equal(t.call(m.is_power, n), (base, mult * k) if mult * k > 1 else False, "is_power(%d^%d)" % case)
    equal(t.call(m.is_power, n, k), (b, k), "is_power(%d^%d, %d)" % (b, k, k))
    r = math.isqrt(n)
    got = t.call(m.is_square, n)
    check(got == r if r * r == n else got is False, "is_square(%d^%d) = %r", b, k, got)
    sq = n * n
    equal(t.call(m.is_square, sq), n, "is_square(%d^%d)" % (b, 2 * k))
    for d in (-2, -1, 1, 2, 64, 45045, 64 * 45045):
        if n > 4:
            got = t.call(m.is_square, sq + d)
            if abs(d) < n:
                check(got is False, "is_square(%d^%d %+d) = %r", b, 2 * k, d, got)
            else:
                r = math.isqrt(sq + d) if sq + d >= 0 else -1
                check(got == r if r >= 0 and r * r == sq + d else got is False, "is_square(%d) = %r", sq + d, got)
    # Mihailescu: 8, 9 are the only consecutive powers
    if k > 1 and n > 9:
        for d in (-1, 1):
            equal(t.call(m.is_power, n + d), False, "is_power(%d^%d %+d)" % (b, k, d))
            equal(t.call(m.is_power, n + d, k), False if k > 1 else (n + d, 1), "is_power(%d^%d %+d, %d)" % (b, k, d, k))
    t.outcome(case)


def residues(case, t):
    """Every residue class of the table moduli, near a large square."""
    m = M()
    lo, hi = case
    base = (10**9 + 7) ** 2
    for n in range(base + lo, base + hi):
        r = math.isqrt(n)
        got = t.call(m.is_square, n)
        check(got == r if r * r == n else got is False, "is_square(%d) = %r", n, got)
    for x in range(lo, hi):
        equal(t.call(m.is_square, x * x), x, "is_square(%d^2)" % x)
    t.outcome(case)


def errors(case, t):
    m = M()
    name, args = case
    kind, v = t.attempt(getattr(m, name), *args)
    check(kind == "raised" and isinstance(v, ValueError), "%s%r: %r instead of a ValueError", name, args, v)
    t.outcome(case)


def factored(case, t):
    """All factorizations over three primes with exponents up to a bound."""
    m = M()
    fac = [(p, e) for p, e in zip((2, 3, 1000003), case) if e]
    keep = list(fac)
    g = functools.reduce(math.gcd, [e for _, e in fac], 0)      # 0: the empty factorization of one
    root = math.prod(p ** (e // g) for p, e in fac)
    equal(t.call(m.is_power, fac), (root, g) if g > 1 else False, "is_power(%r)" % (keep,))
    for k in range(1, 9):
        w = (math.prod(p ** (e // k) for p, e in fac), k) if g % k == 0 else False
        equal(t.call(m.is_power, fac, k), w, "is_power(%r, %d)" % (keep, k))
    got = t.call(m.is_square, fac)
    if g % 2 == 0:
        equal(got, math.prod(p ** (e // 2) for p, e in fac), "is_square(%r)" % (keep,))
    else:
        check(got is False, "is_square(%r) = %r", keep, got)
    equal(t.call(m.is_squarefree, fac), max(case) <= 1, "is_squarefree(%r)" % (keep,))
    equal(fac, keep, "the factorization passed")
    neg = [(-1, 1)] + fac
    check(t.call(m.is_square, neg) is False, "is_square(%r)", neg)
    if not keep:        # the form in which factored_range yields one
        equal((t.call(m.is_square, [(1, 1)]), t.call(m.is_power, [(1, 1)]), t.call(m.is_power, [(1, 1)], 2),
               t.call(m.is_squarefree, [(1, 1)])), (1, False, (1, 2), True), "square, power, squarefree of [(1, 1)]")
    t.outcome(case)


def many_primes(case, t):
    """All factorizations over six primes with exponents of a small set: the exponent gcd needs them all."""
    m = M()
    for rest in itertools.product((1, 2, 3, 4, 6), repeat=4):
        fac = list(zip((2, 3, 5, 7, 11, 13), case + rest))
        g = functools.reduce(math.gcd, [e for _, e in fac])
        w = (math.prod(p ** (e // g) for p, e in fac), g) if g > 1 else False
        equal(t.call(m.is_power, fac), w, "is_power(%r)" % (fac,))
        for k in (2, 3):
            w = (math.prod(p ** (e // k) for p, e in fac), k) if g % k == 0 else False
            equal(t.call(m.is_power, fac, k), w, "is_power(%r, %d)" % (fac, k))
        got = t.call(m.is_square, fac)
        check(got == math.prod(p ** (e // 2) for p, e in fac) if g % 2 == 0 else got is False, "is_square(%r): %r", fac, got)
        equal(t.call(m.is_squarefree, fac), set(case + rest) == {1}, "is_squarefree(%r)" % (fac,))
    t.outcome(case)


def factorials(case, t):
    m = M()
    f = math.factorial(case)
    for n in sorted({f, f - 1, f + 1, 2 * f, 3 * f, f * (case + 1), f * (case + 2), f // 2, f // max(case, 1), f * f}):
        if n < 0:
            continue
        k, g = 1, 1
        while g < n:
            k += 1
            g *= k
        equal(bool(t.call(m.is_factorial, n)), n == g, "is_factorial at %d bits, near %d!" % (n.bit_length(), case))
    t.outcome(case)


def calls():
    m = M()
    F = lambda: ([(2, 4), (5, 4)],)
    return {
        "square": (m.is_square, lambda: (144,)), "square f": (m.is_square, F), "nonsquare": (m.is_square, lambda: (145,)),
        "power": (m.is_power, lambda: (81,)), "power k": (m.is_power, lambda: (81, 2)), "power f": (m.is_power, F),
        "sqfree": (m.is_squarefree, lambda: (35,)), "sqfree f": (m.is_squarefree, F),
        "factorial": (m.is_factorial, lambda: (120,)),
    }


def domains(tier):
    q = tier == "quick"
    D = Domain
    N = 12000 if q else 100000
    facs = math.factorial
    bad = [("is_power", (17, 0)), ("is_power", (17, -1)), ("is_power", (0,)), ("is_power", (-8,)), ("is_power", (0, 3)),
           ("is_power", ([(-1, 1), (2, 2)],)), ("is_power", ([(2, 2)], 0)), ("is_squarefree", (0,)), ("is_squarefree", (-6,)),
           ("is_squarefree", ([(-1, 1), (2, 1)],))]
    E = range(0, 9 if q else 13)
    return [
        D("small integers", lambda: [(a, a + 50, N + 50) for a in range(-200, N, 50)], small, timeout=120,
          bound="-200 <= n < %d, integers and factorizations, roots up to the seventh" % N),
        D("large powers", lambda: [(b, k) for b in list(range(2, 60)) + [720, 999, 1000003, 2**31 - 1, 2**32, 10**9 + 7]
                                   for k in range(1 if b > 60 else 2, 40 if q else 70)], big, timeout=60,
          bound="bases up to 60 and six large ones, exponents up to %d, and neighbours" % (40 if q else 70)),
        D("prime exponents", lambda: [(b, k) for b in (2, 3, 5, 6, 10, 12, 1000003) for k in ref.primes_upto(200 if q else 500)] +
          [(2, 521), (2, 607), (2, 1279), (3, 541)], big, timeout=60, bound="7 bases, prime exponents up to %d" % (200 if q else 500)),
        D("factorials", lambda: range(0, 450 if q else 1000), factorials, bound="k! and neighbours, halves and multiples, k < %d" % (450 if q else 1000)),
        D("residues", lambda: [(a, a + 500) for a in range(0, 50000, 500)], residues, timeout=60,
          bound="50000 consecutive integers at 10^18 and 50000 squares"),
        D("factorizations", lambda: itertools.product(E, repeat=3), factored, bound="exponents below %d over three primes" % len(E)),
        D("six primes", lambda: itertools.product((1, 2, 3, 4, 6), repeat=2), many_primes,
          bound="all exponents of {1, 2, 3, 4, 6} over six primes", inputs_are_states=False),
        D("errors", bad, errors),
        call_histories("histories", calls(), depth=3),
    ]
