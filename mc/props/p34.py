"""Primitive roots, orders, roots of unity and discrete logarithms agree with the powers themselves."""

import itertools

from mc import choice, ref
from mc.engine import Domain, check, equal, raises
from mc.history import call_histories

PROPERTY = "P34"
ASSUMPTIONS = ["discrete logarithms, roots of unity and Fibonacci primitive roots are asked modulo primes"]


def M():
    from rosemary.number_theory import zn_arithmetic as m
    return m


def order(a, n):
    """Least k > 0 with a^k = 1 mod n, or None."""
    one = 1 % n
    x, k = a % n, 1
    while x != one:
        if k > n:
            return None
        x = x * a % n
        k += 1
    return k


def phi(n):
    out = n
    for p, _ in ref.factor(n):
        out -= out // p
    return out


def roots(case, t):
    m = M()
    for n in range(*case):
        f = phi(n)
        fd = [p for p, _ in ref.factor(f)]
        orders = {a: order(a, n) for a in range(n) if ref.gcd(a, n) == 1}
        gens = [a for a in range(1, n) if orders.get(a) == f]
        for a in range(0, n):
            want = a in orders and orders[a] == f
            for b in (a, a - n, a + n) if n < 120 else (a,):
                equal(bool(t.call(m.is_primitive_root, b, n)), want, "is_primitive_root(%d, %d)" % (b, n))
            equal(bool(t.call(m.is_primitive_root, a, n, f, fd)), want, "is_primitive_root(%d, %d, %d, %r)" % (a, n, f, fd))
            equal(bool(t.call(m.is_primitive_root, a, n, phi=f)), want, "is_primitive_root(%d, %d, phi)" % (a, n))
            equal(bool(t.call(m.is_primitive_root, a, n, phi_divisors=fd)), want, "is_primitive_root(%d, %d, phi_divisors)" % (a, n))
            if a in orders:
                equal(t.call(m.multiplicative_order, a, n), orders[a], "multiplicative_order(%d, %d)" % (a, n))
                equal(t.call(m.multiplicative_order, a + n, n), orders[a], "multiplicative_order(%d, %d)" % (a + n, n))
                equal(t.call(m.multiplicative_order, a, n, f), orders[a], "multiplicative_order(%d, %d, phi)" % (a, n))
                equal(t.call(m.multiplicative_order, a, n, f, ref.divisors(f)), orders[a],
                      "multiplicative_order(%d, %d, phi, divisors)" % (a, n))
            else:
                raises(ValueError, m.multiplicative_order, a, n, what="multiplicative_order(%d, %d)" % (a, n))
        for kw in ({}, dict(n_factorization=ref.factor(n)), dict(phi=f), dict(phi=f, phi_divisors=fd)):
            if gens:
                equal(t.call(m.primitive_root, n, **kw), gens[0], "primitive_root(%d, %r)" % (n, kw))
            else:
                raises(ValueError, m.primitive_root, n, what="primitive_root(%d, %r)" % (n, kw), **kw)
    t.outcome(case)


def modulus_one(case, t):
    m = M()
    equal(t.call(m.multiplicative_order, case, 1), 1, "multiplicative_order(%d, 1)" % case)
    for n in (1, 0, -2):
        raises(ValueError, m.is_primitive_root, case, n, what="is_primitive_root(%d, %d)" % (case, n))
    t.outcome(case)


def big_roots(case, t):
    m = M()
    p = case
    f = ref.factor(p - 1)
    g = t.call(m.primitive_root, p)
    for h in range(1, g + 1):
        gen = all(pow(h, (p - 1) // q, p) != 1 for q, _ in f)
        check(gen == (h == g), "primitive_root(%d) = %d but %d is %sa generator", p, g, h, "" if gen else "not ")
        k = t.call(m.multiplicative_order, h, p)
        check(pow(h, k, p) == 1 and (p - 1) % k == 0 and
              all(pow(h, k // q, p) != 1 for q, _ in ref.factor(k)), "multiplicative_order(%d, %d) = %r", h, p, k)
    t.outcome(case)


def ord_by_factors(a, n, f, fac):
    k = f
    for q, e in fac:
        for _ in range(e):
            if pow(a, k // q, n) != 1:
                break
            k //= q
    return k


def composite(case, t):
    """Moduli p^k and 2 p^k, and some without primitive roots, beyond enumeration of their residues."""
    m = M()
    n = case
    f = phi(n)
    fac = ref.factor(f)
    has = [a for a in range(1, 61) if ref.gcd(a, n) == 1]
    cyclic = n % 4 != 0 and len([1 for p, _ in ref.factor(n) if p > 2]) == 1
    first = None
    for a in has + [n - x for x in has[:12]]:
        k = ord_by_factors(a, n, f, fac)
        equal(t.call(m.multiplicative_order, a, n), k, "multiplicative_order(%d, %d)" % (a, n))
        equal(bool(t.call(m.is_primitive_root, a, n)), k == f, "is_primitive_root(%d, %d)" % (a, n))
        if first is None and k == f:
            first = a
    if cyclic:
        check(first is not None, "no generator among the candidates for %d", n)
        equal(t.call(m.primitive_root, n), first, "primitive_root(%d)" % n)
    else:
        raises(ValueError, m.primitive_root, n, what="primitive_root(%d)" % n)
    t.outcome((n, first))


def every_order(case, t):
    """A prime whose p - 1 has many divisors: an element of each of them as order."""
    m = M()
    p, part = case
    fac = ref.factor(p - 1)
    g = next(a for a in range(2, p) if all(pow(a, (p - 1) // q, p) != 1 for q, _ in fac))
    equal(t.call(m.primitive_root, p), g, "primitive_root(%d)" % p)
    for d in ref.divisors(p - 1)[part[0]::part[1]]:
        a = pow(g, (p - 1) // d, p)
        equal(t.call(m.multiplicative_order, a, p), d, "multiplicative_order(%d, %d)" % (a, p))
        equal(bool(t.call(m.is_primitive_root, a, p)), d == p - 1, "is_primitive_root(%d, %d)" % (a, p))
    t.outcome(case)


def huge(case, t):
    """Moduli beyond machine words whose totient splits into small primes: n, a prime p and the sign tell n from p."""
    m = M()
    n, p, part = case
    f, fac = n - n // p if n % 2 or n == 2 else n // 2 - n // 2 // p, {}
    rest = f
    for q in range(2, 10**5):
        while rest % q == 0:
            fac[q] = fac.get(q, 0) + 1
            rest //= q
    if rest > 1:
        fac[rest] = 1
    known = [(2, 1)] * (n % 2 == 0 and n > 2) + [(p, next(k for k in itertools.count(1) if n // (1 if n % 2 else 2) == p ** k))]
    gen = lambda a: ref.gcd(a, n) == 1 and all(pow(a, f // q, n) != 1 for q in fac)
    g = next(a for a in range(1, n) if gen(a))
    if part == "roots":
        equal(t.call(m.primitive_root, n), g, "primitive_root(%d)" % n)
        equal(t.call(m.primitive_root, n, n_factorization=known), g, "primitive_root(%d, %r)" % (n, known))
        equal(t.call(m.primitive_root, n, known, f, sorted(fac)), g, "primitive_root(%d) with its totient" % n)
        tried = set(range(2, 14)) | {n - a for a in range(1, 6)} | {pow(g, q, n) for q in fac} | {pow(g, f - 1, n), g}
        for a in sorted(tried):
            equal(bool(t.call(m.is_primitive_root, a, n)), gen(a), "is_primitive_root(%d, %d)" % (a, n))
            equal(bool(t.call(m.is_primitive_root, a, n, f, sorted(fac))), gen(a), "is_primitive_root(%d, %d) with its totient" % (a, n))
    elif part == "orders":
        some = sorted({d for q, e in fac.items() for k in range(e + 1) for d in (q ** k, f // q ** k)})
        divs = [1]
        for q, e in fac.items():
            divs = [d * q ** k for d in divs for k in range(e + 1)]
        for d in some[::max(1, len(some) // 24)] + [f]:
            a = pow(g, f // d, n)
            equal(t.call(m.multiplicative_order, a, n), d, "multiplicative_order(%d, %d)" % (a, n))
            equal(t.call(m.multiplicative_order, a + n, n, f, sorted(divs)), d, "multiplicative_order(%d, %d) with its totient" % (a, n))
    elif part == "unity":
        for e in sorted({1, 2, 3, 4, 5, 6, 12, 64, 100, 7 ** 30, 2 ** 60 + 1, f + 1, f - 1} | {3 * f + q for q in fac if q < 300}):
            d = ref.gcd(e, f)
            if d > 300:
                continue
            w = pow(g, f // d, n)
            one = sorted(pow(w, i, n) for i in range(d))
            r = pow(g, f // d // 2, n)
            neg = sorted(r * x % n for x in one) if f // d % 2 == 0 else []
            for extra in ((), (g,)):
                equal(list(t.call(m.nth_roots_of_unity_mod_p, e, n, *extra)), one, "nth_roots_of_unity_mod_p(%d, %d)" % (e, n))
                equal(list(t.call(m.nth_roots_of_minus1_mod_p, e, n, *extra)), neg, "nth_roots_of_minus1_mod_p(%d, %d)" % (e, n))
    else:
        got = list(t.call(m.fibonacci_primitive_roots, n))
        check(got == sorted(set(got)) and all(0 <= x < n and (x * x - x - 1) % n == 0 and gen(x) for x in got),
              "fibonacci_primitive_roots(%d) = %r", n, got)
        # Both roots of x^2 = x + 1, from a root of unity of order 5: z + 1/z is one less than such a root.
        z = pow(g, f // 5, n)
        one = (z + pow(z, n - 2, n)) % n
        want = sorted(x for x in {-one % n, (1 + one) % n} if gen(x))
        equal(got, want, "fibonacci_primitive_roots(%d)" % n)
    t.outcome((n, part, g))


def smooth_prime(h):
    """The least prime p = 1 mod h found with an element of order p - 1, which proves it prime (Lucas)."""
    small = ref.primes_upto(10**5)
    for p in itertools.count(h + 1, h):
        if pow(2, p - 1, p) == 1:
            fac = [q for q in small if (p - 1) % q == 0]
            for a in range(2, 200):
                if pow(a, p - 1, p) == 1 and all(pow(a, (p - 1) // q, p) != 1 for q in fac):
                    rest = p - 1
                    for q in fac:
                        while rest % q == 0:
                            rest //= q
                    if rest == 1:
                        return p
                    break


def huge_cases(more):
    hs = [2 ** 61, 3 ** 40 * 2, 2 ** 30 * 3 ** 20, 10 ** 20, 5 ** 30 * 2, 7 ** 24 * 2, 2 ** 55 * 15, 2 * 3 * 5 * 7 * 11 * 13 * 17 * 19 * 23 * 29 * 31,
          2 * 101 ** 4 * 103 ** 4]
    hs += [2 ** 100 * 15, 2 * 3 ** 80, 30 ** 15, 2 * 65537 ** 6] if more else []
    for h in hs:
        p = smooth_prime(h)
        yield p, p, "roots"
        yield p, p, "orders"
        yield p, p, "unity"
        if h % 5 == 0:
            yield p, p, "fibonacci"
    for p, k in [(3, 40), (7, 25), (5, 30), (10007, 5), (1009, 7)] + ([(3, 90), (11, 40), (101, 15)] if more else []):
        for n in (p ** k, 2 * p ** k):
            yield n, p, "roots"
            yield n, p, "orders"


def big_unity(case, t):
    m = M()
    p, n = case
    roots = [x for x in range(1, p) if pow(x, n, p) == 1]
    neg = [x for x in range(1, p) if pow(x, n, p) == p - 1]
    equal(list(t.call(m.nth_roots_of_unity_mod_p, n, p)), roots, "nth_roots_of_unity_mod_p(%d, %d)" % (n, p))
    equal(list(t.call(m.nth_roots_of_minus1_mod_p, n, p)), neg, "nth_roots_of_minus1_mod_p(%d, %d)" % (n, p))
    t.outcome((p, n, len(roots), len(neg)))


def big_dlog(case, t):
    """A subgroup of every order dividing p - 1 up to a bound: all its powers, and a target outside it."""
    m = M()
    p, d = case
    fac = ref.factor(p - 1)
    g = next(a for a in range(2, p) if all(pow(a, (p - 1) // q, p) != 1 for q, _ in fac))
    a = pow(g, (p - 1) // d, p)
    for e in sorted({1, 2, 3, d // 3, d // 2, d - 2, d - 1, d, 31622, 31623, 31624, 10**6 + 7}):
        if 1 <= e <= d:
            b = pow(a, e, p)
            v = t.call(m.discrete_log, a, b, p)
            check(type(v) is int and v > 0 and pow(a, v, p) == b, "discrete_log(%d, %d, %d): %r", a, b, p, v)
    if d < p - 1:
        raises(ValueError, m.discrete_log, a, g, p, what="discrete_log(%d, %d, %d)" % (a, g, p))
    raises(ValueError, m.discrete_log, a, 0, p, what="discrete_log(%d, 0, %d)" % (a, p))
    t.outcome(case)


def fibonacci(case, t):
    m = M()
    p = case
    want = [g for g in range(1, p) if (g * g - g - 1) % p == 0 and order(g, p) == p - 1]

    def body(script):
        equal(list(t.call(m.fibonacci_primitive_roots, p)), want, "fibonacci_primitive_roots(%d), draws %r" % (p, script))
    choice.explore(body, 1, 4, tracker=t)
    t.outcome((p, want))


def unity(case, t):
    m = M()
    p = case
    gens = [g for g in range(1, p) if order(g, p) == p - 1]
    for n in list(range(1, min(2 * p + 3, 80))) + [p - 1, p, 2 * (p - 1), (p - 1) * 3 + 1]:
        pw = [pow(x, n, p) for x in range(p)]
        one = [x for x in range(p) if pw[x] == 1]
        neg = [x for x in range(p) if pw[x] == p - 1]
        equal(list(t.call(m.nth_roots_of_unity_mod_p, n, p)), one, "nth_roots_of_unity_mod_p(%d, %d)" % (n, p))
        equal(list(t.call(m.nth_roots_of_minus1_mod_p, n, p)), neg, "nth_roots_of_minus1_mod_p(%d, %d)" % (n, p))
        for g in gens[:3] + gens[-1:]:
            equal(list(t.call(m.nth_roots_of_unity_mod_p, n, p, g)), one, "nth_roots_of_unity_mod_p(%d, %d, %d)" % (n, p, g))
            equal(list(t.call(m.nth_roots_of_minus1_mod_p, n, p, g)), neg, "nth_roots_of_minus1_mod_p(%d, %d, %d)" % (n, p, g))
    t.outcome(case)


def dlog(case, t):
    m = M()
    p, alist = case
    for a in alist or range(p):
        powers = {}
        x = 1
        for k in range(1, p + 1):
            x = x * a % p
            if x in powers:
                break
            powers[x] = k
        for b in range(p):
            for aa, bb in ((a, b), (a, b + p), (a - p, b - p)) if p < 60 else ((a, b),):
                kind, v = t.attempt(m.discrete_log, aa, bb, p)
                if b in powers:
                    check(kind == "ok" and type(v) is int and v > 0 and pow(aa, v, p) == b,
                          "discrete_log(%d, %d, %d): %r", aa, bb, p, v)
                else:
                    check(kind == "raised" and isinstance(v, ValueError), "discrete_log(%d, %d, %d): %r", aa, bb, p, v)
    t.outcome(case)


def calls():
    m = M()
    return {
        "is": (m.is_primitive_root, lambda: (3, 14)),
        "is2": (m.is_primitive_root, lambda: (3, 61, 60, [2, 3, 5])),
        "root": (m.primitive_root, lambda: (41,)),
        "root2": (m.primitive_root, lambda: (54, [(2, 1), (3, 3)])),
        "no root": (m.primitive_root, lambda: (12,)),
        "fib": (m.fibonacci_primitive_roots, lambda: (41,)),
        "order": (m.multiplicative_order, lambda: (4, 7)),
        "order2": (m.multiplicative_order, lambda: (2, 10)),
        "order3": (m.multiplicative_order, lambda: (2, 101, 100, [1, 2, 4, 5, 10, 20, 25, 50, 100])),
        "unity": (m.nth_roots_of_unity_mod_p, lambda: (4, 101)),
        "minus": (m.nth_roots_of_minus1_mod_p, lambda: (2, 101)),
        "log": (m.discrete_log, lambda: (5, 3, 2017)),
        "log none": (m.discrete_log, lambda: (4, 3, 7)),
    }


def domains(tier):
    q = tier == "quick"
    D = Domain
    P = ref.primes_upto(4000)
    prog = [p for p in P if p < (200 if q else 500)]
    logs = [(p, None) for p in P if p < (110 if q else 320)]
    logs += [(p, tuple(a for a in range(2, 30))) for p in P if 320 < p < (500 if q else 1100)]
    logs += [(p, (2, 3, 5)) for p in (1021, 1031, 1087, 1091, 2017, 3967, 3989)]
    return [
        D("primitive roots and orders", lambda: [(n, n + 1) for n in range(2, 130 if q else 330)], roots, timeout=300,
          bound="every residue of every modulus below %d" % (130 if q else 330)),
        D("modulus one", list(range(-3, 5)), modulus_one),
        D("large primes", lambda: ref.segment(10**6, 10**6 + (300 if q else 3000)) +
          ref.segment(10**9, 10**9 + (100 if q else 1000)), big_roots, timeout=120, bound="prime windows at 10^6, 10^9"),
        # least primitive roots 21, 31, 37, 38, 44, 69, 73 and 94
        D("large least primitive roots", [409, 5881, 36721, 55441, 71761, 110881, 760321, 5109721], big_roots, timeout=120,
          bound="record primes up to 5109721"),
        D("large composite moduli", lambda: [c * p ** k for c in (1, 2) for p in (3, 5, 7, 11, 409, 1009, 1013, 10007) for k in (2, 3, 5, 8)
                                             if p ** k < 10**13] +
          [4 * 1009, 8 * 3**7, 1009 * 1013, 3 * 10007, 2 * 3 * 10007, 15 * 7**4, 2**20, 2**31, 12 * 10007**2], composite, timeout=120,
          bound="p^k and 2p^k up to 10^13 and nine moduli without primitive roots, residues up to 60"),
        D("every order", lambda: [(p, (i, 8)) for p in [next(p for p in itertools.count(h + 1, h) if ref.is_prime(p)) for h in
                                                        ((5040, 720720, 6983776800) if q else (5040, 720720, 367567200, 6983776800, 2**40, 3**20))]
                                  for i in range(8)], every_order, timeout=120,
          bound="an element of every order for primes one above a multiple of 5040, 720720, 6983776800" + ("" if q else " and others")),
        D("moduli beyond machine words", lambda: huge_cases(not q), huge, timeout=120,
          bound="primes and prime powers up to 2^%d with smooth totients, elements of chosen orders" % (107 if q else 150)),
        D("roots of unity modulo larger primes", lambda: [(p, n) for p in (2311, 4621, 9241, 30031 - 30, 32401) if ref.is_prime(p)
                                                          for n in (2, 3, 6, 30, 77, 210, 1155, 2310, 3600, p - 1, p)], big_unity, timeout=120,
          bound="primes up to 32401, exponents with many common divisors"),
        D("larger discrete logarithms", lambda: [(p, d) for p in (1000003, 4324321, 367567201, 1000000007)
                                                 for d in ref.divisors(p - 1)[:: (6 if q else 1)] + [p - 1] if d > 1 or not q], big_dlog, timeout=300,
          bound="every %sorder dividing p - 1 for four primes up to 10^9" % ("sixth " if q else "")),
        D("Fibonacci primitive roots", lambda: [p for p in P if p < (900 if q else 3000)] +
          # the root has order (p - 1)/q for the largest prime q dividing p - 1, of five or more
          [17291, 19891, 21211, 69931, 73951, 76261, 86461, 129361, 139861] +
          [p for p in range(2311, 60000 if q else 300000, 2310) if ref.is_prime(p)], fibonacci, timeout=120,
          bound="all primes, first draw varied"),
        D("roots of unity", lambda: prog, unity, timeout=120, bound="all primes below %d, exponents up to 80 and near p" % prog[-1]),
        D("discrete logarithms", lambda: logs, dlog, timeout=300, bound="every base and target for small primes"),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
