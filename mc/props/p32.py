"""Arithmetic functions equal their definitions, whether one value, a table, a range or a sum is asked for."""

import functools
import itertools
import math

from mc import ref
from mc.engine import Domain, check, equal, raises
from mc.history import call_histories

PROPERTY = "P32"
ASSUMPTIONS = []


def fn(m):
    import importlib
    return importlib.import_module("rosemary.number_theory.arithmetic_functions." + m)


# reference values from the definitions ------------------------------------------------

@functools.lru_cache(None)
def table(name, N, k=1):
    """Values at 0..N built without factoring: by summing over multiples."""
    if name == "sigma":
        v = [0] * (N + 1)
        for d in range(1, N + 1):
            dk = d ** k
            for x in range(d, N + 1, d):
                v[x] += dk
        return v
    if name == "phi":           # sum of phi(d) over d | n is n
        v = list(range(N + 1))
        for d in range(1, N + 1):
            for x in range(2 * d, N + 1, d):
                v[x] -= v[d]
        return v
    if name == "mu":            # sum of mu(d) over d | n is [n == 1]
        v = [0] * (N + 1)
        if N >= 1:
            v[1] = 1
        for d in range(1, N + 1):
            if v[d]:
                for x in range(2 * d, N + 1, d):
                    v[x] -= v[d]
        return v
    raise KeyError(name)


def single(n):
    """(phi, mu, tau, sigma, sigma2) of a large n from its factorization by division."""
    phi, mu, tau, s1, s2 = 1, 1, 1, 1, 1
    for p, e in ref.factor(n):
        phi *= (p - 1) * p ** (e - 1)
        mu *= -1 if e == 1 else 0
        tau *= e + 1
        s1 *= sum(p ** i for i in range(e + 1))
        s2 *= sum(p ** (2 * i) for i in range(e + 1))
    return phi, mu, tau, s1, s2


def values(case, t):
    m = fn("functions")
    lo, hi, N = case
    phi, mu = table("phi", N), table("mu", N)
    sig = [table("sigma", N, k) for k in range(4)]
    for n in range(lo, hi):
        fac = ref.factor(n)
        for arg in ([n, fac] if n > 1 else [n, [(1, 1)], []]):
            equal(t.call(m.euler_phi, arg), phi[n], "euler_phi(%r)" % (arg,))
            equal(t.call(m.moebius_mu, arg), mu[n], "moebius_mu(%r)" % (arg,))
            equal(t.call(m.divisor_tau, arg), sig[0][n], "divisor_tau(%r)" % (arg,))
            equal(t.call(m.number_of_divisors, arg), sig[0][n], "number_of_divisors(%r)" % (arg,))
            equal(t.call(m.divisor_sigma, arg), sig[1][n], "divisor_sigma(%r)" % (arg,))
            for k in range(4):
                equal(t.call(m.divisor_sigma, arg, k), sig[k][n], "divisor_sigma(%r, %d)" % (arg, k))
            equal(t.call(m.sum_of_divisors, arg, 2), sig[2][n], "sum_of_divisors(%r, 2)" % (arg,))
        equal(fac, ref.factor(n), "the factorization passed")
    t.outcome(case)


def large(case, t):
    m = fn("functions")
    n = case
    w = single(n)
    for arg in (n, ref.factor(n)):
        got = (t.call(m.euler_phi, arg), t.call(m.moebius_mu, arg), t.call(m.divisor_tau, arg),
               t.call(m.divisor_sigma, arg), t.call(m.divisor_sigma, arg, 2))
        equal(got, w, "phi, mu, tau, sigma, sigma_2 of %r" % (arg,))
    t.outcome(case)


def carmichael(case, t):
    m = fn("functions")
    for n in range(*case):
        # least m > 0 with a^m = 1 for all a prime to n
        units = [a for a in range(1, n + 1) if ref.gcd(a, n) == 1]
        lam = 1
        for a in units:
            x, k = a % n, 1
            one = 1 % n
            while x != one:
                x = x * a % n
                k += 1
            lam = lam * k // ref.gcd(lam, k)
        equal(t.call(m.carmichael_lambda, n), lam, "carmichael_lambda(%d)" % n)
        for fac in [ref.factor(n)] if n > 1 else [[], [(1, 1)]]:
            equal(t.call(m.carmichael_lambda, fac), lam, "carmichael_lambda(%r)" % (fac,))
    t.outcome(case)


def richly(case, t):
    """All functions on an integer given by its factorization, with exponents and primes beyond machine words."""
    m = fn("functions")
    fac = [tuple(x) for x in case]
    n = math.prod(p ** e for p, e in fac)
    keep = list(fac)
    small = all(p < 10**6 for p, _ in fac)      # else trial division, on either side, takes too long
    args = [fac] + ([n] if small else [])
    lam = 1
    for p, e in fac:
        x = (p - 1) * p ** (e - 1) if p > 2 or e < 3 else 2 ** (e - 2)
        lam = lam * x // math.gcd(lam, x)
    for a in args:
        equal(t.call(m.carmichael_lambda, a), lam, "carmichael_lambda(%r)" % (a,))
        equal(t.call(m.euler_phi, a), math.prod((p - 1) * p ** (e - 1) for p, e in fac), "euler_phi(%r)" % (a,))
        equal(t.call(m.moebius_mu, a), 0 if any(e > 1 for _, e in fac) else (-1) ** len(fac), "moebius_mu(%r)" % (a,))
        equal(t.call(m.divisor_tau, a), math.prod(e + 1 for _, e in fac), "divisor_tau(%r)" % (a,))
        for k in (0, 1, 2, 3, 5, 8, 12, 20):
            equal(t.call(m.divisor_sigma, a, k), math.prod(sum(p ** (k * i) for i in range(e + 1)) for p, e in fac),
                  "divisor_sigma(%r, %d)" % (a, k))
    equal(fac, keep, "the factorization passed")
    t.outcome(case)


def richlist(q):
    """Integers with many primes, and with tall prime powers."""
    P = ref.primes_upto(200)
    for i in range(4):
        for k in range(1, 16 if q else 24):
            yield tuple((p, 1) for p in P[i:i + k])
    for lead in itertools.product((0, 1, 2, 3, 5, 8), (0, 1, 2, 4), (0, 1, 3)):
        for tail in ((), (7, 11, 13), (7, 11, 13, 17, 19), (31, 37, 41, 43, 61, 73, 97), (5003, 10007)):
            f = [(p, e) for p, e in zip((2, 3, 5), lead) if e] + [(p, 1) for p in tail]
            if f:
                yield tuple(f)
    for p in (2, 3, 5, 7, 97, 65537, 999983, 2**31 - 1, 10**9 + 7, 2**61 - 1):
        for e in (1, 2, 3, 4, 7, 16, 33, 64, 100):
            if p < 100 or e < 8:
                yield ((p, e),)
                if p > 2:
                    yield ((2, e), (p, 2))


def near_squares(case, t):
    """Windows that contain multiples of squares of primes far above their length."""
    m = fn("sieves")
    p, c = case
    x = p * p * c
    for a, b in ((x, x + 1), (x - 1, x + 2), (x - 30, x + 31), (x, x + 300), (x + 1, x + 4)):
        got = [tuple(v) for v in t.call(m.moebius_range, a, b)]
        equal(got, [(n, single(n)[1]) for n in range(a, b)], "moebius_range(%d, %d)" % (a, b))
    t.outcome(case)


def sigma_total(n):
    """Sum of d * floor(n / d), by the blocks of equal quotient."""
    s, d = 0, 1
    while d <= n:
        k = n // d
        e = n // k
        s += k * (d + e) * (e - d + 1) // 2
        d = e + 1
    return s


def sigma_sums(case, t):
    m = fn("sums")
    for n in case:
        equal(t.call(m.sigma_sum, n), sigma_total(n), "sigma_sum(%d)" % n)
    t.outcome(case)


@functools.lru_cache(None)
def phi_sieve(N):
    phi = list(range(N + 1))
    for p in range(2, N + 1):
        if phi[p] == p:
            for x in range(p, N + 1, p):
                phi[x] -= phi[x] // p
    return list(itertools.accumulate(phi)), list(itertools.accumulate(i * x for i, x in enumerate(phi)))


def phi_sums(case, t):
    m = fn("sums")
    N, ns = case
    A, W = phi_sieve(N)
    for n in ns:
        equal(t.call(m.euler_phi_sum, n), A[n], "euler_phi_sum(%d)" % n)
        equal(t.call(m.euler_phi_weighted_sum, n), W[n], "euler_phi_weighted_sum(%d)" % n)
    t.outcome(case)


def huge_factorials(case, t):
    m = fn("functions")
    for n in range(*case):
        equal(t.call(m.factorial, n), math.factorial(n), "factorial(%d)" % n)
    t.outcome(case)


def errors(case, t):
    m = fn("functions")
    name, args = case
    kind, v = t.attempt(getattr(m, name), *args)
    check(kind == "raised" and isinstance(v, ValueError), "%s%r: %r instead of a ValueError", name, args, v)
    t.outcome(case)


def errors2(case, t):
    mod, name, args = case
    kind, v = t.attempt(getattr(fn(mod), name), *args)
    check(kind == "raised" and isinstance(v, ValueError), "%s%r: %r instead of a ValueError", name, args, v)
    t.outcome(case)


def products(case, t):
    m = fn("functions")
    lo, hi = case
    f = 1
    for i in range(1, lo):
        f *= i
    P = ref.primes_upto(20000)
    for n in range(lo, hi):
        if n > 0:
            f *= n
        equal(t.call(m.factorial, n), f, "factorial(%d)" % n)
        if n > 0:
            w = 1
            for p in P[:n]:
                w *= p
            equal(t.call(m.primorial, n), w, "primorial(%d)" % n)
    t.outcome(case)


def lists(case, t):
    m = fn("sieves")
    lo, hi, N = case
    phi, mu = table("phi", N), table("mu", N)
    for n in range(lo, hi):
        for f, w in (("euler_phi_list", phi), ("totient_list", phi), ("moebius_list", mu),
                     ("tau_list", table("sigma", N, 0)), ("sigma_list", table("sigma", N, 1))):
            got = list(t.call(getattr(m, f), n))
            w = w[:n + 1]
            if got != w:
                bad = [i for i, (a, b) in enumerate(zip(got, w)) if a != b][:3]
                check(False, "%s(%d): length %d, differs at %r", f, n, len(got), bad)
        for k in range(4):
            got = list(t.call(m.sigma_list, n, k))
            w = table("sigma", N, k)[:n + 1]
            if got != w:
                bad = [i for i, (a, b) in enumerate(zip(got, w)) if a != b][:3]
                check(False, "sigma_list(%d, %d): length %d, differs at %r", n, k, len(got), bad)
    t.outcome(case)


def mrange(case, t):
    m = fn("sieves")
    a, b = (1, case[0]) if len(case) == 1 else case
    a = max(a, 1)
    got = [tuple(x) for x in t.call(m.moebius_range, *case)]
    if b < 20000:
        mu = table("mu", 20000)
        w = [(n, mu[n]) for n in range(a, b)]
    else:
        w = [(n, single(n)[1]) for n in range(a, b)]
    equal(got, w, "moebius_range%r" % (case,))
    t.outcome(case)


@functools.lru_cache(None)
def psums(name, N):
    if name == "wphi":
        v = [i * x for i, x in enumerate(table("phi", N))]
    else:
        v = table(name, N)
    return list(itertools.accumulate(v))


def sums(case, t):
    m = fn("sums")
    lo, hi, N = case
    for n in range(lo, hi):
        for f, name in (("euler_phi_sum", "phi"), ("totient_sum", "phi"), ("euler_phi_weighted_sum", "wphi"),
                        ("moebius_sum", "mu"), ("mertens", "mu"), ("sigma_sum", "sigma")):
            equal(t.call(getattr(m, f), n), psums(name, N)[n], "%s(%d)" % (f, n))
    t.outcome(case)


KNOWN_M = {10: -1, 100: 1, 1000: 2, 10**4: -23, 10**5: -48, 10**6: 212, 10**7: 1037, 10**8: 1928}
KNOWN_PHI = {10: 32, 100: 3044, 1000: 304192, 10**4: 30397486, 10**5: 3039650754, 10**6: 303963552392,
             10**7: 30396356427242, 10**8: 3039635516365908,
             10**9: 303963551173008414}


def known(case, t):
    m = fn("sums")
    f, n = case
    w = (KNOWN_M if f == "moebius_sum" else KNOWN_PHI)[n]
    equal(t.call(getattr(m, f), n), w, "%s(%d)" % case)
    t.outcome(case)


def calls():
    f, s, u = fn("functions"), fn("sieves"), fn("sums")
    F = lambda: ([(2, 2), (5, 2)],)
    out = {}
    for name in ("euler_phi", "moebius_mu", "divisor_sigma", "divisor_tau", "carmichael_lambda"):
        out[name] = (getattr(f, name), lambda: (60,))
        out[name + " factored"] = (getattr(f, name), F)
    out["factorial"] = (f.factorial, lambda: (12,))
    out["primorial"] = (f.primorial, lambda: (9,))
    for name in ("euler_phi_list", "moebius_list", "tau_list", "sigma_list"):
        out[name] = (getattr(s, name), lambda: (50,))
    out["sigma_list 2"] = (s.sigma_list, lambda: (50, 2))
    out["moebius_range"] = (s.moebius_range, lambda: (90, 130))
    for name in ("euler_phi_sum", "euler_phi_weighted_sum", "moebius_sum", "sigma_sum"):
        out[name] = (getattr(u, name), lambda: (150,))
        out[name + " 2"] = (getattr(u, name), lambda: (40,))
    return out


def domains(tier):
    q = tier == "quick"
    D = Domain
    N = 1500 if q else 12000
    L = 700 if q else 2500
    S = 2500 if q else 12000
    fns = ["euler_phi", "moebius_mu", "divisor_sigma", "divisor_tau", "carmichael_lambda"]
    bad = [(f, (x,)) for f in fns for x in (0, -1, -12, "cat", [(-1, 1), (2, 2)], 2.0, (2, 1), None)]
    bad += [("divisor_sigma", (10, -1)), ("factorial", (-1,)), ("primorial", (0,)), ("primorial", (-2,))]
    bad2 = [("sieves", f, a) for f in ("euler_phi_list", "moebius_list", "tau_list", "sigma_list") for a in ((0,), (-1,))]
    bad2 += [("sieves", "sigma_list", (10, -1))]
    bad2 += [("sums", f, a) for f in ("euler_phi_sum", "moebius_sum", "sigma_sum", "euler_phi_weighted_sum")
             for a in ((0,), (-3,))]
    bign = sorted({p ** e for p in (2, 3, 5, 7) for e in range(1, 60) if p ** e < 10**14} |
                  {c + d for c in (10**6, 10**9, 720720 * 17, 2**31) for d in range(-6, 7)} |
                  {999983**2, 1000003 * 1009, 1000003**2, 1009**3 * 4})
    W = 110 if q else 260
    return [
        D("values", lambda: [(a, a + 10, N) for a in range(1, N - 9, 10)], values, timeout=120,
          bound="1 <= n < %d, as integer and as factorization" % N),
        D("large values", lambda: bign, large, timeout=60, bound="%d prime powers and windows up to 10^14" % len(bign)),
        D("many and tall prime powers", lambda: richlist(q), richly, timeout=60,
          bound="up to %d primes, exponents up to 100, primes up to 2^61 - 1, powers k up to 20" % (15 if q else 23)),
        D("windows at squares of primes", lambda: [(p, c) for p in (997, 1009, 1013, 1999, 3163, 7919, 9973, 10007)
                                                   for c in (1, 2, 3, 6, 7, 10)], near_squares, timeout=60,
          bound="windows around multiples of squares of 8 primes up to 10007"),
        D("large sums of divisors", lambda: [tuple(range(r * r - 2, r * r + 3)) for r in (10**3, 1024, 4999, 2**14, 10**5)] +
          [(10**k - 1, 10**k, 10**k + 1) for k in range(5, 13 if q else 15)] + [(999983 * 1000003,)], sigma_sums, timeout=600,
          bound="windows around squares and powers of ten up to 10^%d" % (12 if q else 14)),
        D("large sums of totients", lambda: [(N, ns) for N in (1000100 if q else 4000100,) for ns in
                                             [tuple(range(c - 3, c + 4)) for c in (3 * 10**5, 2**19, 10**6, 10**5, 215443)] +
                                             [tuple(range(3 * 10**5, N, 50023))]], phi_sums, timeout=600,
          bound="windows and every 50023rd n up to %d" % (10**6 if q else 4 * 10**6)),
        D("large factorials", lambda: [(a, a + 8) for a in range(2040, 2064, 8)] + [(a, a + 3) for a in
                                       list(range(2200, 5200, 250 if q else 50)) + [4095, 8191, 10000]], huge_factorials, timeout=60,
          bound="around 2048, 4096, 8192 and steps up to 10^4"),
        D("universal exponent", lambda: [(a, a + 10) for a in range(1, 400 if q else 1200, 10)], carmichael, timeout=120,
          bound="n, by orders of all units"),
        D("errors", lambda: bad, errors),
        D("table and sum errors", lambda: bad2, errors2),
        D("factorials", lambda: [(a, a + 40) for a in range(0, 1200 if q else 2200, 40)], products, timeout=60,
          bound="all n in the range"),
        D("tables", lambda: [(a, a + 20, L + 20) for a in range(1, L, 20)] + [(9999, 10003, 10003), (4095, 4098, 10003)],
          lists, timeout=120, bound="every length up to %d, and around 4096 and 10000" % L),
        D("ranges", lambda: [(b,) for b in range(-3, 500)] +
          [(a, b) for a in range(-2, W) for b in range(-2, W) if b - a < 60] +
          [(a, a + 300) for a in range(1, 15000, 300)] +
          [(a, a + w) for c in (961, 1024, 997**2, 10**6, 10**8) for a in range(c - 3, c + 4) for w in (1, 7, 40)],
          mrange, timeout=60, bound="all (a, b) below %d; windows up to 10^8" % W),
        D("sums", lambda: [(a, a + 20, S + 20) for a in range(1, S, 20)] +
          [(c - 2, c + 3, 110000) for c in (10**4, 101**2, 32768, 10**5, 316**2, 317**2)], sums, timeout=300,
          bound="1 <= n < %d and around squares up to 10^5" % S),
        D("known sums", lambda: [(f, n) for f, K in (("moebius_sum", KNOWN_M), ("euler_phi_sum", KNOWN_PHI)) for n in K], known, timeout=600,
          bound="published values at powers of ten"),
        call_histories("histories", calls(), depth=2),
    ]
