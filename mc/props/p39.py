"""Largest bounded divisors, richest integers, Bernoulli numbers and progressions meet their definitions."""

import bisect
import functools
import itertools
import math
from fractions import Fraction

from mc import ref
from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P39"
ASSUMPTIONS = ["1 <= b <= n for divisors; progressions are sought in strictly increasing lists"]


def M():
    from rosemary.number_theory import misc as m
    return m


def A():
    from rosemary.number_theory import arithmetic_progressions as m
    return m


def largest(case, t):
    m = M()
    for n in range(*case):
        ds = ref.divisors(n)
        j = 0
        for b in range(1, n + 1):
            while j + 1 < len(ds) and ds[j + 1] <= b:
                j += 1
            equal(t.call(m.largest_divisor, n, b), ds[j], "largest_divisor(%d, %d)" % (n, b))
    t.outcome(case)


def largest_big(case, t):
    m = M()
    n = case
    fac = ref.factor(n)
    ds = [1]
    for p, e in fac:
        ds = [d * p ** i for d in ds for i in range(e + 1)]
    ds.sort()
    pick = ds if len(ds) < 200 else ds[:60] + ds[len(ds) // 2 - 60:len(ds) // 2 + 60] + ds[-60:]
    for d in pick:
        for b in (d - 1, d, d + 1):
            if 1 <= b <= n:
                w = ds[bisect.bisect_right(ds, b) - 1]
                equal(t.call(m.largest_divisor, n, b), w, "largest_divisor(%d, %d)" % (n, b))
    t.outcome(case)


@functools.lru_cache(None)
def richest(N):
    tau = [0] * (N + 1)
    for d in range(1, N + 1):
        for x in range(d, N + 1, d):
            tau[x] += 1
    best, out = 0, [0]
    for n in range(1, N + 1):
        best = max(best, tau[n])
        out.append(best)
    return tau, out


def rich(case, t):
    m = M()
    lo, hi, N = case
    tau, best = richest(N)
    for B in range(lo, hi):
        k, n = t.call(m.maximize_divisors, B)
        check(1 <= n <= B and k == best[B] and tau[n] == k, "maximize_divisors(%d) = %r", B, (k, n))
    t.outcome(case)


# highly composite numbers and their divisor counts (published)
HCN = [(720720, 240), (1081080, 256), (2162160, 320), (3603600, 360), (6486480, 400), (7207200, 432), (10810800, 480),
       (21621600, 576), (36756720, 640), (61261200, 720), (73513440, 768), (110270160, 800), (245044800, 1008),
       (367567200, 1152), (735134400, 1344), (1102701600, 1440), (2205403200, 1680), (6983776800, 2304),
       (963761198400, 6720), (97821761637600, 17280)]


def rich_known(case, t):
    m = M()
    n, k = case
    equal(tuple(t.call(m.maximize_divisors, n)), (k, n), "maximize_divisors(%d)" % n)
    kk, nn = t.call(m.maximize_divisors, n - 1)
    check(nn < n and kk < k and kk == math.prod(e + 1 for _, e in ref.factor(nn)), "maximize_divisors(%d) = %r", n - 1, (kk, nn))
    t.outcome(case)


@functools.lru_cache(None)
def frontier(B):
    """All (n, tau(n)) with n <= B and more divisors than every smaller integer: undominated products, prime by prime."""
    front = [(1, 1)]
    pp = 1
    for p in ref.primes_upto(200):
        pp *= p
        if pp > B:
            break
        cand = []
        for n, k in front:
            e = 1
            while n <= B:
                cand.append((n, k * e))
                n *= p
                e += 1
        front, best = [], 0
        for n, k in sorted(cand, key=lambda x: (x[0], -x[1])):
            if k > best:
                best = k
                front.append((n, k))
    return front


def rich_large(case, t):
    m = M()
    top, lo, hi = case
    F = frontier(top)
    for i in range(lo, min(hi, len(F))):
        n, k = F[i]
        for B in (n, n + 1, n - 1, n + n // 1000):
            if B < 1:
                continue
            w = max(kk for nn, kk in F if nn <= B)
            kk, nn = t.call(m.maximize_divisors, B)
            check(1 <= nn <= B and kk == w and math.prod(e + 1 for _, e in ref.factor(nn)) == w,
                  "maximize_divisors(%d) = %r, best is %d", B, (kk, nn), w)
    t.outcome(case)


def bernoulli(case, t):
    m = M()
    n = case
    B = []
    for k in range(n + 1):          # Akiyama-Tanigawa
        row = []
    T = [Fraction(0)] * (n + 1)
    for k in range(n + 1):
        T[k] = Fraction(1, k + 1)
        for j in range(k, 0, -1):
            T[j - 1] = j * (T[j - 1] - T[j])
        B.append(T[0])
    if n >= 1:
        B[1] = -B[1]
    got = list(t.call(m.bernoulli_list, n))
    equal(got, B, "bernoulli_list(%d)" % n)
    check(all(isinstance(x, (int, Fraction)) for x in got), "bernoulli_list(%d) is not exact", n)
    t.outcome(case)


def aps(L):
    """(some three term progression exists, longest progressions of length >= 2)."""
    S = set(L)
    best, out = 2, []
    for i, j in itertools.combinations(range(len(L)), 2):
        d = L[j] - L[i]
        k = 2
        while L[i] + k * d in S:
            k += 1
        if k > best:
            best, out = k, []
        if k == best:
            out.append(tuple(L[i] + d * s for s in range(k)))
    return best >= 3, sorted(out)


def progressions(case, t):
    m = A()
    for L in case:
        L = list(L)
        keep = list(L)
        has, longest = aps(L)
        got = t.call(m.has_three_term_ap, L)
        idx = t.call(m.has_three_term_ap, L, indices=True)
        if not has:
            check(got is False and idx is False, "has_three_term_ap(%r) = %r, %r", L, got, idx)
        else:
            check(got is not False and len(got) == 3 and set(got) <= set(L) and got[0] < got[1] < got[2]
                  and got[0] + got[2] == 2 * got[1], "has_three_term_ap(%r) = %r", L, got)
            check(idx is not False and len(idx) == 3 and 0 <= idx[0] < idx[1] < idx[2] < len(L)
                  and L[idx[0]] + L[idx[2]] == 2 * L[idx[1]], "has_three_term_ap(%r, indices) = %r", L, idx)
        if len(L) >= 2:
            equal([tuple(x) for x in t.call(m.longest_ap, L)], longest, "longest_ap(%r)" % (L,))
        equal(L, keep, "the list")
        t.states += 1
    t.outcome(case[0])


def subsets(n):
    """Batches of all subsets of 1..n."""
    batch = []
    for mask in range(1 << n):
        batch.append(tuple(i + 1 for i in range(n) if mask >> i & 1))
        if len(batch) == 128:
            yield tuple(batch)
            batch = []
    if batch:
        yield tuple(batch)


def longer():
    P = ref.primes_upto(1300)
    yield (tuple(P[:60]),)
    yield (tuple(P),)
    yield (tuple(i * i for i in range(1, 60)),)
    yield (tuple(2**i for i in range(40)),)
    yield (tuple(range(5, 300, 7)),)
    yield (tuple(sorted({i * 3 for i in range(30)} | {i * 5 + 1 for i in range(30)})),)
    yield (tuple(i * (i + 1) // 2 for i in range(1, 60)),)
    # no three term progression: base three digits 0 and 1
    yield (tuple(sum(3**j for j in range(7) if i >> j & 1) + 1 for i in range(128)),)


def planted(n):
    """Progression free lists (sums of distinct powers of three) with one progression planted, of every spacing."""
    T = [sum(3**j for j in range(n) if i >> j & 1) for i in range(1 << n)]
    N = len(T)
    for gap in sorted({1, 2, 3, 5, 8, 13, 20, 31, 33, 40, 60, 63, 64, 65, 90, 120, N - 1} | set(range(1, N, 17))):
        for i in sorted({0, 1, (N - gap) // 2, N - 1 - gap}):
            if not 0 <= i < i + gap < N or (T[i] + T[i + gap]) % 2:
                continue
            L = {T[i], T[i + gap], (T[i] + T[i + gap]) // 2}
            a, c = T[i], T[i + gap]
            bad = lambda x: any(2 * x - y in L or 2 * y - x in L or (x + y) % 2 == 0 and (x + y) // 2 in L for y in L)
            for x in T:
                if x not in L and not bad(x):
                    L.add(x)
            yield (tuple(sorted(L)),)


def calls():
    m, a = M(), A()
    return {
        "div": (m.largest_divisor, lambda: (360, 50)), "div2": (m.largest_divisor, lambda: (1024, 100)),
        "max": (m.maximize_divisors, lambda: (1000,)), "max2": (m.maximize_divisors, lambda: (10,)),
        "bern": (m.bernoulli_list, lambda: (12,)), "bern0": (m.bernoulli_list, lambda: (0,)),
        "ap3": (a.has_three_term_ap, lambda: ([2, 3, 5, 7, 11, 13],)), "ap none": (a.has_three_term_ap, lambda: ([2, 3, 7, 13],)),
        "longest": (a.longest_ap, lambda: ([2, 3, 5, 7, 11, 17, 23],)),
    }


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    D = Domain
    n = 14 if q else 21 if deep else 19
    bign = [2**20, 3**12, 720720, 10**12, 2**10 * 3**5 * 5**3, 6**8, 30030**2, 1000003 * 720, 2**40, 997**3 * 8,
            2**70, 2**64 * 3, 2**100, 3**80, 2**35 * 3**35, 2**62 * 5 * 7, 2**90 * 1000003, 7**61, math.prod(ref.primes_upto(60)),
            963761198400, 1000003, 1000003**2, 510510, math.factorial(12), math.factorial(15)]
    return [
        D("largest divisors", lambda: [(a, a + 4) for a in range(1, 420 if q else 4000 if deep else 1500, 4)], largest, timeout=120,
          bound="every n < %d and every b <= n" % (420 if q else 4000 if deep else 1500)),
        D("largest divisors of large integers", lambda: bign, largest_big, timeout=120, bound="%d integers, bounds around their divisors" % len(bign)),
        D("richest integers", lambda: [(a, a + 200, 60200) for a in range(1, 20000 if q else 60000, 200)], rich, timeout=120,
          bound="every bound below %d" % (20000 if q else 60000)),
        D("highly composite numbers", HCN, rich_known, timeout=60, bound="%d published values" % len(HCN)),
        D("richest integers up to a large bound", lambda: [(10**24 if q else 10**37 if deep else 10**32, a, a + 4) for a in range(0, 600, 4)], rich_large,
          timeout=120, bound="all bounds around the highly composite numbers up to 10^%d" % (24 if q else 37 if deep else 32)),
        D("Bernoulli numbers", lambda: range(0, 90 if q else 300 if deep else 200), bernoulli, timeout=60, bound="every length"),
        D("progressions", lambda: subsets(n), progressions, timeout=120, bound="all subsets of {1..%d}" % n),
        D("longer progressions", lambda: longer(), progressions, timeout=120, bound="8 structured lists"),
        D("planted progressions", lambda: planted(7 if q else 8), progressions, timeout=120,
          bound="one progression of every sampled spacing in a progression free list of %d" % (128 if q else 256)),
        call_histories("histories", calls(), depth=3),
    ]
