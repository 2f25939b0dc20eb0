"""Counting functions agree with exhaustive enumeration of what they count."""

import itertools
import math

from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P20"
ASSUMPTIONS = ["arguments are nonnegative integers; boards have at least one cell",
               "weights of a necklace sum to its length and there is one per color",
               "group sizes of a multinomial sum to at most n"]


def E():
    from rosemary.combinatorics.enumeration import enumeration as m
    return m


# ---- references by enumeration ------------------------------------------------

def set_partitions(n):
    """Restricted growth strings of length n."""
    def go(pre, mx):
        if len(pre) == n:
            yield pre
            return
        for v in range(mx + 2):
            yield from go(pre + (v,), max(mx, v))
    yield from go((), -1)


def set_partition_case(n, t):
    m = E()
    by = {}
    total = 0
    for s in set_partitions(n):
        k = len(set(s))
        by[k] = by.get(k, 0) + 1
        total += 1
    equal(t.call(m.bell_number, n), total, "bell_number(%d)" % n)
    for k in range(0, n + 3):
        equal(t.call(m.stirling_number2, n, k), by.get(k, 0), "stirling_number2(%d, %d)" % (n, k))
    t.outcome((n, total))


def big_bell(n, t):
    m = E()
    row = [1]                     # Bell triangle and Stirling triangle by definition
    S = [1]
    for i in range(1, n + 1):
        S = [(S[j - 1] if j else 0) + (j * S[j] if j < len(S) else 0) for j in range(i + 1)]
    for k in range(0, n + 1):
        equal(t.call(m.stirling_number2, n, k), S[k], "stirling_number2(%d, %d)" % (n, k))
    equal(t.call(m.bell_number, n), sum(S), "bell_number(%d)" % n)
    t.outcome((n, sum(S)))


def binom(n, t):
    m = E()
    row = [1]
    for i in range(n):
        row = [1] + [a + b for a, b in zip(row, row[1:])] + [1]
    for k in range(n + 4):
        equal(t.call(m.binomial, n, k), row[k] if k <= n else 0, "binomial(%d, %d)" % (n, k))
    t.outcome((n, sum(row)))


def multi(case, t):
    m = E()
    n, ks = case
    want = math.factorial(n)
    for k in ks:
        want //= math.factorial(k)
    arg = list(ks)
    equal(t.call(m.multinomial, n, arg), want, "multinomial(%r, %r)" % (n, ks))
    equal(arg, list(ks), "the group sizes")
    equal(t.call(m.multinomial, n, tuple(ks)), want, "multinomial(%r, %r)" % (n, ks))
    if n <= 7:
        word = [i for i, k in enumerate(ks) for _ in range(k)]
        word += list(range(len(ks), len(ks) + n - len(word)))
        equal(want, len(set(itertools.permutations(word))), "reference for multinomial")
    t.outcome((case, want))


def multis(N):
    def comps(n, mx):
        yield ()
        for k in range(1, min(n, mx) + 1):
            for r in comps(n - k, mx):
                yield (k,) + r
    for n in range(1, N + 1):
        for c in comps(n, n):
            if c:
                yield (n, c)


def vector_partitions(m, n):
    """Partitions of the multiset with m and n copies, by enumeration."""
    vecs = [(i, j) for i in range(m + 1) for j in range(n + 1) if i + j]
    seen = {}

    def go(a, b, i):
        if a == 0 and b == 0:
            return 1
        if i == len(vecs):
            return 0
        key = (a, b, i)
        if key not in seen:
            x, y = vecs[i]
            s = go(a, b, i + 1)
            if x <= a and y <= b:
                s += go(a - x, b - y, i)
            seen[key] = s
        return seen[key]
    return go(m, n, 0)


def bip(case, t):
    m = E()
    w = vector_partitions(*case)
    equal(t.call(m.bipartitions, *case), w, "bipartitions%r" % (case,))
    t.outcome((case, w))


def part_ref(N):
    p = [1] + [0] * N
    for k in range(1, N + 1):
        for s in range(k, N + 1):
            p[s] += p[s - k]
    return p


def parts(n, t):
    m = E()
    p = part_ref(n)
    equal(list(t.call(m.partition_list, n)), p, "partition_list(%d)" % n)
    equal(t.call(m.partition_number, n), p[n], "partition_number(%d)" % n)
    t.outcome((n, p[n]))


def rth(case, t):
    m = E()
    r, n = case
    p = part_ref(n)
    w = [1] + [0] * n
    for _ in range(r):
        w = [sum(w[i] * p[s - i] for i in range(s + 1)) for s in range(n + 1)]
    equal(t.call(m.rth_power_partition_number, r, n), w[n], "rth_power_partition_number%r" % (case,))
    t.outcome((case, w[n]))


def tilings(r, c, shapes):
    """Number of exact tilings of the r x c board, first empty cell first."""
    from functools import lru_cache

    @lru_cache(None)
    def go(mask):
        if mask == (1 << r * c) - 1:
            return 1
        i = 0
        while mask >> i & 1:
            i += 1
        y, x = divmod(i, c)
        s = 0
        for sh in shapes:
            mk = 0
            for dy, dx in sh:
                a, b = y + dy, x + dx
                if not (0 <= a < r and 0 <= b < c):
                    mk = None
                    break
                mk |= 1 << a * c + b
            if mk is not None and not mk & mask:
                s += go(mask | mk)
        return s
    return go(0)


def norm(shape):
    y, x = min(shape)
    return tuple(sorted((a - y, b - x) for a, b in shape))


def orient(shape):
    out = set()
    for _ in range(4):
        shape = [(b, -a) for a, b in shape]
        out.add(norm(shape))
        out.add(norm([(a, -b) for a, b in shape]))
    return sorted(out)


def board(case, t):
    m = E()
    kind, r, c = case
    if kind == "domino":
        w = tilings(r, c, orient([(0, 0), (0, 1)]))
        equal(t.call(m.number_of_domino_tilings, r, c), w, "number_of_domino_tilings(%d, %d)" % (r, c))
    else:
        w = tilings(r, c, orient([(0, 0), (0, 1), (0, 2)]) + orient([(0, 0), (0, 1), (1, 0)]))
        equal(t.call(m.triomino_tilings, r, c), w, "triomino_tilings(%d, %d)" % (r, c))
    t.outcome((case, w))


def neck(case, t):
    m = E()
    n, k = case
    seen = set()
    count = {}
    for w in itertools.product(range(k), repeat=n):
        rep = min(w[i:] + w[:i] for i in range(n))
        if rep not in seen:
            seen.add(rep)
            key = tuple(rep.count(c) for c in range(k))
            count[key] = count.get(key, 0) + 1
    equal(t.call(m.necklaces, n, k), len(seen), "necklaces(%d, %d)" % case)
    for key, v in sorted(count.items()):
        if min(key) > 0:
            arg = list(key)
            equal(t.call(m.necklaces, n, k, arg), v, "necklaces(%d, %d, %r)" % (n, k, key))
            equal(arg, list(key), "the weights")
            equal(t.call(m.necklaces, n, k, tuple(key)), v, "necklaces(%d, %d, %r)" % (n, k, key))
    t.outcome((case, len(seen)))


def big_multi(case, t):
    """Multinomials far beyond what can be listed, as products of Pascal-triangle entries."""
    m = E()
    n, ks = case
    want, left = 1, n
    for k in ks:
        want *= pascal(left)[k]
        left -= k
    want *= math.factorial(left)          # what is in no group is all different
    equal(t.call(m.multinomial, n, list(ks)), want, "multinomial(%r, %r)" % (n, ks))
    if len(ks) == 1:
        equal(t.call(m.binomial, n, ks[0]), pascal(n)[ks[0]], "binomial(%r, %r)" % (n, ks[0]))
    t.outcome((case, want % 10 ** 9))


ROWS = [[1]]


def pascal(n):
    while len(ROWS) <= n:
        r = ROWS[-1]
        ROWS.append([1] + [a + b for a, b in zip(r, r[1:])] + [1])
    return ROWS[n]


def big_multis(q):
    for n in list(range(2, 40)) + [60, 100, 170, 171, 200]:
        for a in range(1, n + 1, 1 if n < 40 else 13):
            yield (n, (a,))
            for b in range(1, n - a + 1, 3 if q else 1) if n < 40 else (1, (n - a) // 2):
                if 0 < b <= n - a:
                    yield (n, (a, b))
        for parts in ((n // 3,) * 3, (n // 4,) * 4, (2,) * (n // 2), (1,) * n, (n // 2,) + (1,) * (n // 2)):
            if min(parts) > 0:
                yield (n, parts)


def big_neck(case, t):
    """Necklaces beyond listing: words fixed by each of the n rotations, averaged."""
    m = E()
    n, ks, weights = case
    if weights is None:
        for k in ks:
            want, r = divmod(sum(k ** math.gcd(i, n) for i in range(n)), n)
            equal(r, 0, "reference")
            equal(t.call(m.necklaces, n, k), want, "necklaces(%d, %d)" % (n, k))
    else:
        want = 0
        for i in range(n):
            d = n // math.gcd(i, n)
            if all(w % d == 0 for w in weights):
                x, left = 1, n // d
                for w in weights:
                    x *= pascal(left)[w // d]
                    left -= w // d
                want += x
        want, r = divmod(want, n)
        equal(r, 0, "reference")
        equal(t.call(m.necklaces, n, len(weights), list(weights)), want,
              "necklaces(%d, %d, %r)" % (n, len(weights), weights))
    t.outcome((n, weights, want % 10 ** 9))


def strips(case, t):
    """Long boards, by transfer of the filled part of the frontier."""
    m = E()
    kind, r, c = case
    w = transfer(r, c, kind)
    if kind == "domino":
        equal(t.call(m.number_of_domino_tilings, r, c), w, "number_of_domino_tilings(%d, %d)" % (r, c))
    else:
        equal(t.call(m.triomino_tilings, r, c), w, "triomino_tilings(%d, %d)" % (r, c))
    t.outcome((case, w % 10 ** 9))


def transfer(r, c, kind):
    """Tilings of an r x c board: states are the cells already filled, from the first empty one on."""
    flip = r < c
    r, c = max(r, c), min(r, c)
    shapes = (orient([(0, 0), (0, 1)]) if kind == "domino" else
              orient([(0, 0), (0, 1), (0, 2)]) + orient([(0, 0), (0, 1), (1, 0)]))
    shapes = [tuple((y, x - sh[0][1]) for y, x in sh) for sh in shapes]
    state = {0: 1}
    for cell in range(r * c):
        y0, x0 = divmod(cell, c)
        new = {}
        for mask, cnt in state.items():
            if mask & 1:
                new[mask >> 1] = new.get(mask >> 1, 0) + cnt
                continue
            for sh in shapes:
                mk = 0
                for dy, dx in sh:
                    y, x = y0 + dy, x0 + dx
                    if not (0 <= x < c and y < r):
                        break
                    mk |= 1 << (dy * c + dx)
                else:
                    if not mk & mask:
                        v = (mask | mk) >> 1
                        new[v] = new.get(v, 0) + cnt
        state = new
    return state.get(0, 0)


def calls():
    m = E()
    return {
        "bell": (m.bell_number, lambda: (5,)),
        "stirling": (m.stirling_number2, lambda: (5, 3)),
        "stirling0": (m.stirling_number2, lambda: (4, 2)),
        "binomial": (m.binomial, lambda: (6, 2)),
        "multinomial": (m.multinomial, lambda: (6, [2, 3])),
        "bipartitions": (m.bipartitions, lambda: (2, 3)),
        "partition_list": (m.partition_list, lambda: (6,)),
        "partition_list0": (m.partition_list, lambda: (0,)),
        "rth": (m.rth_power_partition_number, lambda: (3, 5)),
        "domino": (m.number_of_domino_tilings, lambda: (2, 3)),
        "domino2": (m.number_of_domino_tilings, lambda: (3, 2)),
        "domino3": (m.number_of_domino_tilings, lambda: (1, 6)),
        "triomino": (m.triomino_tilings, lambda: (2, 3)),
        "triomino2": (m.triomino_tilings, lambda: (3, 3)),
        "triomino3": (m.triomino_tilings, lambda: (1, 3)),
        "necklaces": (m.necklaces, lambda: (6, 2)),
        "necklaces w": (m.necklaces, lambda: (4, 2, [2, 2])),
    }


def domains(tier):
    q = tier == "quick"
    D = Domain
    return [
        D("set partitions", lambda: range(0, 10 if q else 12), set_partition_case, timeout=300,
          bound="n <= %d, k <= n + 2, by listing all set partitions" % (9 if q else 11)),
        D("large set partitions", lambda: list(range(0, 61)) + [80, 100, 120] if q else range(0, 201), big_bell,
          bound="n <= %s, all k" % ("60, and 80, 100, 120" if q else "200")),
        D("binomial", lambda: range(0, 101 if q else 301), binom,
          bound="n <= %d, k <= n + 3" % (100 if q else 300)),
        D("multinomial", lambda: multis(9 if q else 12), multi,
          bound="all compositions of every m <= n <= %d" % (9 if q else 12)),
        D("large multinomials", lambda: big_multis(q), big_multi,
          bound="n < 40 with one or two groups of every size, n to 200, up to n groups"),
        D("bipartitions", lambda: itertools.chain(
            itertools.product(range(0, 9 if q else 16), repeat=2), [(2, 30), (30, 2), (1, 60), (13, 14), (14, 13), (0, 80), (80, 0)]), bip,
          bound="m, n <= %d, and thin cases to 80" % (8 if q else 15)),
        D("partition numbers", lambda: list(range(0, 200 if q else 400)) + [1000], parts,
          bound="n < %d and n = 1000" % (200 if q else 400)),
        D("power partition numbers", lambda: itertools.product(range(1, 7), range(0, 25 if q else 50)),
          rth, bound="r <= 6, n < %d" % (25 if q else 50)),
        D("large power partition numbers", lambda: itertools.chain(
            itertools.product((7, 12, 24, 25, 48, 100), (1, 2, 3, 10, 30, 40) if q else range(0, 61)),
            itertools.product((2, 3), (100, 150))), rth, bound="r <= 100, n <= %d; r = 2, 3 with n to 150" % (40 if q else 60)),
        D("boards", lambda: ((k, r, c) for k in ("domino", "triomino") for r in range(1, 8)
                             for c in range(1, 8) if r * c <= (24 if q else 36)), board, timeout=200,
          bound="all boards with sides <= 7 and at most %d cells" % (24 if q else 36)),
        D("long boards", lambda: ((k, a, b) for k in ("domino", "triomino") for n in (8, 9, 10, 11, 12, 15, 18, 24, 30)
                                  for w in (1, 2, 3, 4) for a, b in ((n, w), (w, n))
                                  if n * w <= (48 if q or k == "triomino" else 72) and (k == "domino" or w < 4 or n < 13) and (a < 3 or b <= 18)), strips, timeout=300,
          bound="widths 1..4, lengths 8..30, at most %d cells (triominoes 48), both orientations (more than 18 columns: two rows)" % (48 if q else 72)),
        D("large necklaces", lambda: itertools.chain(
            ((n, (1, 2, 3, 10, 97, 1000, 10 ** 9, 2 ** 64 + 1), None) for n in list(range(1, 80 if q else 300)) + [360, 720, 1024]),
            ((sum(w), (), w) for w in itertools.chain(
                itertools.combinations_with_replacement((1, 2, 3, 4, 6, 9, 12, 18, 30), 2),
                itertools.combinations_with_replacement((2, 3, 4, 6, 12, 24), 3), [(12,) * 5, (6, 12, 18, 24)]))), big_neck,
            bound="n < %d with up to 2**64 colors; weights to 30" % (80 if q else 300)),
        D("necklaces", lambda: ((n, k) for n in range(1, 13) for k in range(1, 8)
                                if k ** n <= (20000 if q else 300000)), neck, timeout=200,
          bound="k^n <= %d, every weight vector" % (20000 if q else 300000)),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
