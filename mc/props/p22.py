"""Knapsack solvers: the exact ones are optimal, every one returns a feasible
selection of the given items worth exactly what it says."""

import itertools

from mc import choice
from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P22"
ASSUMPTIONS = ["values are nonnegative integers or binary fractions, weights positive integers, capacities nonnegative integers",
               "items of equal value and weight are interchangeable"]


TIGHT = [(1, 9), (2, 2), (3, 2), (3, 5), (4, 3), (4, 4), (5, 3), (5, 4), (5, 5), (5, 6), (6, 5), (6, 7), (7, 5), (7, 6), (8, 7),
         (8, 9), (9, 7), (9, 8), (10, 8), (12, 9)]


def M():
    from rosemary.combinatorics.optimization import knapsack as m
    return m


def best_value(items, cap):
    best = {0: 0}
    b = 0
    n = len(items)
    for s in range(1 << n):
        v = w = 0
        for i in range(n):
            if s >> i & 1:
                v += items[i][0]
                w += items[i][1]
        if w <= cap and v > b:
            b = v
    return b


def submultiset(used, items):
    rest = list(items)
    for u in used:
        if u not in rest:
            return False
        rest.remove(u)
    return True


def feasible(name, value, used, items, cap):
    check(submultiset(used, items), "%s uses items that were not given: %r", name, used)
    equal(sum(v for v, w in used), value, "value of the items chosen by %s" % name)
    check(sum(w for v, w in used) <= cap, "%s exceeds the capacity with %r", name, used)


def exact(case, t):
    m = M()
    items, cap = case
    items = list(items)
    keep = list(items)
    want = best_value(items, cap)
    v, used = t.call(m.depth_first, items, cap)
    equal(v, want, "optimum by depth_first")
    feasible("depth_first", v, used, items, cap)
    v, used = t.call(m.dynamic_programming, items, cap)
    equal(v, want, "optimum by dynamic_programming")
    feasible("dynamic_programming", v, used, items, cap)
    v, used = t.call(m.branch_and_bound_depth_first, items, cap)
    equal(v, want, "optimum by branch_and_bound_depth_first")
    feasible("branch_and_bound_depth_first", v, [u[:2] for u in used], items, cap)
    for u in used:
        check(items[u[2]] == tuple(u[:2]), "branch and bound reports item %r at index %d", u[:2], u[2])
    check(len({u[2] for u in used}) == len(used), "branch and bound uses an item twice: %r", used)
    equal(items, keep, "the items")
    t.outcome((case, want))


def spaces(nmax, pairs, caps):
    for n in range(nmax + 1):
        for items in itertools.product(pairs, repeat=n):
            for c in caps:
                yield (items, c)


def big(case, t):
    """Larger values: sums near and beyond the precision of floats divided by weights."""
    exact(case, t)


def many(case, t):
    """More items than can be enumerated: the optimum from a table over all weights."""
    m = M()
    n, (a, b, c), (d, e), cap, kind = case
    items = [(1 + (a * i + i * i // b) % c, 1 + (d * i + i * i // 3) % e) for i in range(n)]
    if kind == "proportional":
        items = [(3 * w + i % 2, w) for i, (v, w) in enumerate(items)]
    elif kind == "equal":
        items = [(w, w) for v, w in items]
    keep = list(items)
    table = [0] * (cap + 1)
    for v, w in items:
        for x in range(cap, w - 1, -1):
            table[x] = max(table[x], table[x - w] + v)
    want = table[cap]
    for name in ("dynamic_programming", "branch_and_bound_depth_first") + (("depth_first",) if n <= 12 else ()):
        if name[0] == "b" and n > 13 and (kind != "plain" or n > 16 or cap > 51):       # exponential
            continue
        v, used = t.call(getattr(m, name), items, cap)
        equal(v, want, "optimum by " + name)
        feasible(name, v, [tuple(u[:2]) for u in used], items, cap)
        equal(items, keep, "the items")
    t.outcome((case, want))


def heavy(case, t):
    """Weights too large for a table: the two search methods."""
    m = M()
    items, cap = case
    items = list(items)
    want = best_value(items, cap)
    v, used = t.call(m.depth_first, items, cap)
    equal(v, want, "optimum by depth_first")
    feasible("depth_first", v, used, items, cap)
    v, used = t.call(m.branch_and_bound_depth_first, items, cap)
    equal(v, want, "optimum by branch_and_bound_depth_first")
    feasible("branch_and_bound_depth_first", v, [u[:2] for u in used], items, cap)
    t.outcome((case, want))


def anneal(case, t):
    m = M()
    items, cap, depth = case
    items = list(items)
    want = best_value(items, cap)

    def body(script):
        v, used = t.call(m.simulated_annealing, items, cap)
        check(len(used) == len(items) and set(used) <= {0, 1}, "annealing returns %r", used)
        feasible("simulated_annealing", v, [it for x, it in zip(used, items) if x], items, cap)
        check(v <= want, "annealing value %r exceeds the optimum %r", v, want)
        fits = [it for it in items if it[1] <= cap and it[0] > 0]
        if fits:
            check(v > 0, "annealing packs nothing although something fits")
    choice.explore(body, depth, wide=3, tracker=t)
    t.outcome((case[:2], want))


def calls():
    m = M()
    A = lambda: ([(3, 2), (4, 3), (5, 4), (6, 5)], 8)
    B = lambda: ([(1, 1), (1, 1), (7, 9)], 9)
    return {"%s %s" % (f, n): (getattr(m, f), a) for n, a in (("A", A), ("B", B))
            for f in ("depth_first", "dynamic_programming", "branch_and_bound_depth_first")}


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    small = [(v, w) for v in (0, 1, 2, 3) for w in (1, 2, 3)]
    wide = [(v, w) for v in (1, 3, 4, 7) for w in (1, 2, 4, 5)]
    bigs = [(2**40 + 1, 3), (2**40, 3), (2**39 + 1, 2), (2**41 - 1, 5), (1, 1), (2**45 + 3, 7)]
    H = 2**60
    huge = [(H - 4, 5), (H - 9, 4), (H - 3, 2), (H - 2, 2), (2**54 + 5, 3), (H - 12, 4), (H + 9, 6), (2**55 + 5, 6)]
    past = [(10**k + d, w) for k, d, w in ((400, 0, 3), (400, 7, 4), (399, -1, 2), (400, -13, 5), (340, 1, 1))]
    loads = [(v, (w << s) + d) for s in (40, 60) for v, w, d in ((4, 3, 1), (5, 4, -1), (2**50 + 1, 2, 0), (6, 5, 3))]
    loads += [(2**62 + 1, 2**61 + 7), (2**62 + 3, 2**61 + 9)]
    ann = [((), 3), (((3, 2),), 1), (((3, 2),), 2), (((3, 2), (4, 3), (5, 4)), 6),
           (((1, 1), (1, 1), (1, 1)), 2), (((5, 2), (0, 1), (9, 9)), 3)]
    return [
        Domain("small", lambda: spaces(3 if q else 5 if deep else 4, small, range(0, 8)), exact,
               bound="<= %d items of value 0..3, weight 1..3, capacities 0..7" % (3 if q else 5 if deep else 4)),
        Domain("wide", lambda: spaces(3 if q else 4, wide, (0, 1, 3, 4, 5, 6, 8, 9, 11, 14)), exact,
               bound="<= %d items over 16 value/weight pairs, ten capacities" % (3 if q else 4)),
        Domain("fractional values", lambda: spaces(3 if q else 4, [(v, w) for v in (0.25, 1, 1.5, 2.75, 3) for w in (1, 2, 3)],
                                                   (2, 3, 4, 5, 6, 7)), exact,
               bound="<= %d items of value 1/4, 1, 3/2, 11/4 or 3, weight 1..3, six capacities" % (3 if q else 4)),
        Domain("multisets", lambda: ((it, c) for n in (4, 5, 6, 7) + ((8, 9, 10) if deep else ()) for it in
                                     itertools.combinations_with_replacement(
                                         [(3, 2), (4, 3), (7, 5), (1, 1), (9, 7)], n)
                                     for c in range(0, 20 if q else 50 if deep else 32)), exact,
               bound="all multisets of 4..%d items over five kinds, capacities < %d" % (10 if deep else 7, 20 if q else 50 if deep else 32)),
        # the order of the items by value per weight matters to the bound, so the capacity is small next to the weights
        Domain("tight capacity", lambda: ((it, c) for n in (5,) if q for it in itertools.combinations(TIGHT, n) for c in (9, 10, 12)) if q else
               ((it, c) for n in ((4, 5, 6, 7) if deep else (4, 5, 6)) for it in itertools.combinations(TIGHT, n) for c in (7, 8, 9, 10, 11, 12)), exact,
               bound="all %s sets over 20 kinds of items of weight 2..9, capacities %s" % (
                   ("5-item", "9, 10 and 12") if q else ("4- to %d-item" % (7 if deep else 6), "7..12"))),
        Domain("large values", lambda: ((it, c) for n in (1, 2, 3, 4, 5, 6) for it in
                                        itertools.permutations(bigs, n) if n < 5 or not q or it[0] == bigs[0]
                                        for c in (3, 5, 6, 7, 8, 11, 13)), big,
               bound="ordered selections of six items with values up to 2^45"),
        Domain("many items", lambda: ((n, v, w, cap, kind) for n in ((8, 12, 13, 20, 40) if q else (8, 9, 10, 11, 12, 13, 16, 20, 25, 30, 40, 60))
                                      for v in ((7, 2, 23), (5, 3, 101), (31, 1, 57)) for w in ((5, 19), (11, 37), (3, 8))
                                      for cap in (10, 50, 51, 128, 300, 1000) for kind in ("plain", "proportional", "equal")), many, timeout=120,
               bound="%d items at most, values up to 112, weights up to 37, six capacities up to 1000" % (40 if q else 60)),
        Domain("huge values", lambda: ((it, c) for pool in (huge, past) for n in (2, 3, 4, 5) for it in itertools.combinations(pool, n)
                                       for c in range(3, 16)), exact,
               bound="all sets of 2..5 of eight items of value near 2^54..2^60 or five near 10^400, capacities 3..15"),
        Domain("huge weights", lambda: ((it, c) for n in (1, 2, 3, 4, 5) for it in itertools.combinations(loads, n) for c in
                                        sorted({sum(w for _, w in s) + d for k in (1, 2, 3) for s in itertools.combinations(it, k)
                                                for d in (-1, 0)})), heavy,
               bound="all sets of up to 5 of ten items weighing near 2^40..2^63, capacities at and just below each sum of up to 3 weights"),
        Domain("annealing", lambda: ((it, c, 1 if q else 3) for it, c in ann), anneal, timeout=600,
               bound="six instances, every answer to the first %d random draws" % (1 if q else 3)),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
