"""Traveling salesman: exact solvers are optimal; every heuristic returns a closed tour
of all the points with exactly the length it reports, and 2-opt results are 2-optimal."""

import contextlib
import io
import itertools
import math

from mc import choice, gen
from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P23"
ASSUMPTIONS = ["at least two points (three for annealing, four for a random 2-opt move, twenty for crossover)",
               "lengths are compared up to a relative error of 1e-9",
               "two-opt needs symmetric distances; exact solvers accept any nonnegative matrix"]


def M():
    from rosemary.combinatorics.optimization import tsp as m
    return m


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def dist(points):
    return [[math.hypot(a[0] - b[0], a[1] - b[1]) for b in points] for a in points]


def length(D, tour):
    return sum(D[tour[i]][tour[(i + 1) % len(tour)]] for i in range(len(tour)))


def is_tour(name, tour, n):
    check(sorted(tour) == list(range(n)), "%s: %r does not visit each of %d points once", name, tour, n)


def optimum(D):
    n = len(D)
    if n == 1:
        return D[0][0]
    return min(length(D, (0,) + p) for p in itertools.permutations(range(1, n)))


def two_optimal(name, D, tour):
    n = len(tour)
    for i in range(n):
        for j in range(i + 2, n):
            a, b = tour[i], tour[(i + 1) % n]
            c, d = tour[j], tour[(j + 1) % n]
            tol = 2e-7 + (1e-12 * (D[a][b] + D[c][d]) if isinstance(D[a][b], float) else 0)
            check(D[a][b] + D[c][d] - D[a][c] - D[b][d] <= tol,
                  "%s: tour %r is improved by exchanging edges %r and %r", name, tour, (a, b), (c, d))


def judge(t, D, n, args, symmetric=True, close=close):
    m = M()
    best = optimum(D)
    for name in ("depth_first", "branch_and_bound"):
        v, tour = t.call(getattr(m, name), *args)
        is_tour(name, tour, n)
        check(close(v, length(D, tour)), "%s: reported %r, the tour %r has length %r", name, v, tour,
              length(D, tour))
        check(close(v, best), "%s: found %r, the optimum is %r", name, v, best)
    v, tour = t.call(m.farthest_insertion, *args)
    is_tour("farthest_insertion", tour, n)
    check(close(v, length(D, tour)), "farthest_insertion: reported %r, the tour has length %r", v,
          length(D, tour))
    kw = dict(edges=True)
    edges = t.call(m.farthest_insertion, *args, **kw)
    check(edges == {(tour[i], tour[(i + 1) % n]) for i in range(n)},
          "farthest_insertion: edges %r of the tour %r", edges, tour)
    if symmetric:
        for name in ("two_opt", "steepest_ascent_two_opt"):
            v2, tour2 = t.call(getattr(m, name), *args)
            is_tour(name, tour2, n)
            check(close(v2, length(D, tour2)), "%s: reported %r, the tour %r has length %r", name, v2,
                  tour2, length(D, tour2))
            two_optimal(name, D, tour2)
            if name[0] == "s":
                check(v2 <= v or close(v2, v), "%s: %r is longer than the starting tour %r", name, v2, v)
    return best


def euclid(case, t):
    m = M()
    pts = [tuple(p) for p in case]
    D = dist(pts)
    got = t.call(m.euclidean_distance_matrix, pts)
    for i in range(len(pts)):
        for j in range(len(pts)):
            if i != j:
                check(close(got[i][j], D[i][j]), "distance between %r and %r is %r", pts[i], pts[j],
                      got[i][j])
    keep = list(pts)
    best = judge(t, D, len(pts), (pts,))
    check(close(best, judge(t, D, len(pts), (pts, m.euclidean_distance_matrix(pts)))), "optimum changed")
    equal(pts, keep, "the points")
    for p in itertools.islice(itertools.permutations(range(len(pts))), 6):
        check(close(m.cost(list(p), got, len(pts)), length(D, p)), "cost of %r", p)
    t.outcome(round(best, 6))


def matrices(case, t):
    n, vals, sym = case
    D = [[0] * n for _ in range(n)]
    it = iter(vals)
    for i in range(n):
        for j in range(i) if sym else range(n):
            if i != j:
                D[i][j] = next(it)
                if sym:
                    D[j][i] = D[i][j]
    pts = [(10 * i, i * i) for i in range(n)]      # unrelated to the matrix
    keep = [list(r) for r in D]
    best = judge(t, D, n, (pts, D), symmetric=sym)
    equal(D, keep, "the distance matrix")
    Di = [list(r) for r in D]
    for i in range(n):
        Di[i][i] = float("inf")
    judge(t, D, n, (pts, Di), symmetric=sym)
    t.outcome((case, best))


def magnitudes(case, t):
    """Exact distances: the arithmetic must be exact too."""
    n, vals, sym, kind, diag = case
    it = iter(gen.scaled_numbers(vals, kind))
    D = [[diag] * n for _ in range(n)]
    for i in range(n):
        for j in range(i) if sym else range(n):
            if i != j:
                D[i][j] = next(it)
                if sym:
                    D[j][i] = D[i][j]
    keep = [list(r) for r in D]
    best = judge(t, D, n, ([(10 * i, i * i) for i in range(n)], D), symmetric=sym, close=lambda a, b: a == b)
    equal(D, keep, "the distance matrix")
    t.outcome((case, best))


def scaled_points(case, t):
    """Scaling the plane by a power of two scales every (floating point) length by exactly as much."""
    pts, k = case
    pts = [(math.ldexp(x, k), math.ldexp(y, k)) for x, y in pts]
    best = judge(t, dist(pts), len(pts), (pts,), close=lambda a, b: abs(a - b) <= 1e-9 * max(abs(a), abs(b)))
    t.outcome((k, math.frexp(best)[1]))


def spread(n, a, b, c):
    return [((a * i * i + b * i) % c, (b * i * i * i + a * i + 3) % c) for i in range(n)]


def eight(case, t):
    """Seven to nine points in the plane, or as many by matrix, against all their tours."""
    n, a, b, c, sym = case
    if sym is None:
        pts = spread(n, a, b, c)
        best = judge(t, dist(pts), n, (pts,))
    else:
        D = [[(1 + (a * i * j + b * (i ^ j) + (0 if sym else i * i)) % c) if i != j else 0 for j in range(n)] for i in range(n)]
        best = judge(t, D, n, ([(i, 0) for i in range(n)], D), symmetric=sym)
    t.outcome((case, best))


def heuristics(case, t):
    """Dozens of points: tours of all of them, of the length reported, that no exchange of two edges shortens."""
    m = M()
    n, a, b, c, matrix = case
    pts = spread(n, a, b, c)
    D = dist(pts)
    if matrix:
        D = [[(1 + (a * i * j + b * (i ^ j)) % c) if i != j else 0 for j in range(n)] for i in range(n)]
    args = (pts, D) if matrix else (pts,)
    start = None
    for name in ("farthest_insertion", "two_opt", "steepest_ascent_two_opt"):
        v, tour = t.call(getattr(m, name), *args)
        is_tour(name, tour, n)
        check(close(v, length(D, tour)), "%s: reported %r, the tour %r has length %r", name, v, tour, length(D, tour))
        if name[0] == "f":
            start = v
            edges = t.call(m.farthest_insertion, *args, edges=True)
            check(edges == {(tour[i], tour[(i + 1) % n]) for i in range(n)}, "farthest_insertion: edges %r of the tour %r", edges, tour)
        else:
            two_optimal(name, D, tour)
        if name[0] == "s":
            check(v <= start or close(v, start), "%s: %r is longer than the starting tour %r", name, v, start)
    t.outcome((case, start))


def random_move(case, t):
    m = M()
    n, rot = case
    path = [(i * rot + 1) % n for i in range(n)] if math.gcd(rot, n) == 1 else list(range(n))
    seen = set()

    def body(script):
        keep = list(path)
        new = t.call(m.random_two_opt, path)
        equal(path, keep, "the path")
        check(sorted(new) == sorted(path), "random_two_opt(%r) -> %r", path, new)
        E1 = {frozenset((path[i], path[(i + 1) % n])) for i in range(n)}
        E2 = {frozenset((new[i], new[(i + 1) % n])) for i in range(n)}
        check(len(E1 - E2) in (0, 1, 2), "random_two_opt exchanges edges %r", E1 - E2)
        seen.add(tuple(new))
    choice.explore(body, 3, wide=n, tracker=t)
    check(len(seen) > 1, "random_two_opt always gives %r", seen)
    t.outcome((case, len(seen)))


def anneal(case, t):
    m = M()
    pts, depth, stream = case
    pts = [tuple(p) for p in pts]
    D = dist(pts)
    best = optimum(D)

    def body(script):
        with contextlib.redirect_stdout(io.StringIO()):
            v, tour = t.call(m.simulated_annealing_two_opt, pts)
        is_tour("annealing", tour, len(pts))
        check(close(v, length(D, tour)), "annealing: reported %r, the tour has length %r", v, length(D, tour))
        check(v >= best - 1e-9, "annealing beats the optimum")
    choice.explore(body, depth, wide=2, tracker=t, stream=stream)
    t.outcome((case, best))


def genetic(case, t):
    from rosemary.combinatorics.optimization.genetic_tsp import TravelingSalesman
    n, shape, pop, gens, depth, stream = case
    pts = layout(n, shape)
    D = dist(pts)

    def body(script):
        with contextlib.redirect_stdout(io.StringIO()):
            T = TravelingSalesman(pts)
            v, tour = t.call(T.solve, pop, gens)
        is_tour("genetic", tour, n)
        check(close(v, length(D, tour)), "genetic: reported %r, the tour %r has length %r", v, tour,
              length(D, tour))
    choice.explore(body, depth, wide=3, tracker=t, stream=stream)
    t.outcome(case)


def layout(n, shape):
    if shape == 0:
        return [(math.cos(6.28318 * i / n) * 100, math.sin(6.28318 * i / n) * 100) for i in range(n)]
    if shape == 1:
        return [((i * 37) % 101, (i * i * 11) % 97) for i in range(n)]
    return [(i % 5, i // 5) for i in range(n)]


def genetic_opt(case, t):
    """The local search of the genetic solver from every starting order."""
    from rosemary.combinatorics.optimization.genetic_tsp import TravelingSalesman
    pts, perm = case
    T = TravelingSalesman([tuple(p) for p in pts])
    D = dist(pts)
    path = list(perm)
    start = length(D, path)
    check(close(T.cost(path), start), "cost of %r is %r", perm, T.cost(path))
    v, tour = t.call(T.two_opt, path)
    equal(path, list(perm), "the starting path")
    is_tour("two_opt", tour, len(pts))
    check(close(v, length(D, tour)), "two_opt: reported %r, the tour %r has length %r", v, tour,
          length(D, tour))
    check(v <= start + 1e-9, "two_opt made the tour longer")
    t.outcome((case, round(v, 6)))


def crossover(case, t):
    """Every choice the recombination of two tours can make."""
    from rosemary.combinatorics.optimization.genetic_tsp import TravelingSalesman
    n, shape, a, b = case
    pts = layout(n, shape)
    D = dist(pts)
    T = TravelingSalesman(pts)
    A = [(i * a + 3) % n for i in range(n)]
    B = [(i * b) % n for i in range(n)][::-1]

    def body(script):
        ka, kb = list(A), list(B)
        for v, tour in t.call(T.mgkrec, A, B):
            is_tour("recombination", tour, n)
            check(close(v, length(D, tour)), "recombination: reported %r, the tour has length %r", v,
                  length(D, tour))
        equal((A, B), (ka, kb), "the parents")
    choice.explore(body, 3, wide=5, tracker=t)
    t.outcome(case)


def calls():
    m = M()
    P = lambda: ([(0, 0), (3, 0), (3, 4), (0, 4), (1, 2)],)
    Q = lambda: ([(0, 0), (1, 0), (2, 0), (3, 0)], [[0, 9, 1, 9], [9, 0, 9, 1], [1, 9, 0, 9], [9, 1, 9, 0]])
    return {"%s %s" % (f, k): (getattr(m, f), a) for k, a in (("P", P), ("Q", Q))
            for f in ("depth_first", "branch_and_bound", "farthest_insertion", "two_opt",
                      "steepest_ascent_two_opt")}


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    grid = [(x, y) for x in range(3) for y in range(3)]
    pent = [(0, 0), (7, 1), (9, 6), (4, 9), (1, 5), (5, 4)]
    ann = [((0, 0), (1, 1), (1, 0), (0, 1)), ((0, 0), (5, 1), (2, 7), (3, 3), (8, 2))]
    D = Domain
    return [
        D("grid points", lambda: (s for n in range(2, 6 if q else 8 if deep else 7) for s in
                                  (itertools.permutations(grid, n) if n < 4 else
                                   itertools.combinations(grid, n))), euclid,
          bound="ordered selections of 2-3 and sets of 4-%d points of a 3x3 grid" % (5 if q else 7 if deep else 6)),
        D("repeated points", lambda: itertools.product([(0, 0), (1, 2), (4, 1)], repeat=4 if q else 6 if deep else 5),
          euclid, bound="all %d-point sequences over 3 positions" % (4 if q else 6 if deep else 5)),
        D("orders", lambda: itertools.islice(itertools.permutations(pent), 0, 720, 4 if q else 1), euclid,
          bound="orders of six points in general position"),
        D("symmetric matrices", lambda: itertools.chain(
            ((n, v, True) for n in (2, 3, 4) for v in itertools.product((1, 2, 5), repeat=n * (n - 1) // 2)),
            ((5, v, True) for v in itertools.product((1, 4), repeat=10)),
            () if q else ((5, v, True) for v in itertools.product((1, 3, 8), repeat=10)),
            ((6, v, True) for v in itertools.product((1, 4), repeat=15)) if deep else ()), matrices,
            bound="n <= 4 over weights 1, 2, 5; n = 5 over %s" % ("1, 4" if q else "1, 3, 8; n = 6 over 1, 4" if deep else "1, 3, 8")),
        D("asymmetric matrices", lambda: itertools.chain(
            ((n, v, False) for n in (2, 3) for v in itertools.product((1, 2, 5), repeat=n * (n - 1))),
            ((4, v, False) for v in itertools.product((1, 2, 5) if deep else (1, 3), repeat=12))), matrices,
            bound="n = 3 over weights 1, 2, 5; n = 4 over %s" % ("1, 2, 5" if deep else "1, 3")),
        D("magnitudes", lambda: ((n, [1 + (a * j + j * j // b) % c for j in range(n * (n - 1))], sym, kind, diag)
                                 for n in ((3, 4, 5) if q else (3, 4, 5, 6)) for a, b, c in ((3, 2, 7), (5, 3, 11), (1, 4, 3), (7, 5, 5))
                                 for sym in (True, False) for kind in ("huge", "thin", "thirds", "near")
                                 for diag in (0, float("inf"))), magnitudes,
          bound="3..%d points, integers that differ by one part in 2**80 and fractions down to 10**-13, compared exactly" % (5 if q else 6)),
        D("scaled points", lambda: ((p, k) for k in (-300, -40, -20, 20, 300) for p in itertools.chain(
            itertools.islice(itertools.permutations(pent), 0, 720, 40 if q else 8), itertools.combinations(grid, 4))), scaled_points,
          bound="instances scaled by 2**-300 to 2**300"),
        D("seven to nine", lambda: ((n, a, b, c, sym) for n in ((7, 8) if q else (7, 8, 9)) for a, b, c in
                                    ((3, 5, 17), (7, 2, 31), (1, 4, 101)) + (() if q else ((5, 9, 13), (2, 11, 53), (13, 6, 1009), (9, 7, 10007), (4, 3, 7))) for sym in ((None, True) if q else (None, True, False))
                                    if n < 8 or a == 3 or not q), eight,
          timeout=600, bound="7 to %d points or matrices by %d recurrences" % ((8, 3) if q else (9, 8))),
        D("dozens", lambda: ((n, a, b, c, mx) for n in ((9, 12, 20) if q else (9, 10, 12, 16, 20, 25, 30, 40)) for a, b, c in
                             ((3, 5, 17), (7, 2, 31), (1, 4, 101), (11, 3, 1009)) for mx in (False, True)), heuristics,
          timeout=300, bound="heuristics on up to %d points and matrices by four recurrences" % (20 if q else 40)),
        D("random move", lambda: ((n, r) for n in range(4, 9) for r in (1, 3, 5)), random_move,
          bound="4..8 points, every answer to the first three draws"),
        D("annealing", lambda: ((p, 1, s) for p in ann for s in ((0,) if q else (0, 1, 2))), anneal,
          timeout=600, bound="two instances, every answer to the first draw"),
        D("local search", lambda: ((tuple(pent), (0,) + p) for p in itertools.permutations(range(1, 6))
                                   ) if q else ((tuple(ps), p) for ps in (pent, grid[:7]) for p in
                                                itertools.permutations(range(len(ps)))), genetic_opt,
          bound="every starting order"),
        D("recombination", lambda: ((n, s, a, b) for n in (20, 21, 23) for s in range(3)
                                    for a in (1, 2, 11) for b in (1, 4, 19)
                                    if math.gcd(a, n) == 1 and math.gcd(b, n) == 1), crossover,
          timeout=120, bound="20, 21 and 23 points, 5 answers to each of the three draws"),
        D("genetic", lambda: ((n, s, p, g, 1, st) for n in (20, 22) for s in range(3) for p in (2, 3, 4)
                              for g in (0, 1, 4) for st in ((0,) if q else range(5))), genetic, timeout=600,
          bound="20 and 22 points, three layouts, populations 2-4, <= 4 generations"),
        call_histories("histories", calls(), depth=2),
    ]
