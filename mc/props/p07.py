"""Steiner heuristics return trees over the terminals within the guaranteed factor of the optimum."""

import itertools
from fractions import Fraction

from mc import gen
from mc.engine import Domain, Violation, check, equal
from mc.history import call_histories
from mc.props.p05 import sparse
from mc.props.p06 import close, comps, msf_weight

PROPERTY = "P07"
ASSUMPTIONS = ["connected graphs with positive weights, as documented", "comparable vertices"]


def optimum(verts, edges, terminals):
    """Weight of a minimal Steiner tree: over all vertex sets containing the terminals."""
    rest = [v for v in verts if v not in terminals]
    best = None
    for k in range(len(rest) + 1):
        for extra in itertools.combinations(rest, k):
            S = set(terminals) | set(extra)
            es = [e for e in edges if e[0] in S and e[1] in S]
            if len(comps(S, es)) == 1:
                w = msf_weight(S, es)
                if best is None or w < best:
                    best = w
    return best


def one(m, G, verts, edges, W, terminals, opt, t):
    k = len(set(terminals))
    for name in ("distance_network_heuristic", "minimum_cost_paths_heuristic"):
        res = t.call(getattr(m, name), G, terminals)
        check(isinstance(res, tuple) and len(res) == 2, "%s returned %r", name, res)
        w, tree = res
        what = "%s with terminals %r: %r" % (name, terminals, res)
        check(all(frozenset(e) in W for e in tree), "%s: not edges of the graph", what)
        check(len({frozenset(e) for e in tree}) == len(tree), "%s: repeated edge", what)
        tot = sum(W[frozenset(e)] for e in tree)
        check(close(tot, w), "%s: edges weigh %r", what, tot)
        vs = {u for e in tree for u in e} | set(list(terminals)[:1])
        check(set(terminals) <= vs, "%s: terminals missing", what)
        check(len(comps(vs, tree)) == 1 and len(tree) == len(vs) - 1, "%s: not a tree", what)
        deg = {}
        for e in tree:
            for u in e:
                deg[u] = deg.get(u, 0) + 1
        check(all(u in terminals for u in deg if deg[u] == 1), "%s: a leaf is not a terminal", what)
        F = Fraction        # weights are exact: integers or binary fractions
        check(F(w) >= F(opt) and F(w) * k <= 2 * (k - 1) * F(opt) if k > 1 else w == 0, "%s: optimum is %r", what, opt)
        # the documented improvement: the tree is a minimum spanning tree of the
        # subgraph induced by its own vertices
        ies = [(u, v, W[frozenset((u, v))]) for u, v in itertools.combinations(sorted(vs), 2)
               if frozenset((u, v)) in W]
        check(close(msf_weight(vs, ies), w), "%s: a lighter tree on the same vertices exists", what)
        t.outcome((name, w, opt))


def run(case, t):
    from rosemary.graphs.algorithms import steiner_trees as m
    g, lab, order = case
    G = gen.build(g, lab, order)
    L = gen.LABELLERS[lab]
    verts = [L(i) for i in range(g[0])]
    edges = [(L(e[0]), L(e[1]), e[2]) for e in g[1]]
    W = {frozenset(e[:2]): e[2] for e in edges}
    before = gen.snapshot(G)
    for k in range(1, g[0] + 1):
        for i, T in enumerate(itertools.combinations(verts, k)):
            opt = optimum(verts, edges, T)
            kind = (list, set, tuple)[i % 3]
            ts = kind(T)
            one(m, G, verts, edges, W, ts, opt, t)
            equal(ts, kind(T), "the terminals")
            if k == 3:
                one(m, G, verts, edges, W, list(T)[::-1], opt, t)
    equal(gen.snapshot(G), before, "the graph")


def some_terminals(case, t):
    """Twelve terminal sets of two to n vertices."""
    from rosemary.graphs.algorithms import steiner_trees as m
    g, lab, order = case
    n = g[0]
    G = gen.build(g, lab, order)
    L = gen.LABELLERS[lab]
    verts = [L(i) for i in range(n)]
    edges = [(L(e[0]), L(e[1]), e[2]) for e in g[1]]
    W = {frozenset(e[:2]): e[2] for e in edges}
    before = gen.snapshot(G)
    for T in sorted({tuple(sorted({(a + b * j) % n for j in range(k)})) for k in (2, 3, 4, 5, n - 1)
                     for a, b in ((0, 1), (1, 2), (n - 1, 3))}):
        ts = [L(i) for i in T]
        one(m, G, verts, edges, W, ts, optimum(verts, edges, ts), t)
    equal(gen.snapshot(G), before, "the graph")


def dreyfus_wagner(n, edges, terminals):
    """Weight of a minimal Steiner tree, over all ways to split the terminals at every vertex."""
    INF = float("inf")
    d = [[INF] * n for _ in range(n)]
    for i in range(n):
        d[i][i] = 0
    for u, v, w in edges:
        d[u][v] = d[v][u] = min(w, d[u][v])
    for k in range(n):
        dk = d[k]
        for i in range(n):
            x, di = d[i][k], d[i]
            if x < INF:
                d[i] = [min(a, x + b) for a, b in zip(di, dk)]
    T = list(terminals)
    root, rest = T[0], T[1:]
    best = {1 << i: d[v] for i, v in enumerate(rest)}
    for s in range(1, 1 << len(rest)):
        if s in best:
            continue
        join = [INF] * n
        sub = (s - 1) & s
        while sub:
            a, b = best[sub], best[s ^ sub]
            join = [min(x, y + z) for x, y, z in zip(join, a, b)]
            sub = (sub - 1) & s
        best[s] = [min(x + y for x, y in zip(join, d[v])) for v in range(n)]
    return best[(1 << len(rest)) - 1][root] if rest else 0


def large(case, t):
    """Trees, grids and rings with chords: two to six terminals."""
    from rosemary.graphs.algorithms import steiner_trees as m
    n, es, top, lab, order = case
    if es == "grid":
        pairs = [(i * n + j, i * n + j + 1) for i in range(n) for j in range(n - 1)] + \
                [(i * n + j, i * n + n + j) for i in range(n - 1) for j in range(n)]
        n *= n
    elif es == "tree":
        pairs = [((i * i + i // 3) % i, i) for i in range(1, n)]
    elif es == "ring":
        pairs = [(i, (i + 1) % n) for i in range(n)]
    else:
        pairs = sparse(n, *es)
    edges = [(u, v, 1 + (i * i * 7 + i * 13 // 4) % top) for i, (u, v) in enumerate(pairs)]
    G = gen.build((n, tuple(edges)), lab, order)
    L = gen.LABELLERS[lab]
    verts = [L(i) for i in range(n)]
    ledges = [(L(u), L(v), w) for u, v, w in edges]
    W = {frozenset(e[:2]): e[2] for e in ledges}
    before = gen.snapshot(G)
    for k in (2, 3, 5, 6):
        for a, b in ((0, n // k), (n - 1, 3), (n // 2, 7)):
            T = list(dict.fromkeys((a + b * j) % n for j in range(k)))
            one(m, G, verts, ledges, W, [L(i) for i in T], dreyfus_wagner(n, edges, T), t)
    if es != "tree":
        one(m, G, verts, ledges, W, list(verts), msf_weight(verts, ledges), t)
    equal(gen.snapshot(G), before, "the graph")


def known(case, t):
    """Structured instances with Steiner points and distractors."""
    from rosemary.graphs.algorithms import steiner_trees as m
    kind, k, w = case
    es = []
    if kind == "hub":            # k terminals around a hub, rim edges slightly under two spokes
        es = [(0, i, 10) for i in range(1, k + 1)]
        es += [(i, i % k + 1, w) for i in range(1, k + 1)] if k > 2 else [(1, 2, w)]
        n = k + 1
    elif kind == "two-hubs":
        es = [(0, 1, 3)] + [(i % 2, i + 2, 5) for i in range(k)] + [(i + 2, i + 3, w) for i in range(k - 1)]
        n = k + 2
    elif kind == "subdivided":   # a path with long detours
        n = 2 * k
        es = [(i, i + 1, 1 + i % 2) for i in range(n - 1)] + [(0, n - 1, w)]
        es = [e for j, e in enumerate(es) if (e[0], e[1]) not in [(x[0], x[1]) for x in es[:j]]]
    elif kind == "dangling":     # a path of k vertices that the improvement cuts off and has to prune leaf by leaf
        c = (w + 9) // 2
        ps = list(range(3, k + 3))
        es = [(0, 2, c), (1, 2, c), (2, k + 3, 2 * c)]
        es += [(a, b, 1) for a, b in zip([0] + ps, ps)] + [(ps[-1], 1, 2 * c - 1 - k)]
        n = k + 4
    G = gen.build((n, tuple(es)))
    verts = list(range(n))
    W = {frozenset(e[:2]): e[2] for e in es}
    if kind == "dangling":
        T = [0, 1, n - 1]
    elif kind == "hub":
        T = verts[1:]
    elif kind == "two-hubs":
        T = verts[2:]
    else:
        T = verts[::2]
    one(m, G, verts, es, W, T, optimum(verts, es, T), t)


# instances whose improved tree loses a whole path, found with every root
PRUNED = (
    (6, [(1, 0, 2), (2, 0, 4), (3, 1, 1), (4, 2, 5), (5, 3, 4), (2, 5, 3)], [4, 5, 0]),
    (6, [(1, 0, 5), (2, 0, 5), (3, 2, 2), (4, 0, 5), (5, 3, 2), (0, 3, 7), (1, 5, 6), (4, 5, 6)], [4, 2, 1]),
    (9, [(1, 0, 6), (2, 0, 1), (3, 2, 3), (4, 0, 4), (5, 1, 3), (6, 3, 8), (7, 1, 3), (8, 7, 9), (0, 6, 8), (0, 8, 6),
         (1, 2, 5), (1, 4, 3), (1, 8, 6), (2, 5, 1), (3, 5, 6), (4, 6, 1)], [6, 5, 7]),
    (9, [(1, 0, 1), (2, 1, 4), (3, 0, 2), (4, 3, 7), (5, 1, 9), (6, 2, 8), (7, 4, 5), (8, 3, 2), (1, 7, 8), (1, 8, 6),
         (2, 7, 8), (2, 8, 3), (3, 6, 6), (4, 5, 5)], [3, 5, 6, 7]),
)


def pruned(case, t):
    from rosemary.graphs.algorithms import steiner_trees as m
    i, perm = case
    n, es, T = PRUNED[i]
    es = [(perm[a], perm[b], w) for a, b, w in es]
    T = [perm[a] for a in T]
    G = gen.build((n, tuple(es)))
    verts = list(range(n))
    W = {frozenset(e[:2]): e[2] for e in es}
    one(m, G, verts, es, W, T, optimum(verts, es, T), t)


LEVELS = ("thorough", "deep")


def domains(tier):
    big = tier != "quick"
    deep = tier == "deep"

    def small():
        i = 0
        for n in (1, 2, 3, 4):
            for g in gen.labelled_graphs(n):
                if gen.is_connected(g):
                    for wg in gen.weightings(g, (1, 2, 5) if n < 4 or big else (1, 3)):
                        i += 1
                        yield (wg, ("int", "rev", "str", "tup")[i % 4], i % 3)
        for g in gen.iso_graphs(4):
            if gen.is_connected(g):
                for wg in gen.weightings(g, (1, 2, 5)):
                    yield (wg, "int", 0)
        for g in gen.iso_graphs(5):
            if gen.is_connected(g):
                if len(g[1]) <= (10 if big else 6):
                    for wg in gen.weightings(g, (2, 3)):
                        yield (wg, "int", 1)
                for ws in ((1,), (1, 2, 3), (5, 1), (3, 2, 1, 4, 1.5), (2, 3, 3)):
                    for h in gen.relabellings(g, 5):
                        yield ((5, tuple(e + (ws[j % len(ws)],) for j, e in enumerate(h[1]))), "str", 2)
        for g in gen.iso_graphs(6) if deep else ():
            if gen.is_connected(g) and len(g[1]) <= 8:
                for wg in gen.weightings(g, (2, 3)):
                    yield (wg, "int", 2)
        for g in gen.iso_graphs(6):
            if gen.is_connected(g):
                for ws in ((1,), (4, 1, 1, 2), (2, 3, 5)) if big else ((4, 1, 1, 2), (2, 3, 5)):
                    yield ((6, tuple(e + (ws[j % len(ws)],) for j, e in enumerate(g[1]))), "int", 0)

    def structured():
        for k in range(2, 8):
            for w in (10, 15, 19, 20, 21):
                yield ("hub", k, w)
        for k in range(2, 7):
            for w in (4, 8, 11, 13):
                yield ("two-hubs", k, w)
        for k in range(2, 5):
            for w in (1, 3, 5, 9):
                yield ("subdivided", k, w)

        for k in range(2, 7):
            for w in (2 * k, 2 * k + 6):
                yield ("dangling", k, w)

    def prunings():
        for i, (n, _, _) in enumerate(PRUNED):
            if n <= 6:
                for p in itertools.permutations(range(n)):
                    yield (i, p)
            else:
                for r in range(n):
                    for s in range(1, n):
                        p = tuple((r + s * j) % n for j in range(n))
                        if len(set(p)) == n:
                            yield (i, p)

    def medium():
        for i, g in enumerate(gen.medium_graphs(big)):
            if gen.is_connected(g):
                for r in range(6) if big else (i % 6, (i + 2) % 6):
                    yield (gen.weighted(g, r), ("int", "str", "tup", "rev")[(i + r) % 4], (i + r) % 3)

    def magnitudes():
        for i, g in enumerate(gen.medium_graphs()):
            if gen.is_connected(g) and (big or i % 5 == 0):
                kind = gen.MAGNITUDES[(i // 5) % 5]
                yield (gen.scaled(gen.weighted(g, i % 6), kind), ("int", "str", "tup", "rev")[i % 4], i % 3)

    def calls():
        from rosemary.graphs.algorithms import steiner_trees as m

        def a():
            return gen.build((5, ((0, 1, 2), (1, 2, 1), (0, 2, 4), (2, 3, 1), (3, 4, 2), (0, 4, 9))))
        out = {}
        for name in ("distance_network_heuristic", "minimum_cost_paths_heuristic"):
            for T in ([0, 3], [4, 1, 2], [0, 2, 4]):
                out["%s %r" % (name, T)] = (getattr(m, name), lambda T=T: (a(), list(T)))
        return out

    return [
        Domain("small", small, run, timeout=60,
               bound="every terminal set of: all connected weighted graphs on <= 4 vertices, classes on 5 and 6 with weight patterns%s"
               % (", those on 6 with at most 8 edges with all weights 2 and 3" if deep else "")),
        Domain("structured", structured, known, bound="hub, double hub, cycle and dangling path families"),
        Domain("prunings", prunings, pruned,
               bound="four graphs whose trees lose whole paths, all (6 vertices) or affine (9) relabellings"),
        Domain("medium", medium, some_terminals, timeout=120,
               bound="up to 15 terminal sets, %s weight patterns on %s, where connected" % ("six" if big else "two of six", gen.medium_bound(big))),
        Domain("large", lambda: ((n, es, top, lab, o) for n, es in
                                 [(5, "grid"), (8, "grid"), (40, "tree"), (50, "ring"), (60, (5, 7, 90)), (70, (9, 11, 300))] +
                                 ([(10, "grid"), (100, "tree"), (100, (21, 5, 150))] if big else [])
                                 for top in (1, 9, 1000) for lab, o in ((("int", 0), ("str", 1), ("rev", 2)) if big else (("int", 2), ("str", 1)))),
               large, timeout=120, bound="grids, trees, a ring and rings with chords of up to %d vertices, up to six terminals and all" % (100 if big else 70)),
        Domain("magnitudes", magnitudes, some_terminals, timeout=120,
               bound="%s: integers that differ by one part in 2**80 or exceed every float, and fractions down to 10**-13"
               % ("the medium graphs" if big else "every fifth medium graph")),
        call_histories("call-histories", calls(), depth=2),
    ]
