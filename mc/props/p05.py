"""Shortest path algorithms are exact on every graph, source and target."""

import itertools

from mc import gen
from mc.engine import Domain, Violation, check, equal, raises
from mc.history import call_histories

PROPERTY = "P05"
ASSUMPTIONS = [
    "vertices of one graph are mutually comparable (the priority queues compare them on ties)",
    "weights set separately per direction model directed graphs, as the repository's tests do",
]
INF = float("inf")


def apsp(verts, W):
    """Reference all-pairs distances; None if there is a negative cycle (per source reachability)."""
    d = {(u, v): (0 if u == v else W.get((u, v), INF)) for u in verts for v in verts}
    for k in verts:
        for i in verts:
            for j in verts:
                if d[i, k] != INF and d[k, j] != INF and d[i, k] + d[k, j] < d[i, j]:
                    d[i, j] = d[i, k] + d[k, j]
    return d


def ref_sssp(verts, W, s):
    """Relaxation to a fixpoint; None when a negative cycle is reachable from s."""
    d = {v: INF for v in verts}
    d[s] = 0
    for r in range(len(verts)):
        ch = False
        for (u, v), w in W.items():
            if d[u] != INF and d[u] + w < d[v]:
                d[v] = d[u] + w
                ch = True
        if not ch:
            return d
    return None


def check_tree(name, res, verts, W, s, want):
    check(isinstance(res, tuple) and len(res) == 2, "%s returned %.100r", name, res)
    dist, prev = res
    if dict(dist) != want:
        raise Violation("%s from %r: distances %r, expected %r" % (name, s, dict(dist), want))
    for v in verts:
        p = prev.get(v)
        if v == s or want[v] == INF:
            check(p is None, "%s: predecessor of %r is %r", name, v, p)
            continue
        check((p, v) in W and want[p] + W[p, v] == want[v],
              "%s: predecessor %r of %r is not on a shortest path", name, p, v)
        x, k = v, 0
        while x != s:
            x = prev.get(x)
            k += 1
            check(x is not None and k <= len(verts), "%s: predecessors of %r do not lead to %r",
                  name, v, s)
    check(set(prev) <= set(verts), "%s: unknown vertices in the tree", name)


def check_path(name, path, W, s, t, d):
    path = list(path)
    check(path[:1] == [s] and path[-1:] == [t], "%s: path %r from %r to %r", name, path, s, t)
    tot = 0
    for u, v in zip(path, path[1:]):
        check((u, v) in W, "%s: %r is not an edge of path %r", name, (u, v), path)
        tot += W[u, v]
    check(tot == d, "%s: path %r has length %r, not %r", name, path, tot, d)


def check_iterator(m, G, verts, W, s, want, t):
    seen = []
    last = None
    for item in t.call(m.dijkstra_iterator, G, s):
        v, d, path = item
        check(v not in seen, "dijkstra_iterator yields %r twice", v)
        check(last is None or d >= last, "dijkstra_iterator: distances decrease")
        equal(d, want[v], "dijkstra_iterator distance of %r" % (v,))
        check_path("dijkstra_iterator", path, W, s, v, d)
        last = d
        seen.append(v)
    equal(set(seen), {v for v in verts if want[v] < INF}, "dijkstra_iterator vertices")


def undirected(case, t):
    from rosemary.graphs.algorithms import paths as m
    g, lab, order = case
    G = gen.build(g, lab, order)
    L = gen.LABELLERS[lab]
    n = g[0]
    verts = [L(i) for i in range(n)]
    W = {}
    for e in g[1]:
        w = e[2] if len(e) == 3 else 1
        W[L(e[0]), L(e[1])] = w
        W[L(e[1]), L(e[0])] = w
    D = apsp(verts, W)
    before = gen.snapshot(G)
    ints = all(isinstance(w, int) for w in W.values())
    for s in verts:
        want = {v: D[s, v] for v in verts}
        for name in ("dijkstra", "dijkstra_pairing_heap", "bellman_ford"):
            check_tree(name, t.call(getattr(m, name), G, s), verts, W, s, want)
        if ints and all(w < 10**4 for w in W.values()):     # one bucket per distance
            check_tree("dijkstra_buckets", t.call(m.dijkstra_buckets, G, s), verts, W, s, want)
        elif all(not isinstance(w, int) for w in W.values()) and any(u == s for u, _ in W):
            raises(ValueError, m.dijkstra_buckets, G, s)
        check_iterator(m, G, verts, W, s, want, t)
        for x in verts:
            r = t.call(m.dijkstra_bidirectional, G, s, x)
            if want[x] == INF:
                equal(r, INF, "dijkstra_bidirectional(%r, %r) without connection" % (s, x))
                continue
            check(isinstance(r, tuple) and len(r) == 2, "dijkstra_bidirectional returned %r", r)
            equal(r[0], want[x], "dijkstra_bidirectional(%r, %r)" % (s, x))
            check_path("dijkstra_bidirectional", r[1], W, s, x, want[x])
        t.outcome(tuple(want.values()))
    check_fw(m, G, verts, W, D, t)
    missing = {"int": -1, "rev": -99, "str": "zz", "tup": (9, 9)}[lab]
    for name in ("dijkstra", "dijkstra_pairing_heap", "bellman_ford", "dijkstra_buckets",
                 "dijkstra_iterator"):
        raises(ValueError, getattr(m, name), G, missing)
    if verts:
        raises(ValueError, m.dijkstra_bidirectional, G, missing, verts[0])
        raises(ValueError, m.dijkstra_bidirectional, G, verts[0], missing)
    equal(gen.snapshot(G), before, "the graph after the searches")


def check_fw(m, G, verts, W, D, t):
    dist, pred = t.call(m.floyd_warshall, G)
    equal({k: v for k, v in dist.items()}, D, "floyd_warshall distances")
    for u in verts:
        for v in verts:
            p = pred[u, v]
            if u == v or D[u, v] == INF:
                check(p is None, "floyd_warshall predecessor (%r, %r) is %r", u, v, p)
                continue
            x, k = v, 0
            while x != u:
                p = pred[u, x]
                check(p is not None and (p, x) in W and D[u, p] + W[p, x] == D[u, x] and k <= len(verts),
                      "floyd_warshall predecessor %r of %r from %r", p, x, u)
                x = p
                k += 1


def directed(case, t):
    """Weights set per direction: general shortest paths, negative cycles."""
    from rosemary.graphs.algorithms import paths as m
    from rosemary.graphs.graphs import Graph
    n, arcs, order = case
    verts = list(range(n))
    G = Graph()
    G.add_vertices(verts if order == 0 else verts[::-1])
    W = {}
    for u, v, w in (arcs if order == 0 else arcs[::-1]):
        G[u][v] = w
        W[u, v] = w
    refs = {s: ref_sssp(verts, W, s) for s in verts}
    nonneg = all(w >= 0 for w in W.values())
    for s in verts:
        want = refs[s]
        if want is None:
            raises(ValueError, m.bellman_ford, G, s, what="bellman_ford with a negative cycle")
            t.outcome((s, "cycle"))
        else:
            check_tree("bellman_ford", t.call(m.bellman_ford, G, s), verts, W, s, want)
            if nonneg:
                for name in ("dijkstra", "dijkstra_buckets", "dijkstra_pairing_heap"):
                    check_tree(name, t.call(getattr(m, name), G, s), verts, W, s, want)
                check_iterator(m, G, verts, W, s, want, t)
            t.outcome((s, tuple(want.values())))
    if any(refs[s] is None for s in verts):
        raises(ValueError, m.floyd_warshall, G, what="floyd_warshall with a negative cycle")
    else:
        check_fw(m, G, verts, W, {(u, v): refs[u][v] for u in verts for v in verts}, t)


def shaped(case, t):
    """Larger graphs with known structure."""
    kind, n, mode = case
    es = {
        "path": [(i, i + 1, 1 + (i * 7) % 5) for i in range(n - 1)],
        "cycle": [(i, (i + 1) % n, 1 + (i * 3) % 4) for i in range(n)],
        "grid": [(i * n + j, i * n + j + 1, 1 + (i * 5 + j * 3) % 7) for i in range(n) for j in range(n - 1)]
        + [(i * n + j, i * n + n + j, 1 + (i * 2 + j * 11) % 6) for i in range(n - 1) for j in range(n)],
        "ladder": [(i, i + 1, 1) for i in range(n - 1)] + [(i, i + 2, 3) for i in range(n - 2)]
        + [(0, i, 2 * i + 1) for i in range(3, n)],
        "dense": [(i, j, (i * 17 + j * 31) % 13 + abs(i - j)) for i in range(n) for j in range(i)],
        "late": [(0, i, 100 - i) for i in range(1, n)] + [(i, i + 1, 1) for i in range(1, n - 1)],
    }[kind]
    nn = n * n if kind == "grid" else n
    if mode == "half":
        es = [(u, v, w + 0.5) for u, v, w in es]
    if mode == "zero":
        es = [(u, v, w // 3) for u, v, w in es]
    undirected(((nn, tuple(es)), "int" if n % 2 else "str", 0), t)


def sparse(n, a, c, m):
    """n vertices in a ring with m chords from a recurrence."""
    es = {(i, i + 1) for i in range(n - 1)}
    x = 1
    for i in range(m):
        x = (a * x + c) % (n * n)
        u, v = divmod(x, n)
        if u != v and (v, u) not in es:
            es.add((u, v))
    return sorted(es)


def large(case, t):
    """Hundreds of vertices: three sources, all targets (bidirectional: every seventh)."""
    from rosemary.graphs.algorithms import paths as m
    n, es, top, kind, lab, order = case
    if es == "grid":
        pairs = [(i * n + j, i * n + j + 1) for i in range(n) for j in range(n - 1)] + \
                [(i * n + j, i * n + n + j) for i in range(n - 1) for j in range(n)]
        n *= n
    else:
        pairs = sparse(n, *es)
    w = lambda i: (1 + (i * i * 7 + i * 13 // 4) % top) * (1 if kind != "half" else 0.5)
    g = (n, tuple((u, v, w(i)) for i, (u, v) in enumerate(pairs)))
    L = gen.LABELLERS[lab]
    G = gen.build(g, lab, order)
    verts = [L(i) for i in range(n)]
    W = {}
    for i, (u, v, x) in enumerate(g[1]):
        W[L(u), L(v)] = x
        W[L(v), L(u)] = x
        if kind == "directed":
            W[L(v), L(u)] = G[L(v)][L(u)] = w(i + 5)
    full = n <= 70
    refs = {}
    for i in range(n) if full else (0, n // 2, n - 1):
        s = verts[i]
        want = refs[s] = ref_sssp(verts, W, s)
        if full and i % 23:
            continue
        for name in ("dijkstra", "dijkstra_pairing_heap", "bellman_ford") + (() if kind == "half" else ("dijkstra_buckets",)):
            check_tree(name, t.call(getattr(m, name), G, s), verts, W, s, want)
        check_iterator(m, G, verts, W, s, want, t)
        for x in verts[::7] if kind != "directed" else ():
            r = t.call(m.dijkstra_bidirectional, G, s, x)
            equal(r[0], want[x], "dijkstra_bidirectional(%r, %r)" % (s, x))
            check_path("dijkstra_bidirectional", r[1], W, s, x, want[x])
    if full:
        check_fw(m, G, verts, W, {(u, v): refs[u][v] for u in verts for v in verts}, t)
    t.outcome(case)


LEVELS = ("thorough", "deep")


def domains(tier):
    big = tier != "quick"
    deep = tier == "deep"

    def und():
        for n in range(0, 4):
            for g in gen.labelled_graphs(n):
                for wg in gen.weightings(g, (0, 1, 2, 5)):
                    for lab in gen.LABELLERS:
                        for order in (0, 1, 2):
                            yield (wg, lab, order)
        i = 0
        for g in gen.labelled_graphs(4):
            for wg in gen.weightings(g, (0, 1, 3)):
                i += 1
                yield (wg, ("int", "rev", "str", "tup")[i % 4], i % 3)
        for g in gen.labelled_graphs(3):
            for wg in gen.weightings(g, (0.5, 1.25)):
                yield (wg, "int", 0)

    def und5():
        i = 0
        for g in gen.iso_graphs(5):
            for wg in gen.weightings(g, (1, 3)):
                for h in gen.relabellings(wg_edges(wg), 12 if deep else 4 if big else 2):
                    i += 1
                    yield (h, "int", i % 3)
        for g in gen.iso_graphs(6):
            if not gen.is_connected(g):
                continue
            ne = len(g[1])
            for ws in ([0, 1, 4], [3, 1], [1, 2, 2, 7, 1], [5, 4, 3, 2, 1, 0]):
                for r in range(len(ws)):
                    yield ((6, tuple(e + (ws[(j + r) % len(ws)],) for j, e in enumerate(g[1]))), "int", r % 3)
            if ne <= (11 if deep else 8 if big else 6):
                for wg in gen.weightings(g, (1, 3)):
                    yield (wg, "rev", 0)

    def wg_edges(wg):
        return wg

    def dirs():
        for n in (1, 2, 3):
            arcs = list(itertools.permutations(range(n), 2))
            for ws in itertools.product((None, -1, 0, 2, 1) if n < 3 or big else (None, -1, 0, 2), repeat=len(arcs)):
                a = tuple((u, v, w) for (u, v), w in zip(arcs, ws) if w is not None)
                for order in (0, 1):
                    yield (n, a, order)
        arcs = list(itertools.permutations(range(4), 2))
        for k in range(1, 10 if deep else 8 if big else 6):
            for sub in itertools.combinations(arcs, k):
                for ws in itertools.product((-1, 2), repeat=k):
                    yield (4, tuple((u, v, w) for (u, v), w in zip(sub, ws)), k % 2)
        # negative chains on 5 vertices: every order of a Hamiltonian chain plus one arc
        for p in itertools.permutations(range(5)):
            chain = tuple((p[i], p[i + 1], -1) for i in range(4))
            for u, v in itertools.permutations(range(5), 2):
                if (u, v) not in [c[:2] for c in chain]:
                    for w in (3, 1, 4):
                        yield (5, chain + ((u, v, w),), 0)

    def shapes():
        for mode in ("int", "half", "zero"):
            for kind, ns in (("path", (2, 9, 40)), ("cycle", (3, 8, 31)), ("grid", (2, 4, 5)),
                             ("ladder", (5, 12, 30)), ("dense", (7, 12, 20)), ("late", (5, 12, 25))):
                for n in ns:
                    yield (kind, n, mode)

    def medium():
        for i, g in enumerate(gen.medium_graphs(big)):
            for r in range(6) if big else (i % 6, (i + 1) % 6):
                yield (gen.weighted(g, r), ("int", "str", "tup", "rev")[(i + r) % 4], (i + r) % 3)

    def magnitudes():
        for i, g in enumerate(gen.medium_graphs()):
            if big or i % 3 == 0:
                kind = gen.MAGNITUDES[(i // 3) % 5]
                yield (gen.scaled(gen.weighted(g, i % 6), kind), ("int", "str", "tup", "rev")[i % 4], i % 3)

    def calls():
        from rosemary.graphs.algorithms import paths as m

        def tri():
            return gen.build((5, ((0, 1, 2), (1, 2, 1), (0, 2, 4), (2, 3, 1))))

        def tri2():
            return gen.build((4, ((0, 1, 7), (1, 2, 1), (0, 2, 4), (2, 3, 9))))
        out = {}
        for name in ("dijkstra", "dijkstra_pairing_heap", "bellman_ford", "dijkstra_buckets",
                     "dijkstra_iterator"):
            out[name] = (getattr(m, name), lambda: (tri(), 0))
            out[name + " 2"] = (getattr(m, name), lambda: (tri2(), 3))
        out["bidirectional"] = (m.dijkstra_bidirectional, lambda: (tri(), 0, 3))
        out["bidirectional none"] = (m.dijkstra_bidirectional, lambda: (tri(), 0, 4))
        out["bidirectional 2"] = (m.dijkstra_bidirectional, lambda: (tri2(), 3, 0))
        out["floyd"] = (m.floyd_warshall, lambda: (tri(),))
        out["floyd 2"] = (m.floyd_warshall, lambda: (tri2(),))
        return out

    return [
        Domain("small-weighted", und, undirected,
               bound="all weighted graphs on <= 3 vertices (4 weights, 4 label kinds, 3 insertion orders), on 4 vertices (3 weights); every source and target"),
        Domain("five-six-vertices", und5, undirected,
               bound="all isomorphism classes on 5 vertices with weights {1,3}; connected classes on 6 with weight patterns"),
        Domain("directed-negative", dirs, directed,
               bound="all arc weightings on 3 vertices; <= %d arcs from {-1,2} on 4; all chains on 5" % (9 if deep else 7 if big else 5)),
        Domain("shapes", shapes, shaped, bound="6 families up to 40 vertices, integral, fractional and zero weights"),
        Domain("medium", medium, undirected, timeout=60,
               bound="%s weight patterns on %s" % ("six" if big else "two of six", gen.medium_bound(big))),
        Domain("magnitudes", magnitudes, undirected, timeout=60,
               bound="%s: integers that differ by one part in 2**80 or exceed every float, and fractions down to 10**-13"
               % ("the medium graphs" if big else "every third medium graph")),
        Domain("large", lambda: ((n, es, top, kind, lab, o) for n, es in
                                 [(7, "grid"), (13, "grid"), (60, (5, 7, 90)), (70, (9, 11, 300)), (150, (21, 5, 200)), (300, (7, 1, 500))] +
                                 ([(20, "grid"), (65, (3, 2, 700)), (400, (13, 3, 2500))] if big else [])
                                 for top in (1, 9, 1000) for kind in ("plain", "half", "directed")
                                 for lab, o in ((("int", 0), ("str", 1), ("rev", 2)) if big else (("int", 2), ("str", 1)))),
               large, timeout=120, bound="grids up to %d vertices and rings with chords up to %d, weights up to 1000, also one per direction"
               % ((400, 400) if big else (169, 300))),
        call_histories("call-histories", calls(), depth=2),
    ]
