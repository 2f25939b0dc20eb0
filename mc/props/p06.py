"""Minimum spanning trees are minimum; spanning trees are enumerated completely, lightest first."""

import itertools

from mc import choice, gen
from mc.engine import Domain, Violation, check, equal
from mc.history import call_histories

PROPERTY = "P06"
ASSUMPTIONS = [
    "vertices of one graph are mutually comparable",
    "the enumeration of all spanning trees is asked for connected graphs (it is not defined otherwise)",
]


def comps(verts, edges):
    p = {v: v for v in verts}

    def f(x):
        while p[x] != x:
            x = p[x]
        return x
    for e in edges:
        a, b = f(e[0]), f(e[1])
        if a != b:
            p[a] = b
    out = {}
    for v in verts:
        out.setdefault(f(v), set()).add(v)
    return list(out.values())


def is_forest_spanning(verts, edges, tree):
    """tree is a maximal spanning forest of (verts, edges)."""
    es = {frozenset(e[:2]) for e in edges}
    if len({frozenset(e) for e in tree}) != len(tree):
        return False
    if any(frozenset(e) not in es for e in tree):
        return False
    return (sorted(map(sorted, comps(verts, tree))) == sorted(map(sorted, comps(verts, edges)))
            and len(tree) == len(verts) - len(comps(verts, tree)))


def all_spanning(verts, edges):
    """Every spanning tree as a sorted edge tuple with its weight (connected graphs)."""
    k = len(verts) - 1
    out = {}
    for sub in itertools.combinations(edges, k):
        if len(comps(verts, sub)) == 1:
            key = tuple(sorted(tuple(sorted(e[:2])) for e in sub))
            out[key] = sum(e[2] for e in sub)
    return out


def msf_weight(verts, edges):
    """Reference: Boruvka-free greedy by exhaustive swap (Kruskal on sorted edges)."""
    p = {v: v for v in verts}

    def f(x):
        while p[x] != x:
            x = p[x]
        return x
    tot = 0
    for e in sorted(edges, key=lambda e: e[2]):
        a, b = f(e[0]), f(e[1])
        if a != b:
            p[a] = b
            tot += e[2]
    return tot


def norm(tree):
    return sorted(tuple(sorted(e)) for e in tree)


def check_mst(name, res, verts, edges, want):
    check(isinstance(res, tuple) and len(res) == 2, "%s returned %.100r", name, res)
    w, tree = res
    check(is_forest_spanning(verts, edges, tree), "%s: %r is not a spanning tree/forest", name, tree)
    W = {frozenset(e[:2]): e[2] for e in edges}
    s = sum(W[frozenset(e)] for e in tree)
    check(close(s, w), "%s: reported weight %r, edges weigh %r", name, w, s)
    check(close(w, want), "%s: weight %r, minimum is %r", name, w, want)
    equal(list(tree), norm(tree), "%s: edges sorted, each with its smaller endpoint first" % name)


def close(a, b):
    """Equal, or floats equal up to rounding."""
    return a == b or (isinstance(a, float) or isinstance(b, float)) and max(abs(a), abs(b)) < 10**6 and abs(a - b) < 1e-9


def mst(case, t):
    from rosemary.graphs.algorithms import spanning_trees as m
    g, lab, order, depth = case
    G = gen.build(g, lab, order)
    L = gen.LABELLERS[lab]
    n = g[0]
    verts = [L(i) for i in range(n)]
    edges = [(L(e[0]), L(e[1]), e[2] if len(e) == 3 else 1) for e in g[1]]
    before = gen.snapshot(G)
    choice.reset()
    want = msf_weight(verts, edges)
    check_mst("kruskal", t.call(m.kruskal, G), verts, edges, want)

    def body(script):
        check_mst("cheriton_tarjan", t.call(m.cheriton_tarjan, G), verts, edges, want)
    if depth:
        choice.explore(body, depth=depth, wide=max(n, 2), tracker=t)
    else:
        body([])
    for root in [None] + verts:
        if root is None and not verts:
            continue
        r = root if root is not None else None
        res = t.call(m.prim, G, root)
        comp = None
        for c in comps(verts, edges):
            if root in c:
                comp = c
        if root is None:
            # an arbitrary root: the tree of one of the components
            touched = {u for e in res[1] for u in e}
            cand = [c for c in comps(verts, edges) if touched <= c and (touched or len(c) == 1)]
            check(cand, "prim(root=None) gave %r", res)
            comp = sorted(cand, key=len)[-1] if touched else cand[0]
        ce = [e for e in edges if e[0] in comp]
        check_mst("prim(root=%r)" % (r,), res, sorted(comp), ce, msf_weight(comp, ce))
        if root is not None:
            w, prev = t.call(m.prim, G, root, edge_list=False)
            check(prev.get(root) is None, "prim: the root has a predecessor")
            tree = [(u, p) for u, p in prev.items() if p is not None]
            equal({u for u, _ in tree}, comp - {root}, "prim: vertices of the predecessor dict")
            check_mst("prim(edge_list=False)", (w, norm(tree)), sorted(comp), ce, msf_weight(comp, ce))
            for u in comp:
                x, k = u, 0
                while x != root:
                    x = prev[x]
                    k += 1
                    check(k <= n, "prim: predecessors of %r do not lead to the root", u)
    t.outcome((want, len(edges)))
    equal(gen.snapshot(G), before, "the graph after the algorithms")


def trees(case, t):
    from rosemary.graphs.algorithms import spanning_trees as m
    g, lab, order = case
    G = gen.build(g, lab, order)
    L = gen.LABELLERS[lab]
    verts = [L(i) for i in range(g[0])]
    edges = [(L(e[0]), L(e[1]), e[2] if len(e) == 3 else 1) for e in g[1]]
    before = gen.snapshot(G)
    want = all_spanning(verts, edges)
    seen = set()
    last = None
    weights = []
    for w, tree in t.call(m.gabow, G):
        key = tuple(norm(tree))
        check(key in want, "%r is not a spanning tree", tree)
        check(key not in seen, "spanning tree %r appears twice", tree)
        check(close(want[key], w), "tree %r has weight %r, reported %r", tree, want[key], w)
        check(last is None or w >= last or close(w, last), "weights decrease from %r to %r", last, w)
        last = w
        seen.add(key)
        weights.append(w)
        t.calls += 1
    equal(len(seen), len(want), "number of spanning trees")
    for k in {1, 2, len(want) - 1, len(want), len(want) + 3}:
        if k >= 1:
            got = [w for w, _ in t.call(m.gabow, G, k)]
            check(len(got) == min(k, len(want)) and all(close(a, b) for a, b in zip(got, weights)),
                  "the first %d trees weigh %r, expected %r", k, got, weights[:k])
    t.outcome(tuple(weights))
    equal(gen.snapshot(G), before, "the graph after the enumeration")


def few(kind, n):
    """Graphs with few spanning trees for their size."""
    if kind == "cycle":
        return n, [(i, (i + 1) % n, 1 + i * 7 % 11) for i in range(n)]
    if kind == "tailed":        # a cycle with a pendant path
        return n, [(i, (i + 1) % (n // 2), 1 + i * 7 % 11) for i in range(n // 2)] + [(i, i + 1, i % 5) for i in range(n // 2 - 1, n - 1)]
    if kind == "theta":         # a cycle with a chord
        return n, [(i, (i + 1) % n, 1 + i * 5 % 7) for i in range(n)] + [(0, n // 3, 3)]
    if kind == "triangles":     # a row of n triangles
        return 2 * n + 1, [e for i in range(n) for e in ((2 * i, 2 * i + 1, 1 + i % 3), (2 * i + 1, 2 * i + 2, 2), (2 * i, 2 * i + 2, 3 - i % 2))]
    if kind == "tree":
        return n, [(i // 2, i, 1 + i * 3 % 7) for i in range(1, n)]
    raise KeyError(kind)


def few_trees(case, t):
    kind, n, scale = case
    n, es = few(kind, n)
    g = (n, tuple((min(u, v), max(u, v), w) for u, v, w in es))
    trees((gen.scaled(g, scale) if scale else g, "int", 0), t)


def big_mst(case, t):
    kind, n = case
    es = {
        "complete": [(i, j, (i * 7 + j * 13) % 31) for i in range(n) for j in range(i)],
        "cycle": [(i, (i + 1) % n, (i * 5) % 11) for i in range(n)],
        "two": [(i, i + 1, i % 3) for i in range(n // 2 - 1)] + [(i, i + 1, 2) for i in range(n // 2, n - 1)],
        "wheel": [(0, i, i % 4) for i in range(1, n)] + [(i, i + 1, 1) for i in range(1, n - 1)],
        "reverse": [(i, j, 100 - i - j) for i in range(n) for j in range(max(0, i - 3), i)],
    }[kind]
    mst(((n, tuple((min(u, v), max(u, v), w) for u, v, w in es)), "int", 0, 0), t)


def domains(tier):
    big = tier == "thorough"

    def small():
        for n in range(1, 4):
            for g in gen.labelled_graphs(n):
                for wg in gen.weightings(g, (1, 2, -1, 0)):
                    for lab in gen.LABELLERS:
                        yield (wg, lab, 0, 3)
                    yield (wg, "int", 1, 3)
                    yield (wg, "int", 2, 3)
        i = 0
        for g in gen.labelled_graphs(4):
            for wg in gen.weightings(g, (1, 2, 3) if big else (1, 2)):
                i += 1
                yield (wg, ("int", "rev", "str", "tup")[i % 4], i % 3, 3)
        for g in gen.iso_graphs(5):
            for wg in gen.weightings(g, (1, 2)):
                i += 1
                yield (wg, "int", i % 3, 2 if big else 1)
        for g in gen.iso_graphs(4):
            if gen.is_connected(g):
                es = g[1]
                for p in itertools.permutations(range(1, len(es) + 1)):
                    yield ((4, tuple(e + (w,) for e, w in zip(es, p))), "str", 0, 1)
        for g in gen.iso_graphs(6):
            for r in range(4):
                ws = (3, 1, 2, 2.5, 7, 1)
                yield ((6, tuple(e + (ws[(j * (r + 1) + r) % 6],) for j, e in enumerate(g[1]))), "int", r % 3, 1)

    def enum():
        for n in range(1, 4):
            for g in gen.labelled_graphs(n):
                if gen.is_connected(g):
                    for wg in gen.weightings(g, (1, 2, -1, 3)):
                        for lab in gen.LABELLERS:
                            yield (wg, lab, 0)
                        yield (wg, "int", 1)
        i = 0
        for g in gen.labelled_graphs(4):
            if gen.is_connected(g):
                for wg in gen.weightings(g, (1, 2, 4) if big else (1, 2)):
                    i += 1
                    yield (wg, ("int", "rev", "str", "tup")[i % 4], i % 3)
        for g in gen.iso_graphs(5):
            if gen.is_connected(g):
                if len(g[1]) <= (10 if big else 7):
                    for wg in gen.weightings(g, (1, 2)):
                        yield (wg, "int", 0)
                for ws in ((1,), (1, 2, 3), (5, 1), (3, 2, 1, 4, 1.5)):
                    for h in gen.relabellings(g, 3):
                        yield ((5, tuple(e + (ws[j % len(ws)],) for j, e in enumerate(h[1]))), "int", 1)
        for g in gen.iso_graphs(6):
            if gen.is_connected(g) and len(g[1]) <= (11 if big else 8):
                for ws in ((1,), (1, 2, 3), (4, 1, 1, 2)):
                    yield ((6, tuple(e + (ws[j % len(ws)],) for j, e in enumerate(g[1]))), "int", 2)

    def medium():
        for i, g in enumerate(gen.medium_graphs(big)):
            for r in range(6) if big else (i % 6, (i + 2) % 6):
                yield (gen.weighted(g, r), ("int", "str", "tup", "rev")[(i + r) % 4], (i + r) % 3, 1)

    def medium_trees():
        for i, g in enumerate(gen.medium_graphs(big)):
            if gen.is_connected(g) and len(g[1]) <= (18 if big else 15):
                for r in (1, 2, 3, 4) if big else (1 + i % 4,):
                    yield (gen.weighted(g, r), "int", (i + r) % 3)

    def magnitudes():
        for i, g in enumerate(gen.medium_graphs()):
            if big or i % 3 == 0:
                kind = gen.MAGNITUDES[(i // 3) % 5]
                yield (gen.scaled(gen.weighted(g, i % 6), kind), ("int", "str", "tup", "rev")[i % 4], i % 3, 1)

    def scaled_trees():
        for i, g in enumerate(gen.iso_graphs(5)):
            if gen.is_connected(g) and len(g[1]) <= 8:
                for kind in gen.MAGNITUDES:
                    yield (gen.scaled(gen.weighted(g, i % 6), kind), ("int", "str", "tup", "rev")[i % 4], i % 3)

    def fewcases():
        for kind, ns in (("cycle", (3, 12, 33, 66)), ("tailed", (8, 30, 70)), ("theta", (9, 20, 30)), ("triangles", (2, 4, 5)),
                         ("tree", (2, 20, 70))):
            for n in ns:
                for scale in (None,) + (gen.MAGNITUDES if n < 33 or big else ("huge",)):
                    yield (kind, n, scale)

    def calls():
        from rosemary.graphs.algorithms import spanning_trees as m

        def a():
            return gen.build((4, ((0, 1, 2), (1, 2, 1), (0, 2, 4), (2, 3, 1))))

        def b():
            return gen.build((4, ((0, 1, 7), (1, 2, 1), (0, 2, 4), (2, 3, 9), (0, 3, 2))))
        out = {}
        for name, gr in (("a", a), ("b", b)):
            out["prim " + name] = (m.prim, lambda gr=gr: (gr(), 1))
            out["prim dict " + name] = (m.prim, lambda gr=gr: (gr(), 0, False))
            out["kruskal " + name] = (m.kruskal, lambda gr=gr: (gr(),))
            out["cheriton_tarjan " + name] = (m.cheriton_tarjan, lambda gr=gr: (gr(),))
            out["gabow " + name] = (m.gabow, lambda gr=gr: (gr(),))
            out["gabow 2 " + name] = (m.gabow, lambda gr=gr: (gr(), 2))
        return out

    return [
        Domain("minimum", small, mst, bound="all weighted graphs on <= 4 vertices, classes on 5 with weights {1,2}, 6 with patterns; every root; random vertex choices enumerated to depth 1-3"),
        Domain("enumeration", enum, trees, bound="all connected weighted graphs on <= 4 vertices, classes on 5, sparse classes on 6"),
        Domain("larger", [(k, n) for k in ("complete", "cycle", "two", "wheel", "reverse") for n in (3, 8, 20, 60)],
               big_mst, bound="5 families up to 60 vertices"),
        Domain("medium", medium, mst, timeout=60,
               bound="%s weight patterns on %s" % ("six" if big else "two of six", gen.medium_bound(big))),
        Domain("medium enumeration", medium_trees, trees, timeout=120,
               bound="those with at most %d edges, %s weight patterns" % ((18, "four") if big else (15, "one of four"))),
        Domain("magnitudes", magnitudes, mst, timeout=60,
               bound="%s: integers that differ by one part in 2**80 or exceed every float, and fractions down to 10**-13"
               % ("the medium graphs" if big else "every third medium graph")),
        Domain("enumeration magnitudes", scaled_trees, trees, bound="connected classes on 5 vertices under those five kinds of weights"),
        Domain("few trees", fewcases, few_trees, timeout=120,
               bound="cycles, cycles with tails or a chord, rows of triangles and trees, up to 70 vertices: every spanning tree"),
        call_histories("call-histories", calls(), depth=2),
    ]
