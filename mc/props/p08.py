"""Searches visit exactly what is reachable, in a legal order; components partition the graph."""

import itertools

from mc import gen
from mc.engine import Domain, Violation, check, equal
from mc.history import call_histories

PROPERTY = "P08"
ASSUMPTIONS = ["the graph is not modified while a search over it is being consumed"]


def dists(adj, s):
    d = {s: 0}
    todo = [s]
    for u in todo:
        for v in adj[u]:
            if v not in d:
                d[v] = d[u] + 1
                todo.append(v)
    return d


def legal_bfs(adj, order, s, what):
    """Each vertex is discovered by the earliest possible parent, parents in order."""
    pos = {v: i for i, v in enumerate(order)}
    last = -1
    for v in order[1:]:
        p = min((pos[u] for u in adj[v] if u in pos and pos[u] < pos[v]), default=None)
        check(p is not None, "%s: %r appears before any neighbour", what, v)
        check(p >= last, "%s: %r is out of breadth-first order", what, v)
        last = p


def legal_dfs(adj, order, what):
    visited = set(order[:1])
    path = list(order[:1])
    for v in order[1:]:
        while path and not [w for w in adj[path[-1]] if w not in visited]:
            path.pop()
        check(path and v in adj[path[-1]], "%s: %r is out of depth-first order", what, v)
        visited.add(v)
        path.append(v)


def run(case, t):
    from rosemary.graphs.algorithms import traversal as tr, connectivity as co
    g, lab, order = case
    G = gen.build(g, lab, order)
    L = gen.LABELLERS[lab]
    verts = [L(i) for i in range(g[0])]
    adj = {L(u): {L(v) for v in nb} for u, nb in gen.adjacency(g).items()}
    before = gen.snapshot(G)
    seen_comps = set()
    for s in verts:
        d = dists(adj, s)
        bfs = list(t.call(tr.breadth_first_search, G, s))
        dfs = list(t.call(tr.depth_first_search, G, s))
        for name, o in (("breadth first", bfs), ("depth first", dfs)):
            check(o[:1] == [s], "%s search starts with %r", name, o[:1])
            check(len(o) == len(set(o)) and set(o) == set(d), "%s search from %r visits %r", name, s, o)
        check([d[v] for v in bfs] == sorted(d.values()), "breadth first search from %r: %r", s, bfs)
        legal_bfs(adj, bfs, s, "breadth first search from %r: %r" % (s, bfs))
        legal_dfs(adj, dfs, "depth first search from %r: %r" % (s, dfs))
        for k in range(0, len(d) + 1):
            o = list(t.call(tr.breadth_first_search, G, s, max_depth=k))
            equal(o, [v for v in bfs if d[v] <= k] if len(o) == len(set(o)) else None,
                  "breadth first search from %r to depth %d" % (s, k))
            o = list(t.call(tr.depth_first_search, G, s, max_depth=k))
            check(o[:1] == [s] and len(o) == len(set(o)) and all(v in d and d[v] <= k for v in o),
                  "depth first search from %r to depth %d: %r", s, k, o)
            for i, v in enumerate(o[1:], 1):
                check(adj[v] & set(o[:i]), "depth-limited search: %r is not next to an earlier vertex", v)
            if k >= 1:
                check(adj[s] <= set(o), "depth-limited search from %r misses a neighbour: %r", s, o)
            if len(d) - 1 == sum(len(adj[v]) for v in d) // 2:      # a tree: depths are unambiguous
                equal(set(o), {v for v in d if d[v] <= k}, "depth-limited search of a tree")
            if k >= len(d) - 1:
                equal(set(o), set(d), "depth-limited search with room for everything")
        bt = t.call(tr.breadth_first_search_tree, G, s)
        equal(set(bt), set(d), "breadth first tree vertices")
        equal(bt[s], None, "breadth first tree root")
        for v in d:
            if v != s:
                check(bt[v] in adj[v] and d[bt[v]] == d[v] - 1, "breadth first tree: parent of %r is %r", v, bt[v])
        dt = t.call(tr.depth_first_search_tree, G, s)
        equal(set(dt), set(d), "depth first tree vertices")
        equal(dt[s], None, "depth first tree root")
        anc = {}
        for v in d:
            x, a, k = v, [], 0
            while x is not None:
                a.append(x)
                check(x == s or (dt[x] in adj[x]), "depth first tree: parent of %r is %r", x, dt[x])
                x = dt[x]
                k += 1
                check(k <= len(d), "depth first tree has a cycle")
            anc[v] = set(a)
        for u in d:
            for v in adj[u]:
                check(u in anc[v] or v in anc[u], "depth first tree %r: cross edge (%r, %r)", dt, u, v)
        c = t.call(co.connected_component, G, s)
        check(len(c) == len(set(c)) and set(c) == set(d), "connected_component(%r) is %r", s, c)
        seen_comps.add(frozenset(d))
        t.outcome((tuple(bfs), tuple(dfs)))
    cs = t.call(co.connected_components, G)
    check(sorted(len(c) for c in cs) == sorted(len(c) for c in seen_comps)
          and {frozenset(c) for c in cs} == seen_comps, "connected_components is %r", cs)
    equal(t.call(co.is_connected, G), len(seen_comps) <= 1, "is_connected")
    equal(gen.snapshot(G), before, "the graph")


def interleaved(case, t):
    """Two searches of one graph consumed alternately do not disturb each other."""
    from rosemary.graphs.algorithms import traversal as tr
    g, schedule = case
    G = gen.build(g)
    fs = [lambda: tr.breadth_first_search(G, 0), lambda: tr.depth_first_search(G, g[0] - 1)]
    want = [list(f()) for f in fs]
    its = [f() for f in fs]
    got = [[], []]
    for i in schedule:
        t.calls += 1
        v = next(its[i], None)
        if v is not None:
            got[i].append(v)
    for i in (0, 1):
        got[i].extend(its[i])
    equal(got, want, "interleaved searches")
    t.outcome(want)


def shaped(case, t):
    kind, n = case
    es = {
        "path": [(i, i + 1) for i in range(n - 1)],
        "cycle": [(i, (i + 1) % n) for i in range(n)],
        "binary": [((i - 1) // 2, i) for i in range(1, n)],
        "star": [(0, i) for i in range(1, n)],
        "blocks": [(i, j) for i in range(n) for j in range(i) if i % 3 == j % 3],
        "ladder": [(i, i + 1) for i in range(n - 1)] + [(i, i + 5) for i in range(n - 5)],
    }[kind]
    run(((n, tuple(es)), "int", n % 3), t)


def deep_paths(case, t):
    from rosemary.graphs.algorithms import traversal as tr, connectivity as co
    n = case
    G = gen.build((n, tuple((i, i + 1) for i in range(n - 1))))
    for f in (tr.breadth_first_search, tr.depth_first_search):
        equal(list(t.call(f, G, 0)), list(range(n)), "search along a path of %d vertices" % n)
    for f in (tr.breadth_first_search_tree, tr.depth_first_search_tree):
        equal(t.call(f, G, 0), {i: (i - 1 if i else None) for i in range(n)}, "tree of a path")
    for d in sorted({0, 1, 2, 19, 20, 21, 63, 64, 65, 255, 256, 257, n - 2, n - 1, n}):
        if 0 <= d:
            for f in (tr.breadth_first_search, tr.depth_first_search):
                equal(list(t.call(f, G, 0, max_depth=d)), list(range(min(n, d + 1))),
                      "search along a path of %d vertices to depth %d" % (n, d))
    equal(co.is_connected(G), True, "is_connected")
    G.delete_edge(n // 2, n // 2 - 1)
    equal(co.is_connected(G), False, "is_connected after a cut")
    equal(sorted(map(sorted, co.connected_components(G))),
          [list(range(n // 2)), list(range(n // 2, n))], "components after a cut")
    t.outcome(n)


LEVELS = ("thorough", "deep")


def domains(tier):
    big = tier != "quick"
    deep = tier == "deep"

    def small():
        i = 0
        for n in range(0, 5):
            for g in gen.labelled_graphs(n):
                for lab in gen.LABELLERS:
                    for order in (0, 1, 2):
                        yield (g, lab, order)
        for g in gen.labelled_graphs(5):
            yield (g, "int", 0)
            yield (g, "str", 1)
        for n in (6, 7) if big else (6,):
            for g in gen.iso_graphs(n):
                for h in gen.relabellings(g, 40 if deep else 6):
                    i += 1
                    yield (h, "int", i % 3)
        if big:
            for g in gen.labelled_graphs(6):
                yield (g, "int", 0)

    def inter():
        for g in gen.iso_graphs(4):
            for sched in gen.sequences((0, 1), 10 if deep else 7, 10 if deep else 7):
                yield (g, sched)

    def calls():
        from rosemary.graphs.algorithms import traversal as tr, connectivity as co

        def a():
            return gen.build((5, ((0, 1), (1, 2), (0, 2), (3, 4))))

        def b():
            return gen.build((4, ((0, 1), (1, 3), (3, 2))))
        out = {}
        for nm, gr in (("a", a), ("b", b)):
            for f in (tr.breadth_first_search, tr.depth_first_search, tr.breadth_first_search_tree,
                      tr.depth_first_search_tree, co.connected_component):
                out["%s %s" % (f.__name__, nm)] = (f, lambda gr=gr: (gr(), 1))
            for f in (co.connected_components, co.is_connected):
                out["%s %s" % (f.__name__, nm)] = (f, lambda gr=gr: (gr(),))
        return out

    return [
        Domain("small-graphs", small, run,
               bound="all labelled graphs on <= %d vertices, every start, every depth limit; classes on 6%s" % (6 if big else 5, "-7" if big else "")),
        Domain("interleaved", inter, interleaved, bound="all schedules of length %d of two searches, classes on 4 vertices" % (10 if deep else 7)),
        Domain("shapes", [(k, n) for k in ("path", "cycle", "binary", "star", "blocks", "ladder") for n in (7, 12, 20)],
               shaped, bound="6 families up to 20 vertices"),
        Domain("deep", [10, 100, 1500, 5000], deep_paths, bound="paths of up to 5000 vertices, up to 15 depth limits"),
        Domain("medium", lambda: ((g, ("int", "str", "tup", "rev")[i % 4], i % 3)
                                  for i, h in enumerate(gen.medium_graphs(big)) for g in gen.relabellings(h, 20 if deep else 3)), run, timeout=60,
               bound="%d relabellings of " % (20 if deep else 3) + gen.medium_bound(big)),
        call_histories("call-histories", calls(), depth=2),
    ]
