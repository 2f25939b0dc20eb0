"""Colorings are proper, use the number of colors they report, and exact ones are minimal."""

import contextlib
import io
import itertools

from mc import choice, gen
from mc.engine import Domain, Violation, check, equal
from mc.history import call_histories
from mc.props.p09 import family, FAMILIES

PROPERTY = "P10"
ASSUMPTIONS = ["vertices of one graph are mutually comparable (the library sorts them)"]

# triangle-free with chromatic number 4
GROETZSCH = (11, tuple((i, (i + 1) % 5) for i in range(5)) + tuple((5 + i, (i + d) % 5) for i in range(5) for d in (1, 4))
             + tuple((10, 5 + i) for i in range(5)))


def chromatic(g):
    """Chromatic number by dynamic programming over independent vertex subsets."""
    n = g[0]
    nb = [0] * n
    for e in g[1]:
        nb[e[0]] |= 1 << e[1]
        nb[e[1]] |= 1 << e[0]
    indep = [True] * (1 << n)
    best = [0] * (1 << n)
    for s in range(1, 1 << n):
        low = (s & -s).bit_length() - 1
        r = s & (s - 1)
        indep[s] = indep[r] and not r & nb[low]
        if indep[s]:
            best[s] = 1
            continue
        b = n
        x = r
        # independent subsets that contain the lowest vertex
        while True:
            c = x | (1 << low)
            if indep[c] and best[s ^ c] + 1 < b:
                b = best[s ^ c] + 1
            if not x:
                break
            x = (x - 1) & r
        best[s] = b
    return best[-1]


def as_classes(sol, what):
    k, col = sol
    if isinstance(col, dict):
        inv = {}
        for u, c in col.items():
            inv.setdefault(c, []).append(u)
        return k, list(inv.values())
    return k, [list(c) for c in col]


def check_coloring(sol, adj, what, exact=None):
    k, classes = as_classes(sol, what)
    flat = [u for c in classes for u in c]
    check(len(flat) == len(set(flat)) and set(flat) == set(adj), "%s does not color each vertex once: %r", what, sol)
    check(all(classes), "%s has an empty class: %r", what, sol)
    equal(k, len(classes), what + ": number of colors")
    for c in classes:
        for u, v in itertools.combinations(c, 2):
            check(v not in adj[u], "%s: neighbours %r and %r share a color in %r", what, u, v, sol)
    if exact is not None:
        equal(k, exact, what + ": number of colors")
    return k, classes


def first_fit(adj, order):
    col = {}
    for v in order:
        used = {col[u] for u in adj[v] if u in col}
        col[v] = next(c for c in itertools.count() if c not in used)
    return col


def run(case, t):
    from rosemary.graphs.algorithms import coloring as m
    g, lab, order = case
    G = gen.build(g, lab, order)
    L = gen.LABELLERS[lab]
    adj = {L(u): {L(v) for v in nb} for u, nb in gen.adjacency(g).items()}
    before = gen.snapshot(G)
    chi = chromatic(g)
    for cl in (True, False):
        for name in ("branch_and_bound", "korman", "exact_coloring"):
            sol = t.call(getattr(m, name), G, classes=cl)
            check(isinstance(sol[1], list if cl else dict), "%s(classes=%s) gave %r", name, cl, sol)
            check_coloring(sol, adj, name, chi)
        for name, f in (("dsatur", m.dsatur), ("greedy_sequential", m.greedy_sequential),
                        ("greedy_sequential, 2 passes",
                         lambda G, classes: m.greedy_sequential(G, passes=2, classes=classes)),
                        ("maxis", m.maxis)):
            sol = t.call(f, G, classes=cl)
            check(isinstance(sol[1], list if cl else dict), "%s(classes=%s) gave %r", name, cl, sol)
            k, _ = check_coloring(sol, adj, name)
            check(k >= chi, "%s used %d colors", name, k)
            if name == "maxis":         # small enough for its exact phase to be everything
                equal(k, chi, "maxis below its exact limit")
    equal(gen.snapshot(G), before, "the graph")
    t.outcome((chi, g))


def orders(case, t):
    """First-fit along every given vertex order; a second pass is never worse."""
    from rosemary.graphs.algorithms import coloring as m
    g, lab, perm = case
    G = gen.build(g, lab, 0)
    L = gen.LABELLERS[lab]
    adj = {L(u): {L(v) for v in nb} for u, nb in gen.adjacency(g).items()}
    order = [L(i) for i in perm]
    given = list(order)
    want = first_fit(adj, order)
    k, col = t.call(m.greedy_sequential, G, vertices=given, classes=False)
    equal(col, want, "first-fit coloring along %r" % (order,))
    check_coloring((k, col), adj, "greedy_sequential")
    k1, _ = check_coloring(t.call(m.greedy_sequential, G, vertices=given), adj, "greedy_sequential")
    equal(k1, k, "colors in the two output formats")
    for cl in (True, False):
        k2, _ = check_coloring(t.call(m.greedy_sequential, G, vertices=given, passes=2, classes=cl), adj,
                               "two-pass greedy")
        check(k2 <= k, "two passes use %d colors, one pass %d", k2, k)
    equal(given, order, "the vertex order passed in")
    t.outcome(tuple(col.items()))


def reduction(case, t):
    """maxis with every combination of limits, for every outcome of its random choices."""
    from rosemary.graphs.algorithms import coloring as m
    g, climit, mlimit, greedy, depth = case
    adj = {u: set(nb) for u, nb in gen.adjacency(g).items()}
    chi = chromatic(g)

    def body(script):
        for cl in (True, False):
            G = gen.build(g, "int", climit % 3)
            before = gen.snapshot(G)
            sol = t.call(m.maxis, G, classes=cl, color_limit=climit, mis_limit=mlimit, use_greedy=greedy)
            k, _ = check_coloring(sol, adj, "maxis%r" % ((climit, mlimit, greedy),))
            check(k >= chi, "maxis used %d colors", k)
            equal(gen.snapshot(G), before, "the graph")
            t.outcome(k)
        with contextlib.redirect_stdout(io.StringIO()):
            told = t.call(m.maxis, gen.build(g, "int", climit % 3), color_limit=climit, mis_limit=mlimit,
                          use_greedy=greedy, verbose=True)
        check_coloring(told, adj, "maxis%r with verbose" % ((climit, mlimit, greedy),))
    choice.explore(body, depth if greedy and g[0] > mlimit else 0, tracker=t)


def shaped(case, t):
    kind, n, order = case
    run((family(kind, n), "int", order), t)


def large(case, t):
    """Perfect graphs whose largest clique, hence number of colors, is known by construction."""
    from rosemary.graphs.algorithms import coloring as m
    i, big, lab = case
    g, cl, _, _ = list(gen.large_known(big))[i]
    G = gen.build(g, lab, i % 3)
    L = gen.LABELLERS[lab]
    before = gen.snapshot(G)
    adj = {L(u): {L(v) for v in nb} for u, nb in gen.adjacency(g).items()}
    chi = max(map(len, cl))
    for cl in (True, False):
        check_coloring(t.call(m.korman, G, classes=cl), adj, "korman", chi)
        if g[0] <= 12:
            check_coloring(t.call(m.branch_and_bound, G, classes=cl), adj, "branch_and_bound", chi)
        for name, f in (("dsatur", m.dsatur), ("greedy_sequential", m.greedy_sequential)):
            k, _ = check_coloring(t.call(f, G, classes=cl), adj, name)
            check(k >= chi, "%s used %d colors", name, k)
        check_coloring(t.call(m.maxis, G, classes=cl, color_limit=g[0]), adj, "maxis below its exact limit", chi)
        check_coloring(t.call(m.maxis, G, classes=cl, color_limit=12, mis_limit=g[0] // 2, use_greedy=True), adj, "maxis")
    equal(gen.snapshot(G), before, "the graph")
    t.outcome((g[0], chi))


def complete(case, t):
    """Every vertex of a complete graph (less one edge) needs its own color."""
    from rosemary.graphs.algorithms import coloring as m
    n, less = case
    g = (n, tuple(p for p in itertools.combinations(range(n), 2) if not less or p != (1, n - 2)))
    G = gen.build(g)
    adj = {u: set(v) for u, v in gen.adjacency(g).items()}
    for name in ("dsatur", "greedy_sequential", "korman", "exact_coloring") + (("branch_and_bound",) if not less else ()):
        for cl in (True, False):
            check_coloring(t.call(getattr(m, name), G, classes=cl), adj, name, n - less)
    check_coloring(t.call(m.maxis, G, color_limit=n // 2, mis_limit=n), adj, "maxis", n - less)
    t.outcome(n)


LEVELS = ("thorough", "deep")


def domains(tier):
    big = tier != "quick"
    deep = tier == "deep"

    def small():
        i = 0
        for n in range(0, 5):
            for g in gen.labelled_graphs(n):
                for lab in gen.LABELLERS:
                    for order in (0, 1, 2):
                        yield (g, lab, order)
        for n in (5, 6) if big else (5,):
            for g in gen.labelled_graphs(n):
                yield (g, "int", 0)
                yield (g, "str", 2)
        for n in (6, 7):
            for g in gen.iso_graphs(n):
                for h in gen.relabellings(g, 60 if deep else 6 if big else 3):
                    i += 1
                    yield (h, "int", i % 3)

    def ordercases():
        for n in range(1, 5):
            for g in gen.labelled_graphs(n):
                for perm in itertools.permutations(range(n)):
                    yield (g, "str", perm)
        for n in (5, 6) if big else (5,):
            for g in gen.iso_graphs(n):
                for perm in itertools.permutations(range(n)):
                    yield (g, "int", perm)

    def limits():
        for n in range(0, 6):
            for g in gen.iso_graphs(n):
                for climit in range(0, n + 1):
                    for mlimit in range(0, n + 1):
                        for greedy in (False, True):
                            yield (g, climit, mlimit, greedy, 3)
        for n in (6, 7) if big else (6,):
            for g in gen.iso_graphs(n):
                for climit, mlimit in ((0, 0), (1, 3), (2, 4)):
                    for greedy in (False, True):
                        yield (g, climit, mlimit, greedy, 2)

    def hard():
        """Graphs on which saturation-first coloring can miss the optimum, so that the exact searches must improve on it."""
        for n, chi, es in gen.hard_graphs():
            g = (n, tuple(tuple(e) for e in es))
            if n == 7:
                for perm in itertools.permutations(range(7)):
                    yield (gen.relabel(g, perm), "int", 0)
            else:
                for h in gen.relabellings(g, 40 if deep else 8 if big else 2):
                    for order in (0, 1, 2):
                        yield (h, "int", order)
        yield (GROETZSCH, "int", 0)

    def calls():
        from rosemary.graphs.algorithms import coloring as m
        out = {}
        grs = {"a": (5, ((0, 1), (1, 2), (0, 2), (3, 4), (2, 3))), "b": (4, ((0, 1), (1, 3), (3, 2)))}
        for nm, gr in grs.items():
            for f in (m.dsatur, m.greedy_sequential, m.maxis, m.branch_and_bound, m.korman, m.exact_coloring):
                out[f.__name__ + " " + nm] = (f, lambda gr=gr: (gen.build(gr),))
            out["greedy order " + nm] = (m.greedy_sequential,
                                         lambda gr=gr: (gen.build(gr), list(range(gr[0]))))
        return out

    return [
        Domain("small-graphs", small, run,
               bound="all labelled graphs on <= %d vertices; every class on 6 and 7 under %d relabellings" % (6 if big else 5, 60 if deep else 6 if big else 3)),
        Domain("vertex-orders", ordercases, orders,
               bound="all labelled graphs on <= 4 vertices and classes on 5%s, every vertex order" % (" and 6" if big else "")),
        Domain("reduction", limits, reduction,
               bound="classes on <= 5 vertices, every pair of limits, first 3 random choices; classes on 6 with 3 pairs of limits"),
        Domain("hard-for-greedy", hard, run, timeout=120,
               bound="three graphs on 7 vertices under every labelling, 142 on 8..10 vertices under %d, on which "
                     "saturation-first coloring is not optimal; the Groetzsch graph" % (40 if deep else 8 if big else 2)),
        Domain("medium", lambda: ((g, ("int", "str", "tup", "rev")[i % 4], i % 3) for i, h in enumerate(gen.medium_graphs(big))
                                  for g in gen.relabellings(h, 9 if deep else 3 if big else 1) if h[0] <= (11 if big else 10)), run, timeout=120,
               bound="%s; at most %d vertices" % (gen.medium_bound(big), 11 if big else 10)),
        Domain("large", lambda: ((i, deep, ("int", "str", "rev")[i % 3]) for i in range(len(list(gen.large_known(deep))))),
               large, timeout=120,
               bound="cographs, powers of paths, and a clique beside a long path, up to %d vertices" % (134 if deep else 80)),
        Domain("complete", [(n, d) for n in range(8, 91 if deep else 61 if big else 41) for d in (0, 1)], complete, timeout=60,
               bound="complete graphs of up to %d vertices, whole and less one edge" % (90 if deep else 60 if big else 40)),
        Domain("shapes", [(k, n, o) for k in FAMILIES for n in (8, 10) + ((11, 12) if big else ())
                          for o in (0, 1, 2)], shaped, bound="7 families up to 10 (12) vertices", timeout=90),
        call_histories("call-histories", calls(), depth=2),
    ]
