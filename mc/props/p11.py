"""Independent set routines return independent sets; exact ones are maximum, enumerations complete."""

import itertools

from mc import choice, gen
from mc.engine import Domain, Violation, check, equal
from mc.history import call_histories
from mc.props.p09 import family, FAMILIES, maximal, named, check_family

PROPERTY = "P11"
ASSUMPTIONS = ["vertices of one graph are mutually comparable (the library sorts them)"]


def complement(g):
    n, es = g
    have = {frozenset(e[:2]) for e in es}
    return (n, tuple(p for p in itertools.combinations(range(n), 2) if frozenset(p) not in have))


def check_independent(sol, adj, what, best=None, dominating=False):
    size, s = sol
    s = list(s)
    check(len(s) == len(set(s)) and set(s) <= set(adj), "%s: %r", what, s)
    for u, v in itertools.combinations(s, 2):
        check(v not in adj[u], "%s: %r and %r are adjacent in %r", what, u, v, s)
    equal(size, len(s), what + ": size")
    if best is not None:
        equal(size, best, what + ": size")
    if dominating:
        S = set(s)
        for u in adj:
            check(u in S or adj[u] & S, "%s: %r could be added to %r", what, u, s)


def run(case, t):
    from rosemary.graphs.algorithms import independent_sets as m
    g, lab, order, depth = case
    L = gen.LABELLERS[lab]
    adj = {L(u): {L(v) for v in nb} for u, nb in gen.adjacency(g).items()}
    want = {named(x, L) for x in maximal(complement(g))}
    best = max(map(len, want))
    G = gen.build(g, lab, order)
    before = gen.snapshot(G)
    choice.reset()
    check_independent(t.call(m.branch_and_bound, G), adj, "branch_and_bound", best)
    check_independent(t.call(m.maximum_independent_set, G), adj, "maximum_independent_set", best)
    check_independent(t.call(m.culberson, G), adj, "culberson", dominating=True)
    check_family([list(x) for x in t.call(m.maximal_independent_sets, G)], want, "maximal_independent_sets")

    def body(script):
        sol = t.call(m.greedy, G)
        check_independent(sol, adj, "greedy with choices %r" % (script,), dominating=True)
        t.outcome((g, sol[0], tuple(sol[1])))
    choice.explore(body, depth, wide=4, tracker=t)
    equal(gen.snapshot(G), before, "the graph")
    t.outcome(sorted(map(sorted, want)))


def shaped(case, t):
    kind, n, order = case
    run((family(kind, n), "int", order, 3), t)


def tall(case, t):
    """Sizes at which culberson's truncation changes."""
    from rosemary.graphs.algorithms import independent_sets as m
    kind, n = case
    g = family(kind, n)
    G = gen.build(g)
    adj = gen.adjacency(g)
    adj = {u: set(v) for u, v in adj.items()}
    check_independent(t.call(m.culberson, G), adj, "culberson", dominating=True)
    check_independent(t.call(m.greedy, G), adj, "greedy", dominating=True)
    t.outcome(n)


def large(case, t):
    """Graphs whose independent sets are known by construction."""
    from rosemary.graphs.algorithms import independent_sets as m
    i, big, lab = case
    g, _, ind, alpha = list(gen.large_known(big))[i]
    G = gen.build(g, lab, i % 3)
    L = gen.LABELLERS[lab]
    before = gen.snapshot(G)
    adj = {L(u): {L(v) for v in nb} for u, nb in gen.adjacency(g).items()}
    if ind is not None or g[0] <= 40:       # exponential on long paths
        check_independent(t.call(m.branch_and_bound, G), adj, "branch_and_bound", alpha)
    check_independent(t.call(m.maximum_independent_set, G), adj, "maximum_independent_set", alpha)
    check_independent(t.call(m.greedy, G), adj, "greedy", dominating=True)
    if g[0] <= 13:
        check_independent(t.call(m.culberson, G), adj, "culberson", dominating=True)
    if ind is not None:
        check_family([list(x) for x in t.call(m.maximal_independent_sets, G)],
                     {frozenset(map(L, x)) for x in ind}, "maximal_independent_sets")
    equal(gen.snapshot(G), before, "the graph")
    t.outcome((g[0], alpha))


def domains(tier):
    big = tier == "thorough"

    def small():
        i = 0
        for n in range(0, 5):
            for g in gen.labelled_graphs(n):
                for lab in gen.LABELLERS:
                    for order in (0, 1, 2):
                        yield (g, lab, order, 4)
        for n in (5, 6) if big else (5,):
            for g in gen.labelled_graphs(n):
                yield (g, "int", 0, 3)
                yield (g, "str", 1, 0)
        for n in (6, 7):
            for g in gen.iso_graphs(n):
                for h in gen.relabellings(g, 6 if big else 2):
                    i += 1
                    yield (h, "int", i % 3, 2)

    def calls():
        from rosemary.graphs.algorithms import independent_sets as m
        out = {}
        grs = {"a": (5, ((0, 1), (1, 2), (0, 2), (3, 4), (2, 3))), "b": (4, ((0, 1), (1, 3), (3, 2)))}
        for nm, gr in grs.items():
            for f in (m.branch_and_bound, m.greedy, m.culberson, m.maximum_independent_set,
                      m.maximal_independent_sets):
                out[f.__name__ + " " + nm] = (f, lambda gr=gr: (gen.build(gr),))
        return out

    return [
        Domain("small-graphs", small, run,
               bound="all labelled graphs on <= %d vertices; every class on 6 and 7; greedy under every outcome of its first 2-4 random choices" % (6 if big else 5)),
        Domain("known", lambda: ((i, big, ("int", "str", "rev")[i % 3]) for i in range(len(list(gen.large_known(big))))),
               large, timeout=120,
               bound="cographs, powers of paths, and a clique beside a long path, up to %d vertices" % (134 if big else 80)),
        Domain("shapes", [(k, n, o) for k in FAMILIES for n in (9, 10, 11) for o in (0, 1)], shaped,
               bound="7 families up to 11 vertices"),
        Domain("medium", lambda: ((g, ("int", "str", "tup", "rev")[i % 4], i % 3, 1) for i, h in enumerate(gen.medium_graphs(big))
                                  for g in gen.relabellings(h, 4 if big else 2)), run, timeout=120,
               bound="%d relabellings of %s" % (4 if big else 2, gen.medium_bound(big))),
        Domain("large", [(k, n) for k in ("complete", "moon") for n in (12, 201, 510 if big else 201)]
               + [("petersen", 10), ("cycle", 12), ("mod", 20), ("complement", 30)],
               tall, bound="families up to 510 vertices", timeout=120),
        call_histories("call-histories", calls(), depth=2),
    ]
