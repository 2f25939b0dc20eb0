"""Clique enumeration is exactly the maximal cliques, once each; clique optimisation is optimal."""

import itertools

from mc import gen
from mc.engine import Domain, Violation, check, equal
from mc.history import call_histories

PROPERTY = "P09"
ASSUMPTIONS = ["vertices of one graph are mutually comparable (the library sorts them)",
               "vertex weights are positive",
               "the graph is not modified while an enumeration of its cliques is being consumed"]


def masks(g):
    n, es = g
    nb = [0] * n
    for e in es:
        nb[e[0]] |= 1 << e[1]
        nb[e[1]] |= 1 << e[0]
    return nb


def all_cliques(g):
    """Bit masks of every clique, by testing every vertex subset."""
    n = g[0]
    nb = masks(g)
    ok = [False] * (1 << n)
    ok[0] = True
    out = [0]
    for s in range(1, 1 << n):
        low = (s & -s).bit_length() - 1
        r = s & (s - 1)
        if ok[r] and r & ~nb[low] == 0:
            ok[s] = True
            out.append(s)
    return out


def maximal(g):
    n = g[0]
    nb = masks(g)
    out = []
    for s in all_cliques(g):
        if all(s >> v & 1 or s & ~nb[v] for v in range(n)):
            out.append(s)
    return out


def named(mask, L):
    return frozenset(L(i) for i in range(mask.bit_length()) if mask >> i & 1)


def enumerators():
    from rosemary.graphs.algorithms import cliques as c
    return [("bron_kerbosch", c.bron_kerbosch), ("bron_kerbosch_binary", c.bron_kerbosch_binary),
            ("tomita", c.tomita), ("maximal_cliques", c.maximal_cliques)] + [
        ("maximal_cliques %s" % a, lambda G, a=a: c.maximal_cliques(G, algorithm=a))
        for a in ("tomita", "bron_kerbosch", "bron_kerbosch_binary")]


def optimisers():
    from rosemary.graphs.algorithms import cliques as c
    return [("pardalos", c.pardalos), ("pardalos_binary", c.pardalos_binary),
            ("ostergard", c.ostergard), ("ostergard_binary", c.ostergard_binary),
            ("maximum_clique", c.maximum_clique)] + [
        ("maximum_clique %s" % a, lambda G, a=a: c.maximum_clique(G, algorithm=a))
        for a in ("ostergard", "pardalos")]


def check_family(got, want, what):
    fam = [frozenset(x) for x in got]
    for x, f in zip(got, fam):
        check(len(x) == len(f), "%s: repeated vertex in %r", what, x)
    check(len(fam) == len(set(fam)), "%s: some set occurs twice: %r", what, got)
    check(set(fam) == want, "%s: got %r, expected %r", what, sorted(map(sorted, fam)),
          sorted(map(sorted, want)))


def check_clique(sol, adj, weight, best, what):
    size, clique = sol
    clique = list(clique)
    check(len(clique) == len(set(clique)) and all(u in adj for u in clique), "%s: %r", what, clique)
    for u, v in itertools.combinations(clique, 2):
        check(v in adj[u], "%s: %r and %r are not adjacent", what, u, v)
    check(sum(weight(u) for u in clique) == size, "%s: reported value %r of %r", what, size, clique)
    equal(size, best, what + ": value")


def run(case, t):
    g, lab, order = case
    G = gen.build(g, lab, order)
    L = gen.LABELLERS[lab]
    before = gen.snapshot(G)
    adj = {L(u): {L(v) for v in nb} for u, nb in gen.adjacency(g).items()}
    want = {named(m, L) for m in maximal(g)}
    for name, f in enumerators():
        check_family([list(x) for x in t.call(f, G)], want, name)
    best = max(map(len, want))
    for name, f in optimisers():
        check_clique(t.call(f, G), adj, lambda u: 1, best, name)
    equal(gen.snapshot(G), before, "the graph")
    t.outcome(sorted(map(sorted, want)))


def weighted(case, t):
    from rosemary.graphs.algorithms import cliques as c
    g, lab, ws = case
    L = gen.LABELLERS[lab]
    G = gen.build(g, lab, len(ws) % 3)
    adj = {L(u): {L(v) for v in nb} for u, nb in gen.adjacency(g).items()}
    wm = {L(i): w for i, w in enumerate(ws)}
    best = max(sum(ws[i] for i in range(g[0]) if m >> i & 1) for m in maximal(g))
    check_clique(t.call(c.maximum_weight_clique, G, dict(wm)), adj, wm.__getitem__, best,
                 "maximum_weight_clique")
    check_clique(t.call(c.maximum_weight_clique, G, weight_map=dict(wm)), adj, wm.__getitem__, best,
                 "maximum_weight_clique")
    t.outcome((best, ws))


def self_weighted(case, t):
    """Without a weight map every vertex weighs its own key."""
    from rosemary.graphs.algorithms import cliques as c
    g, keys = case
    G = gen.build(g, lambda i: keys[i], sum(keys) % 3)
    adj = {keys[u]: {keys[v] for v in nb} for u, nb in gen.adjacency(g).items()}
    best = max(sum(keys[i] for i in range(g[0]) if m >> i & 1) for m in maximal(g))
    check_clique(t.call(c.maximum_weight_clique, G), adj, lambda u: u, best, "maximum_weight_clique by key")
    t.outcome((best, keys))


FAMILIES = ["complete", "petersen", "coprime", "cycle", "complement", "moon", "mod"]


def family(kind, n):
    P = list(itertools.combinations(range(n), 2))
    if kind == "complete":
        return (n, tuple(P))
    if kind == "petersen":
        V = list(itertools.combinations(range(5), 2))
        return (10, tuple((i, j) for i, j in itertools.combinations(range(10), 2)
                          if not set(V[i]) & set(V[j])))
    if kind == "coprime":
        import math
        return (n, tuple((i, j) for i, j in P if math.gcd(i + 1, j + 1) == 1))
    if kind == "cycle":
        return (n, tuple((i, (i + 1) % n) for i in range(n)))
    if kind == "complement":
        return (n, tuple((i, j) for i, j in P if (j - i) % n not in (1, n - 1)))
    if kind == "moon":
        return (n, tuple((i, j) for i, j in P if i // 3 != j // 3))
    if kind == "mod":
        return (n, tuple((i, j) for i, j in P if (i * i + 3 * i * j + j * j) % 7 < 4))
    raise KeyError(kind)


def shaped(case, t):
    kind, n, order = case
    run((family(kind, n), "int", order), t)


def large(case, t):
    """Graphs whose maximal cliques are known by construction."""
    from rosemary.graphs.algorithms import cliques as c
    i, big, lab = case
    g, cl, _, _ = list(gen.large_known(big))[i]
    G = gen.build(g, lab, i % 3)
    L = gen.LABELLERS[lab]
    before = gen.snapshot(G)
    adj = {L(u): {L(v) for v in nb} for u, nb in gen.adjacency(g).items()}
    want = {frozenset(map(L, x)) for x in cl}
    for name, f in enumerators()[:3]:
        check_family([list(x) for x in t.call(f, G)], want, name)
    best = max(map(len, want))
    for name, f in optimisers()[:5]:
        check_clique(t.call(f, G), adj, lambda u: 1, best, name)
    wm = {L(j): 2 + (5 * j + j * j // 7) % 4 for j in range(g[0])}
    check_clique(t.call(c.maximum_weight_clique, G, dict(wm)), adj, wm.__getitem__,
                 max(sum(wm[u] for u in x) for x in want), "maximum_weight_clique")
    equal(gen.snapshot(G), before, "the graph")
    t.outcome((g[0], best, len(want)))


def complete(case, t):
    """A complete graph has one clique (the enumerators, which visit every subset, are not asked)."""
    n = case
    g = family("complete", n)
    G = gen.build(g)
    adj = gen.adjacency(g)
    adj = {u: set(v) for u, v in adj.items()}
    for name, f in optimisers()[:5]:
        check_clique(t.call(f, G), adj, lambda u: 1, n, name)
    from rosemary.graphs.algorithms import cliques as c
    check_family([list(x) for x in t.call(c.tomita, G)], {frozenset(range(n))}, "tomita")
    t.outcome(n)


def interleaved(case, t):
    """Two enumerations of one graph consumed alternately do not disturb each other."""
    g, a, b, sched = case
    G = gen.build(g)
    fs = [enumerators()[a][1], enumerators()[b][1]]
    want = {named(m, lambda i: i) for m in maximal(g)}
    its = [f(G) for f in fs]
    got = [[], []]
    for i in sched:
        t.calls += 1
        x = next(its[i], None)
        if x is not None:
            got[i].append(list(x))
    for i in (0, 1):
        got[i].extend(list(x) for x in its[i])
        check_family(got[i], want, "interleaved enumeration")


LEVELS = ("thorough", "deep")


def domains(tier):
    big = tier != "quick"
    deep = tier == "deep"

    def small():
        i = 0
        for n in range(0, 5):
            for g in gen.labelled_graphs(n):
                for lab in gen.LABELLERS:
                    for order in (0, 1, 2):
                        yield (g, lab, order)
        for n in (5, 6) if big else (5,):
            for g in gen.labelled_graphs(n):
                yield (g, "int", 0)
                yield (g, "rev", 1)
        for n in (6, 7):
            for g in gen.iso_graphs(n):
                for h in gen.relabellings(g, 40 if deep else (8 if n == 6 else 6) if big else 4):
                    i += 1
                    yield (h, "int", i % 3)

    def wcases():
        for n in range(1, 5):
            for g in gen.labelled_graphs(n):
                for ws in itertools.product((1, 2, 5), repeat=n):
                    yield (g, "int", ws)
        for n in (5, 6) if big else (5,):
            for g in gen.iso_graphs(n):
                for h in gen.relabellings(g, 3):
                    for ws in itertools.product((1, 2, 4) if n == 5 or deep else (1, 3), repeat=n):
                        yield (h, "str", ws)

    def keyed():
        for n in range(1, 5):
            for g in gen.labelled_graphs(n):
                for keys in itertools.permutations((1, 2, 3, 6, 9), n):
                    yield (g, keys)

    def medium():
        for i, g in enumerate(gen.medium_graphs(big)):
            for j, h in enumerate(gen.relabellings(g, 12 if deep else 4 if big else 2)):
                yield (h, ("int", "str", "tup", "rev")[(i + j) % 4], (i + j) % 3)

    def medium_weights():
        for i, g in enumerate(gen.medium_graphs(big)):
            for r, ws in enumerate(gen.WEIGHT_PATTERNS):
                if big or r % 3 == i % 3:
                    yield (g, "int" if i % 2 else "rev", tuple(ws[(2 * j + j * j // 3) % len(ws)] for j in range(g[0])))

    def magnitudes():
        for i, g in enumerate(gen.medium_graphs()):
            for r, kind in enumerate(gen.MAGNITUDES):
                if (big or r == i % 5) and g[0] <= 10:
                    ws = gen.WEIGHT_PATTERNS[(i + r) % len(gen.WEIGHT_PATTERNS)]
                    yield (g, "int" if i % 2 else "rev",
                           gen.scaled_numbers([ws[(2 * j + j * j // 3) % len(ws)] for j in range(g[0])], kind))

    def inter():
        for g in list(gen.iso_graphs(4)) + [family("moon", 6)]:
            for a, b in ((0, 0), (1, 1), (2, 2), (0, 2), (1, 2)):
                for sched in gen.sequences((0, 1), 7 if deep else 4, 7 if deep else 4):
                    yield (g, a, b, sched)

    def calls():
        from rosemary.graphs.algorithms import cliques as c
        out = {}
        grs = {"a": (5, ((0, 1), (1, 2), (0, 2), (3, 4), (2, 3))), "b": (4, ((0, 1), (1, 3), (3, 2)))}
        for nm, gr in grs.items():
            for name, f in enumerators()[:3] + optimisers()[:4]:
                out[name + " " + nm] = (f, lambda gr=gr: (gen.build(gr),))
            out["weight " + nm] = (c.maximum_weight_clique,
                                   lambda gr=gr: (gen.build(gr), {i: i + 2 for i in range(gr[0])}))
        return out

    return [
        Domain("small-graphs", small, run,
               bound="all labelled graphs on <= %d vertices; every class on 6 and 7 under %d relabellings" % (6 if big else 5, 40 if deep else 6 if big else 4)),
        Domain("weights", wcases, weighted,
               bound="all labelled graphs on <= 4 vertices with every weighting from {1,2,5}; classes on 5%s with every weighting from a small set" % (" and 6" if big else "")),
        Domain("key-weights", keyed, self_weighted,
               bound="all labelled graphs on <= 4 vertices with every choice of keys from {1,2,3,6,9}"),
        Domain("shapes", [(k, n, o) for k in FAMILIES for n in ((9, 12, 15) if big else (9, 11, 12))
                          for o in (0, 1, 2)], shaped, bound="7 families, up to 12 (15) vertices"),
        Domain("medium", medium, run, timeout=60, bound="%d relabellings of %s" % (12 if deep else 4 if big else 2, gen.medium_bound(big))),
        Domain("medium weights", medium_weights, weighted, timeout=60,
               bound="%s weight patterns on the same graphs" % ("six" if big else "two of six")),
        Domain("magnitudes", magnitudes, weighted, timeout=60,
               bound="%s: vertex weights that differ by one part in 2**80 or exceed every float, and fractions down to 10**-13"
               % ("all five kinds" if big else "one of five kinds")),
        Domain("large", lambda: ((i, big, ("int", "str", "rev")[i % 3]) for i in range(len(list(gen.large_known(big))))),
               large, timeout=120,
               bound="cographs, powers of paths, and a clique beside a long path, up to %d vertices" % (134 if big else 80)),
        Domain("complete", range(13, 81 if big else 41), complete, timeout=60,
               bound="the optimisers on complete graphs of up to %d vertices" % (80 if big else 40)),
        Domain("interleaved", inter, interleaved, bound="two enumerations, all schedules of length %d" % (7 if deep else 4)),
        call_histories("call-histories", calls(), depth=2),
    ]
