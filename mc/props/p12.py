"""Hamiltonian path enumeration is complete and exact, and every counter agrees with it."""

import itertools

from mc import choice, gen
from mc.engine import Domain, Violation, check, equal
from mc.history import call_histories
from mc.props.p09 import family, FAMILIES

PROPERTY = "P12"
ASSUMPTIONS = ["a path and its reversal are counted separately, as the enumerators list them",
               "the graph has at least one vertex",
               "vertices of one graph are mutually comparable (the library sorts them)"]


def all_paths(adj, verts):
    out = set()
    n = len(verts)

    def go(path, used):
        if len(path) == n:
            out.add(tuple(path))
            return
        for v in adj[path[-1]]:
            if v not in used:
                go(path + [v], used | {v})
    for v in verts:
        go([v], {v})
    return out


def count_dp(g):
    n, es = g
    nb = [0] * n
    for e in es:
        nb[e[0]] |= 1 << e[1]
        nb[e[1]] |= 1 << e[0]
    cur = {(1 << i, i): 1 for i in range(n)}
    for _ in range(n - 1):
        nxt = {}
        for (s, v), c in cur.items():
            for w in range(n):
                if nb[v] >> w & 1 and not s >> w & 1:
                    k = (s | 1 << w, w)
                    nxt[k] = nxt.get(k, 0) + c
        cur = nxt
    return sum(cur.values())


COUNTERS = ["number_of_hamiltonian_paths", "number_of_hamiltonian_paths_bits",
            "number_of_hamiltonian_paths_bits_con", "number_of_hamiltonian_paths5",
            "number_of_hamiltonian_paths5_con"]


def run(case, t):
    from rosemary.graphs.algorithms import hamiltonian_paths as m
    g, lab, order, depth = case
    L = gen.LABELLERS[lab]
    verts = [L(i) for i in range(g[0])]
    adj = {L(u): {L(v) for v in nb} for u, nb in gen.adjacency(g).items()}
    G = gen.build(g, lab, order)
    before = gen.snapshot(G)
    want = all_paths(adj, verts)
    for name in ("hamiltonian_paths", "hamiltonian_paths_con"):
        got = [tuple(p) for p in t.call(getattr(m, name), G)]
        check(len(got) == len(set(got)), "%s repeats a path: %r", name, got)
        check(set(got) == want, "%s: missing %r, extra %r", name, sorted(want - set(got))[:3],
              sorted(set(got) - want)[:3])
    for name in COUNTERS:
        def body(script):
            got = t.call(getattr(m, name), G)
            check(isinstance(got, int), "%s counts %r paths", name, got)
            equal(got, len(want), "%s with choices %r" % (name, script))
        choice.explore(body, depth if "bits" in name else 0, wide=3, tracker=t)
    equal(gen.snapshot(G), before, "the graph")
    t.outcome((g, len(want)))


def shaped(case, t):
    from rosemary.graphs.algorithms import hamiltonian_paths as m
    kind, n, order = case
    g = family(kind, n)
    want = count_dp(g)
    G = gen.build(g, "int", order)
    for name in COUNTERS[1:3] if n > 8 else COUNTERS:
        equal(t.call(getattr(m, name), G), want, name)
    t.outcome((kind, n, want))


def medium(case, t):
    from rosemary.graphs.algorithms import hamiltonian_paths as m
    g, lab, order = case
    n = g[0]
    want = count_dp(g)
    G = gen.build(g, lab, order)
    L = gen.LABELLERS[lab]
    before = gen.snapshot(G)
    adj = {L(u): {L(v) for v in nb} for u, nb in gen.adjacency(g).items()}
    for name in COUNTERS[1:3] if want > 3000 else COUNTERS:
        equal(t.call(getattr(m, name), G), want, name)
    if want <= 3000:
        for name in ("hamiltonian_paths", "hamiltonian_paths_con"):
            got = [tuple(p) for p in t.call(getattr(m, name), G)]
            equal(len(got), want, "number of paths listed by " + name)
            check(len(set(got)) == want, "%s repeats a path", name)
            for p in got:
                check(len(p) == n and set(p) == set(adj) and all(v in adj[u] for u, v in zip(p, p[1:])),
                      "%s: %r is not a Hamiltonian path", name, p)
    equal(gen.snapshot(G), before, "the graph")
    t.outcome((g, want))


LONG = ("path", "cycle", "star", "broom", "two paths", "theta", "lollipop")


def long_graph(kind, n):
    """Graphs with few Hamiltonian paths: (edges, their number)."""
    p = [(i, i + 1) for i in range(n - 1)]
    if kind == "path":
        return p, 2
    if kind == "cycle":
        return p + [(0, n - 1)], 2 * n
    if kind == "star":
        return [(0, i) for i in range(1, n)], 0
    if kind == "broom":             # a path with two more leaves at its end
        return p[:n - 3] + [(n - 3, n - 2), (n - 3, n - 1)], 0
    if kind == "two paths":
        return [e for e in p if e[0] != n // 2], 0
    if kind == "theta":             # a cycle with one chord cutting off a triangle: the chord is used where it helps
        return p + [(0, n - 1), (0, 2)], None
    if kind == "lollipop":          # a path into a clique of four vertices
        return p + [(n - 4, n - 2), (n - 4, n - 1), (n - 3, n - 1)], 12
    raise KeyError(kind)


def long(case, t):
    from rosemary.graphs.algorithms import hamiltonian_paths as m
    kind, n, order = case
    es, want = long_graph(kind, n)
    g = (n, tuple(es))
    if want is None:
        want = count_dp(g)
    G = gen.build(g, "int", order)
    choice.reset()
    for name in COUNTERS[:3]:
        got = t.call(getattr(m, name), G)
        check(isinstance(got, int), "%s counts %r paths", name, got)
        equal(got, want, name)
    adj = gen.adjacency(g)
    adj = {u: set(v) for u, v in adj.items()}
    for name in ("hamiltonian_paths", "hamiltonian_paths_con"):
        got = [tuple(p) for p in t.call(getattr(m, name), G)]
        check(len(got) == len(set(got)) == want, "%s lists %d paths, there are %d", name, len(got), want)
        check(all(sorted(p) == list(range(n)) and all(v in adj[u] for u, v in zip(p, p[1:])) for p in got),
              "%s lists a sequence that is no Hamiltonian path", name)
    t.outcome((kind, n, want))


def walking(case, t):
    """Walks of every length from every vertex inside every set of allowed vertices."""
    from rosemary.graphs.algorithms import hamiltonian_paths as m
    g, lab, length = case
    G = gen.build(g, lab)
    L = gen.LABELLERS[lab]
    before = gen.snapshot(G)
    adj = gen.adjacency(g)
    for k in range(1, g[0] + 1):
        for S in itertools.combinations(range(g[0]), k):
            for a in S:
                now = {u: int(u == a) for u in S}
                for n in range(length + 1):
                    allowed = {L(u) for u in S}
                    got = t.call(m.walks, G, L(a), n, allowed)
                    equal({u: got.get(L(u), 0) for u in S}, now, "walks(%r, %r, %r, %r)" % (g, a, n, S))
                    equal(allowed, {L(u) for u in S}, "the allowed vertices")
                    now = {u: sum(now[v] for v in adj[u] if v in now) for u in S}
    equal(gen.snapshot(G), before, "the graph")
    t.outcome(case)


def domains(tier):
    big = tier == "thorough"

    def small():
        i = 0
        for n in range(1, 5):
            for g in gen.labelled_graphs(n):
                for lab in gen.LABELLERS:
                    for order in (0, 1, 2):
                        yield (g, lab, order, 3)
        for n in (5, 6) if big else (5,):
            for g in gen.labelled_graphs(n):
                yield (g, "int", 0, 2)
        for n in (6, 7) if big else (6,):
            for g in gen.iso_graphs(n):
                for h in gen.relabellings(g, 6 if big else 3):
                    i += 1
                    yield (h, "str" if i % 2 else "int", i % 3, 1)

    def calls():
        from rosemary.graphs.algorithms import hamiltonian_paths as m
        out = {}
        grs = {"a": (5, ((0, 1), (1, 2), (0, 2), (3, 4), (2, 3))), "b": (4, ((0, 1), (1, 3), (3, 2)))}
        for nm, gr in grs.items():
            for f in ["hamiltonian_paths", "hamiltonian_paths_con"] + COUNTERS:
                out[f + " " + nm] = (getattr(m, f), lambda gr=gr: (gen.build(gr),))
        return out

    return [
        Domain("small-graphs", small, run,
               bound="all labelled graphs on 1..%d vertices; every class on 6%s; first 1-3 random choices of the counters that shuffle" % (6 if big else 5, ", 7" if big else "")),
        Domain("shapes", [(k, n, o) for k in FAMILIES for n in (7, 8, 10) + ((12,) if big else ()) for o in (0, 1)], shaped,
               bound="7 families up to 10 (12) vertices"),
        Domain("medium", lambda: ((g, ("int", "str", "tup", "rev")[i % 4], i % 3) for i, g in enumerate(gen.medium_graphs(big))
                                  if g[0] <= (11 if big else 10)), medium, timeout=120,
               bound="%s; at most %d vertices" % (gen.medium_bound(big), 11 if big else 10)),
        Domain("long", [(k, n, o) for k in LONG for n in ((6, 13, 31, 34, 40, 66) if big else (6, 13, 31, 34, 40)) for o in (0, 1)],
               long, timeout=60, bound="7 families with few Hamiltonian paths, up to %d vertices" % (66 if big else 40)),
        Domain("walks", lambda: ((h, lab, 7) for n in range(1, 7 if big else 6) for g in gen.iso_graphs(n) for lab in ("int", "str")
                                 for h in gen.relabellings(g, 2)), walking,
               bound="every class on at most %d vertices, every set of allowed vertices, every start, lengths 0..7" % (6 if big else 5)),
        call_histories("call-histories", calls(), depth=2),
    ]
