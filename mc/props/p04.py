"""Graph constructors and loaders produce exactly the graph their definition describes."""

import itertools
import math
import os
import shutil
import tempfile

from mc import choice, gen
from mc.engine import Domain, Violation, check, equal
from mc.history import call_histories
from mc.props.p01 import Ref, observe, same

PROPERTY = "P04"
ASSUMPTIONS = [
    "files hold one edge per line in the documented format; other DIMACS line kinds do not "
    "start with 'e'",
    "the random graph draws its decisions from Python's random module",
]


def ref(V, E):
    R = Ref(V)
    for e in E:
        R.add_edge(*e)
    return R


def complete(case, t):
    from rosemary.graphs import graphs as m
    n = case
    G = t.call(m.complete_graph, n)
    R = ref(range(n), itertools.combinations(range(n), 2))
    same(G, R, "complete_graph(%d)" % n)
    if n <= 8:
        observe(G, R, list(range(n)))
    t.outcome(n)


def coprime(case, t):
    from rosemary.graphs import graphs as m
    n = case
    G = t.call(m.coprime_pairs_graph, n)
    R = ref(range(1, n + 1), [p for p in itertools.combinations(range(1, n + 1), 2)
                              if math.gcd(*p) == 1])
    same(G, R, "coprime_pairs_graph(%d)" % n)
    t.outcome(n)


def grid(case, t):
    from rosemary.graphs import graphs as m
    n = case
    G = t.call(m.grid_graph, n)
    E = []
    for i in range(n):
        for j in range(n):
            if j + 1 < n:
                E.append((i * n + j, i * n + j + 1))
            if i + 1 < n:
                E.append((i * n + j, (i + 1) * n + j))
    same(G, ref(range(n * n), E), "grid_graph(%d)" % n)
    t.outcome(n)


def odd(case, t):
    from rosemary.graphs import graphs as m
    k = case
    G = t.call(m.odd_graph, k)
    n = math.comb(2 * k - 1, k - 1)
    vs = G.vertices()
    equal(len(vs), n, "odd_graph(%d): number of vertices" % k)
    ground = set("".join(vs))
    check(k == 1 or len(ground) == 2 * k - 1, "odd_graph(%d): ground set has %d elements", k, len(ground))
    for v in vs:
        check(len(set(v)) == k - 1 == len(v), "odd_graph(%d): vertex %r", k, v)
    for u in vs:
        want = {v for v in vs if v != u and not set(u) & set(v)}
        check(set(G[u]) == want and all(w == 1 for w in G[u].values()),
              "odd_graph(%d): neighbours of %r", k, u)
        equal(len(want), k, "degree") if k > 1 else None
    t.outcome(k)


def petersen(case, t):
    """The Petersen graph is the Kneser graph K(5, 2): verified by an explicit isomorphism."""
    from rosemary.graphs import graphs as m
    G = t.call(m.petersen_graph)
    equal(G.vertices(), list(range(10)), "petersen vertices")
    equal(G.num_edges(), 15, "petersen edges")
    adj = {u: set(G[u]) for u in G}
    check(all(len(adj[u]) == 3 for u in adj), "petersen graph is not cubic")
    # 3-regular, 10 vertices, girth 5 (no triangle, no 4-cycle) characterises it
    for u, v in itertools.combinations(range(10), 2):
        common = adj[u] & adj[v]
        check(len(common) == (0 if v in adj[u] else 1), "petersen: %d and %d share %r", u, v, common)
    H = m.petersen_graph()
    H.delete_vertex(0)
    equal(m.petersen_graph().num_vertices(), 10, "a new Petersen graph after changing an old one")
    t.outcome("petersen")


def random_g(case, t):
    from rosemary.graphs import graphs as m
    n, d = case
    seen = set()

    def body(script):
        G = t.call(m.random_graph, n, d)
        equal(G.vertices(), list(range(n)), "random_graph vertices")
        es = G.edges()
        check(all(0 <= u < v < n for u, v in es), "random_graph edges %r", es)
        R = ref(range(n), es)
        same(G, R, "random_graph")
        if d >= 1:
            equal(len(es), n * (n - 1) // 2, "random_graph with density 1")
        if d < 0:
            equal(len(es), 0, "random_graph with negative density")
        seen.add(tuple(es))
        t.outcome((n, tuple(es)))

    pairs = n * (n - 1) // 2
    choice.explore(body, depth=min(pairs, 6), wide=3, tracker=t)
    if 0 < d < 0.9 and pairs <= 6:
        equal(len(seen), 2 ** pairs, "random_graph(%d, %r): graphs reachable" % (n, d))


def probability(case, t):
    """Over equally likely answers to the one draw that decides it, an edge appears with the given probability."""
    from rosemary.graphs import graphs as m
    k, steps = case
    hits = []

    def body(script):
        G = t.call(m.random_graph, 2, k / steps)
        hits.append(G.num_edges())
    choice.explore(body, depth=1, wide=steps, tracker=t, floats=tuple((i + 0.5) / steps for i in range(steps)))
    if len(hits) == steps:
        check(abs(sum(hits) - k) <= 1, "random_graph(2, %r): an edge for %d of %d equally likely draws", k / steps, sum(hits), steps)
    t.outcome((k, sum(hits)))


def big_file(case, t):
    """Long files with long labels."""
    from rosemary.graphs import graphs as m
    kind, n, mul, eol, order = case
    E = [(mul * i + 7, mul * ((i * i + 3 * i + 1) % n + n) + 7) for i in range(n)]
    E += [(mul * i + 7, mul * (i + 1) + 7) for i in range(n - 1)]
    if order:
        E = [(v, u) for u, v in E[::-1]]
    pre = "e " if kind == "dimacs" else ""
    lines = (["c generated", "p edge %d %d" % (2 * n, len(E))] if kind == "dimacs" else []) + ["%s%d %d" % (pre, u, v) for u, v in E]
    tmp = tempfile.mkdtemp(prefix="mc-p04-")
    try:
        path = os.path.join(tmp, "g.txt")
        with open(path, "w", newline="") as f:
            f.write(eol.join(lines) + eol)
        G = t.call(m.load_dimacs_graph if kind == "dimacs" else m.load_graph, path)
        same(G, ref((), E), "%s file of %d edges" % (kind, len(E)))
    finally:
        shutil.rmtree(tmp)
    t.outcome(case)


FILES = None


def load(case, t):
    from rosemary.graphs import graphs as m
    kind, lines, trailing = case
    tmp = tempfile.mkdtemp(prefix="mc-p04-")
    try:
        path = os.path.join(tmp, "g.txt")
        with open(path, "w") as f:
            f.write("\n".join(lines) + ("\n" if trailing and lines else ""))
        E = []
        for ln in lines:
            parts = ln.split()
            if kind == "dimacs":
                if parts[0] == "e":
                    E.append((int(parts[1]), int(parts[2])))
            else:
                E.append((int(parts[0]), int(parts[1])))
        fn = m.load_dimacs_graph if kind == "dimacs" else m.load_graph
        G = t.call(fn, path)
        R = ref({u for e in E for u in e}, E)
        same(G, R, "%s file %r" % (kind, lines))
        with open(path) as f:
            equal(f.read().split("\n")[:len(lines)], list(lines) or [""][:len(lines)], "the file changed")
        t.outcome(R.key())
    finally:
        shutil.rmtree(tmp)


LEVELS = ("thorough", "deep")


def domains(tier):
    big = tier != "quick"
    deep = tier == "deep"

    def files():
        es = ["e 1 2", "e 2 3", "e 3 1", "e 10 2", "e 2 1"]
        hdr = [[], ["c comment e", "p edge 4 3"], ["p col 11 5", "n 1 4"]]
        for h in hdr:
            for L in gen.sequences(es, 3):
                for tr in (True, False):
                    yield ("dimacs", tuple(h) + L, tr)
                    yield ("dimacs", L + tuple(h), tr)
        for L in gen.sequences(["0 1", "1 2", "2 0", "12 3", "-1 2", "1 0"], 5 if deep else 4 if big else 3):
            for tr in (True, False):
                yield ("plain", L, tr)

    def calls():
        from rosemary.graphs import graphs as m
        return {
            "complete 4": (m.complete_graph, lambda: (4,)),
            "complete 2": (m.complete_graph, lambda: (2,)),
            "petersen": (m.petersen_graph, lambda: ()),
            "coprime": (m.coprime_pairs_graph, lambda: (6,)),
            "odd": (m.odd_graph, lambda: (3,)),
            "grid": (m.grid_graph, lambda: (3,)),
            "random": (m.random_graph, lambda: (4, 0.5)),
        }

    return [
        Domain("complete", list(range(0, 70 if deep else 40 if big else 25)), complete, bound="n < %d" % (70 if deep else 40 if big else 25)),
        Domain("coprime-pairs", list(range(0, 220 if deep else 120 if big else 60)), coprime, bound="n < %d" % (220 if deep else 120 if big else 60)),
        Domain("grid", list(range(0, 50 if deep else 30 if big else 18)), grid, bound="n < %d" % (50 if deep else 30 if big else 18)),
        Domain("odd", list(range(1, 8 if big else 7)), odd, bound="k <= %d" % (7 if big else 6)),
        Domain("petersen", [0], petersen, bound="the one graph"),
        Domain("random", [(n, d) for n in range(0, 6) for d in (0.3, 0.5, 0.7, 1, 1.0, -0.1)], random_g,
               bound="every outcome of the first six draws (low, middle, high), n <= 5"),
        Domain("edge probability", [(k, s) for s in (10, 40) + ((1000,) if big else ()) + ((4001,) if deep else ()) for k in range(0, s + 1)], probability,
               bound="every probability k/10 and k/40%s, as many equally spaced draws" % (", k/1000%s" % (", k/4001" if deep else "") if big else "")),
        Domain("long files", [(k, n, m, e, o) for k in ("dimacs", "plain") for n in (5, 40, 600) for m in (1, 1000, 10 ** 9, 2 ** 70)
                              for e in ("\n", "\r\n") for o in (0, 1)], big_file, bound="up to 1199 lines, labels to 2**80, two line endings"),
        Domain("large", [("complete", n) for n in (64, 65, 66, 80, 130)] + [("coprime", n) for n in (100, 128, 150, 211)]
               + [("grid", n) for n in (20, 21, 25, 32, 33)], lambda c, t: {"complete": complete, "coprime": coprime, "grid": grid}[c[0]](c[1], t),
               bound="complete to 130, coprime pairs to 211, grids to 33"),
        Domain("files", files, load, bound="all files of <= 3 edge lines over 5-6 lines with/without headers, both line endings"),
        call_histories("call-histories", calls(), depth=3),
    ]
