"""Deterministic enumerators of small spaces."""

import itertools
import json
import os
from fractions import Fraction

_DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")


def labelled_graphs(n):
    """Every simple graph on 0..n-1, as (n, ((u, v), ...))."""
    pairs = list(itertools.combinations(range(n), 2))
    for k in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, k):
            yield (n, es)


def iso_graphs(n):
    """One representative per isomorphism class on n <= 7 vertices."""
    with open(os.path.join(_DATA, "atlas.json")) as f:
        for m, edges in json.load(f):
            if m == n:
                yield (n, tuple((u, v) for u, v in edges))


def hard_graphs():
    """[n, chromatic number, edges] of graphs on which saturation-first coloring uses too many colors."""
    with open(os.path.join(_DATA, "hard_to_color.json")) as f:
        return json.load(f)


def _trees(n):
    """One representative of each isomorphism class of trees on n vertices, vertex i > 0 joined to an earlier one."""
    seen = {}

    def code(adj, u, p):
        return "(" + "".join(sorted(code(adj, v, u) for v in adj[u] if v != p)) + ")"

    def grow(parents):
        if len(parents) == n - 1:
            adj = [[] for _ in range(n)]
            for i, q in enumerate(parents, 1):
                adj[i].append(q)
                adj[q].append(i)
            seen.setdefault(min(code(adj, u, -1) for u in range(n)), parents)
            return
        # parents along the rightmost path only: every rooted ordered tree once
        u = len(parents)
        while True:
            grow(parents + (u,))
            if u == 0:
                return
            u = parents[u - 1]
    grow(())
    return [(n, tuple((q, i) for i, q in enumerate(par, 1))) for par in seen.values()]


def medium_graphs(big=False):
    """Graphs on 8..12 vertices in families that are enumerated whole: circulants, trees, complete multipartite graphs
    and their complements, products, rows of cliques; and the hard-to-color list (every fourth graph unless big)."""
    for n in (8, 9, 10, 11, 12) if big else (8, 9, 10):
        for k in range(1, n // 2 + 1):
            for C in itertools.combinations(range(1, n // 2 + 1), k):
                yield (n, tuple(sorted({tuple(sorted((i, (i + c) % n))) for i in range(n) for c in C})))
    for n in (8, 9) if big else (8,):
        yield from _trees(n)

    def parts(n, top):
        if n == 0:
            yield ()
        for k in range(min(n, top), 0, -1):
            for r in parts(n - k, k):
                yield (k,) + r
    for n in (8, 9, 10) if big else (8, 9):
        for p in parts(n, n):
            side = [i for i, k in enumerate(p) for _ in range(k)]
            for same in (False, True):
                yield (n, tuple((u, v) for u, v in itertools.combinations(range(n), 2) if (side[u] == side[v]) == same))
    for a, b in ((2, 4), (2, 5), (3, 3), (3, 4), (2, 6)):
        for wrap in (0, 1, 2):      # grid, prism, rook's graph
            V = list(itertools.product(range(a), range(b)))
            yield (a * b, tuple((i, j) for i, j in itertools.combinations(range(a * b), 2)
                                if (V[i][0] == V[j][0] and (wrap == 2 or (V[i][1] - V[j][1]) in ((1, -1) if wrap == 0 else (1, -1, b - 1, 1 - b))))
                                or (V[i][1] == V[j][1] and (wrap == 2 or abs(V[i][0] - V[j][0]) == 1))))
    for k, m in ((3, 3), (4, 2), (2, 5), (4, 3)):       # rows of m cliques of k vertices, joined at vertices and by edges
        for step in (k - 1, k):
            n = step * (m - 1) + k
            yield (n, tuple((u, v) for u, v in itertools.combinations(range(n), 2)
                            if any(step * i <= u < v < step * i + k for i in range(m)) or (step == k and v == u + 1)))
    for i, (n, _, es) in enumerate(hard_graphs()):
        if n > 7 and (big or i % 4 == 0):
            yield (n, tuple(tuple(e) for e in es))


MEDIUM = "circulants on 8..%s vertices, trees on 8%s, complete multipartite graphs on 8..%s and complements, products, rows of cliques, %s irregular graphs"


def medium_bound(big=False):
    return MEDIUM % ((12, "-9", 10, 142) if big else (10, "", 9, 36))


WEIGHT_PATTERNS = [(1,), (2**60 + 1, 2**60, 2**60 + 3, 2**60 + 2), (7, 1, 4, 4, 2, 9, 3), (0.25, 3.5, 1.75, 0.5, 2.25),
                   (5, 4, 3, 2, 1), (1, 100, 10, 1000, 1)]


def weighted(g, r):
    """g with the r-th pattern of positive weights (exact in binary floating point)."""
    ws = WEIGHT_PATTERNS[r % len(WEIGHT_PATTERNS)]
    return (g[0], tuple(e + (ws[(3 * j + j * j // 5) % len(ws)],) for j, e in enumerate(g[1])))


MAGNITUDES = ("huge", "vast", "thin", "thirds", "near")


def scaled(g, kind):
    """The weights of g as other exact numbers: differences of one part in 2**80, beyond the range of floating point, or
    fractions that differ by less than any tolerance."""
    f = _SCALE[kind]
    return (g[0], tuple((e[0], e[1], f(j, int(4 * e[2]))) for j, e in enumerate(g[1])))


_SCALE = {"huge": lambda j, w: 2**80 * w + j % 2,
          "vast": lambda j, w: 10**400 * w + j % 3,
          "thin": lambda j, w: Fraction(w, 10**13),
          "thirds": lambda j, w: Fraction(w, 3),
          "near": lambda j, w: w + Fraction(j % 3, 10**12)}


def scaled_numbers(ws, kind):
    return tuple(_SCALE[kind](j, int(4 * w)) for j, w in enumerate(ws))


def relabel(g, perm):
    n, es = g
    return (n, tuple((perm[e[0]], perm[e[1]]) + tuple(e[2:]) for e in es))


def relabellings(g, k):
    """k fixed relabellings of g (rotations, reversal, interleaving), deduplicated."""
    n = g[0]
    perms = [tuple(range(n)), tuple(reversed(range(n))),
             tuple(list(range(0, n, 2)) + list(range(1, n, 2)))]
    perms += [tuple((i + r) % n for i in range(n)) for r in range(1, n)] if n else []
    seen = []
    for p in perms:
        if p not in seen:
            seen.append(p)
    return [relabel(g, p) for p in seen[:k]]


def is_connected(g):
    n, es = g
    if n == 0:
        return True
    adj = {u: set() for u in range(n)}
    for e in es:
        adj[e[0]].add(e[1])
        adj[e[1]].add(e[0])
    seen = {0}
    todo = [0]
    while todo:
        for v in adj[todo.pop()]:
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return len(seen) == n


def weightings(g, ws):
    n, es = g
    for w in itertools.product(ws, repeat=len(es)):
        yield (n, tuple(e + (x,) for e, x in zip(es, w)))


LABELLERS = {
    "int": lambda i: i,
    "rev": lambda i: 50 - 3 * i,
    "str": lambda i: "v%d" % i,
    "tup": lambda i: (i % 2, 9 - i),
}


def build(g, labels=None, order=0):
    """A rosemary Graph for (n, edges); labels maps 0..n-1 to vertex objects.

    order 0: vertices ascending, then edges; 1: edges last to first with endpoints
    swapped, then the vertices; 2: vertices descending, edges with every second one
    first.  It fixes the iteration orders the algorithms see.
    """
    from rosemary.graphs.graphs import Graph
    n, es = g
    if isinstance(labels, str):
        labels = LABELLERS[labels]
    lab = labels or (lambda i: i)
    G = Graph()
    if order == 0:
        G.add_vertices([lab(i) for i in range(n)])
    elif order == 1:
        es = [(e[1], e[0]) + tuple(e[2:]) for e in reversed(es)]
    else:
        G.add_vertices([lab(i) for i in reversed(range(n))])
        es = list(es[1::2]) + list(es[::2])
    for e in es:
        if len(e) == 3:
            G.add_edge(lab(e[0]), lab(e[1]), e[2])
        else:
            G.add_edge(lab(e[0]), lab(e[1]))
    if order == 1:
        G.add_vertices([lab(i) for i in range(n)])
    return G


def snapshot(G):
    return {u: dict(G[u]) for u in G}


def adjacency(g):
    n, es = g
    adj = {u: {} for u in range(n)}
    for e in es:
        w = e[2] if len(e) == 3 else 1
        adj[e[0]][e[1]] = w
        adj[e[1]][e[0]] = w
    return adj


def sequences(alphabet, max_len, min_len=0):
    for k in range(min_len, max_len + 1):
        yield from itertools.product(alphabet, repeat=k)


# -- large graphs whose cliques, independent sets and colorings are known by construction -----------------------------

def cograph(expr):
    """(n, edges, maximal cliques, maximal independent sets) of ("v", k), ("union", a, b, ...) or ("join", a, b, ...);
    ("v", k) is k isolated vertices. Cographs are perfect: colors needed = size of the largest clique."""
    if expr[0] == "v":
        k = expr[1]
        return k, [], [frozenset([i]) for i in range(k)], [frozenset(range(k))]
    n, edges, parts = 0, [], []
    for e in expr[1:]:
        k, es, cl, ind = cograph(e)
        parts.append((n, k, [frozenset(i + n for i in c) for c in cl], [frozenset(i + n for i in c) for c in ind]))
        edges += [(u + n, v + n) for u, v in es]
        n += k
    together = [[s for p in parts for s in p[i]] for i in (2, 3)]
    combined = [[frozenset().union(*x) for x in itertools.product(*(p[i] for p in parts))] for i in (2, 3)]
    if expr[0] == "union":
        return n, edges, together[0], combined[1]
    edges += [(u, v) for p, q in itertools.combinations(parts, 2) for u in range(p[0], p[0] + p[1])
              for v in range(q[0], q[0] + q[1])]
    return n, edges, combined[0], together[1]


def clique_expr(k):
    return ("join",) + (("v", 1),) * k if k > 1 else ("v", 1)


def large_cographs():
    """Graphs on up to 80 vertices: whole families, in which no enumeration is longer than a few thousand sets."""
    for k in (10, 12):
        yield clique_expr(k)                                                # complete
        yield ("join",) + (("v", 2),) * (k // 2) + (("v", 1),)              # nearly complete
        yield ("union", clique_expr(k), ("v", 30))
        yield ("union", clique_expr(3), ("v", 30), clique_expr(k))
        yield ("join", ("v", 40), clique_expr(k // 2))                      # split graphs
        yield ("join", ("union", clique_expr(4), ("v", 30)), ("v", 35))
    for sizes in ((3, 4, 5, 6, 7), (7, 6, 5, 4, 3), (20, 20, 20), (1, 70), (2, 3, 30, 30)):
        yield ("join",) + tuple(("v", k) for k in sizes)                    # complete multipartite
    for sizes in ((2,) * 9, (3, 4, 5, 6), (6, 5, 4, 3), (8, 1, 1, 8), (1, 9, 1, 9)):
        yield ("union",) + tuple(clique_expr(k) for k in sizes)             # disjoint cliques
    a = ("union", clique_expr(3), ("join", ("v", 3), ("v", 4)))
    yield ("join", a, ("v", 30))
    yield ("union", ("join", a, ("v", 2)), ("join", a, ("v", 25)), ("v", 3))


def path_power(n, k):
    """Vertices i, j adjacent when |i - j| <= k: (edges, maximal cliques, largest independent set)."""
    return ((n, tuple((i, j) for i in range(n) for j in range(i + 1, min(n, i + k + 1)))),
            [frozenset(range(i, i + k + 1)) for i in range(n - k)] if n > k else [frozenset(range(n))], -(-n // (k + 1)))


def large_known(big=False):
    """(graph, maximal cliques, maximal independent sets or None, independence number) for large_cographs, powers of
    paths, and a clique at the far end of (or before) a long path; the number of colors is the size of the largest clique."""
    for e in large_cographs():
        n, es, cl, ind = cograph(e)
        yield (n, tuple(es)), cl, ind, max(map(len, ind))
    for n, k in ((14, 2), (33, 1), (40, 4), (70, 1), (80, 2)) + (((130, 1), (100, 5)) if big else ()):
        g, cl, a = path_power(n, k)
        yield g, cl, None, a
    for n, k in ((31, 3), (33, 4), (66, 4), (66, 9)) + (((130, 4),) if big else ()):
        for first in (False, True):
            p, c = ((k, 0) if first else (0, n))
            es = [(p + i, p + i + 1) for i in range(n - 1)] + [(c + i, c + j) for i in range(k) for j in range(i)]
            yield ((n + k, tuple(es)), [frozenset((p + i, p + i + 1)) for i in range(n - 1)]
                   + [frozenset(range(c, c + k))], None, (n + 1) // 2 + 1)
