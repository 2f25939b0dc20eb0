"""Graph objects behave like an undirected weighted simple graph under every history."""

import itertools

from mc import gen
from mc.engine import Domain, Violation, check, equal
from mc.history import call_histories

PROPERTY = "P01"
ASSUMPTIONS = [
    "vertices of one graph are mutually comparable, hashable and not None; no self-loops "
    "(the library documents simple graphs)",
    "order of vertices/edges is compared only where the documentation fixes it",
]


class Ref:
    """Reference model: a vertex set and a map from unordered pairs to weights."""

    def __init__(self, V=(), E=None):
        self.V = set(V)
        self.E = dict(E or {})

    def copy(self):
        return Ref(self.V, self.E)

    def add_vertices(self, vs):
        self.V |= set(vs)

    def add_edge(self, u, v, w=1):
        self.V |= {u, v}
        self.E[frozenset((u, v))] = w

    def delete_vertices(self, vs):
        vs = set(vs)
        self.V -= vs
        self.E = {e: w for e, w in self.E.items() if not e & vs}

    def delete_edge(self, u, v):
        self.E.pop(frozenset((u, v)), None)

    def nbrs(self, u):
        return {v for v in self.V if frozenset((u, v)) in self.E and u != v}

    def induced(self, S):
        S = set(S)
        return Ref(S, {e: w for e, w in self.E.items() if e <= S})

    def complement(self):
        return Ref(self.V, {frozenset(p): 1 for p in itertools.combinations(self.V, 2)
                            if frozenset(p) not in self.E})

    def key(self):
        return (tuple(sorted(self.V)), tuple(sorted((tuple(sorted(e)), w) for e, w in self.E.items())))


def adj_of(G):
    return {u: dict(G[u]) for u in G}


def ref_adj(R):
    return {u: {v: R.E[frozenset((u, v))] for v in R.nbrs(u)} for u in R.V}


def same(G, R, what):
    got, want = adj_of(G), ref_adj(R)
    if got != want:
        raise Violation("%s: graph is %r, reference is %r" % (what, got, want))


def check_order(vs, R, order):
    check(len(vs) == len(R.V) and set(vs) == R.V, "vertices(order=%s) is %r", order, vs)
    if order == "degree":
        ds = [len(R.nbrs(u)) for u in vs]
        check(ds == sorted(ds), "degree order %r has degrees %r", vs, ds)
    elif order == "induced":
        left = R.copy()
        for u in vs:
            m = min(len(left.nbrs(x)) for x in left.V)
            check(len(left.nbrs(u)) == m, "induced order %r: %r is not of least degree", vs, u)
            left.delete_vertices([u])
    else:
        equal(vs, sorted(R.V), "vertices()")


def observe(G, R, universe):
    """Compare every observer of G with the reference."""
    same(G, R, "adjacency")
    n = len(R.V)
    want = ref_adj(R)
    equal(G.num_vertices(), n, "num_vertices")
    equal(G.num_edges(), len(R.E), "num_edges")
    equal(G.vertex_set(), R.V, "vertex_set")
    equal(sorted(G), sorted(R.V), "iteration")
    equal(repr(G), "Graph on %d vertices" % n, "repr")
    es = sorted(tuple(sorted(e)) for e in R.E)
    wes = sorted(tuple(sorted(e)) + (w,) for e, w in R.E.items())
    equal(G.edges(), es, "edges()")
    equal(G.edge_set(), set(es), "edge_set()")
    equal(G.edges(weights=True), wes, "edges(weights)")
    equal(G.edge_set(weights=True), set(wes), "edge_set(weights)")
    for order in (None, "degree", "induced"):
        check_order(G.vertices(order=order), R, order)
        check_order(G.vertices(order=order, reverse=True)[::-1], R, order)
    equal(G.vertices(), sorted(R.V), "vertices()")
    deg = {u: len(want[u]) for u in R.V}
    for u in R.V:
        equal(G.degree(u), deg[u], "degree(%r)" % (u,))
        equal(G.neighbors(u), set(want[u]), "neighbors(%r)" % (u,))
        equal(G.neighborhood(u), set(want[u]), "neighborhood(%r)" % (u,))
        equal(G.closed_neighborhood(u), set(want[u]) | {u}, "closed_neighborhood(%r)" % (u,))
        equal(dict(G[u]), want[u], "item %r" % (u,))
    equal(G.leaves(), {u for u in R.V if deg[u] == 1}, "leaves")
    equal(G.total_degree(), 2 * len(R.E), "total_degree")
    some = sorted(R.V)[::2]
    equal(G.total_degree(some), sum(deg[u] for u in some), "total_degree(list)")
    equal(G.total_degree([]), 0, "total_degree([])")
    if n:
        equal(G.maximum_degree(), max(deg.values()), "maximum_degree")
        equal(G.minimum_degree(), min(deg.values()), "minimum_degree")
        equal(deg[G.maximum_degree_vertex()], max(deg.values()), "maximum_degree_vertex")
        equal(deg[G.minimum_degree_vertex()], min(deg.values()), "minimum_degree_vertex")
    else:
        for m in ("maximum_degree", "minimum_degree", "maximum_degree_vertex",
                  "minimum_degree_vertex"):
            try:
                getattr(G, m)()
            except ValueError:
                continue
            raise Violation("%s answered on a graph without vertices" % m)
    if n >= 2:
        d = G.density()
        check(abs(d - len(R.E) / (n * (n - 1) / 2.0)) < 1e-12, "density is %r", d)
    vs = sorted(R.V)
    if not vs:
        return same(G, R, "observers changed the graph")
    A, D, L = G.adjacency_matrix(), G.degree_matrix(), G.laplacian_matrix()
    for i, u in enumerate(vs):
        for j, v in enumerate(vs):
            a = 1 if v in want[u] else 0
            d = deg[u] if i == j else 0
            check(A[i][j] == a and D[i][j] == d and L[i][j] == d - a,
                  "matrix entries (%r, %r): %r %r %r", u, v, A[i][j], D[i][j], L[i][j])
    same(G, R, "observers changed the graph")


def derive(G, R, universe):
    """Every derived graph equals the model's, and is independent of the original."""
    outs = [("copy", G.copy(), R.copy()), ("complement", G.complement(), R.complement())]
    for u in universe:
        x = R.copy()
        x.delete_vertices([u])
        outs.append(("remove_vertex(%r)" % (u,), G.remove_vertex(u), x))
        if u in R.V:
            x = R.copy()
            x.delete_vertices(R.nbrs(u))
            outs.append(("remove_neighborhood(%r)" % (u,), G.remove_neighborhood(u), x))
            x = R.copy()
            x.delete_vertices(R.nbrs(u) | {u})
            outs.append(("remove_closed_neighborhood(%r)" % (u,), G.remove_closed_neighborhood(u), x))
    for u, v in itertools.permutations(universe, 2):
        x = R.copy()
        x.delete_edge(u, v)
        outs.append(("remove_edge(%r, %r)" % (u, v), G.remove_edge(u, v), x))
        outs.append(("remove_edge((%r, %r))" % (u, v), G.remove_edge((u, v)), x))
        outs.append(("remove_edge triple", G.remove_edge((u, v, 3)), x))
    for k in range(len(universe) + 1):
        for S in itertools.combinations(universe, k):
            x = R.copy()
            x.delete_vertices(S)
            outs.append(("remove_vertices(%r)" % (S,), G.remove_vertices(list(S)), x))
            if set(S) <= R.V:
                for kind in (list, set, tuple):
                    outs.append(("induced_subgraph(%r)" % (kind(S),), G.induced_subgraph(kind(S)),
                                 R.induced(S)))
    same(G, R, "deriving changed the graph")
    before = adj_of(G)
    for what, H, x in outs:
        same(H, x, what)
        # mutate the derived graph: the original must not notice
        es = H.edges()
        for e in es:
            H.add_edge(e[0], e[1], 99)
        H.add_vertex(universe[-1])
        if es:
            H.delete_edge(*es[0])
        H.delete_vertex(universe[0])
    if adj_of(G) != before:
        raise Violation("changing a derived graph changed the original: %r -> %r" % (before, adj_of(G)))


def ops_single(lab):
    a, b, c = lab
    return [
        ("add_vertex(a)", lambda G: G.add_vertex(a), lambda R: R.add_vertices([a])),
        ("add_vertices([c,a])", lambda G: G.add_vertices([c, a]), lambda R: R.add_vertices([c, a])),
        ("add_edge(a,b)", lambda G: G.add_edge(a, b), lambda R: R.add_edge(a, b)),
        ("add_edge(b,a,5)", lambda G: G.add_edge(b, a, 5), lambda R: R.add_edge(a, b, 5)),
        ("add_edge((c,b))", lambda G: G.add_edge((c, b)), lambda R: R.add_edge(b, c)),
        ("add_edge((b,c,0))", lambda G: G.add_edge((b, c, 0)), lambda R: R.add_edge(b, c, 0)),
        ("add_edge(a,c,weight=-2)", lambda G: G.add_edge(a, c, weight=-2),
         lambda R: R.add_edge(a, c, -2)),
        ("add_edges", lambda G: G.add_edges([(c, a), (a, b, 3)]),
         lambda R: (R.add_edge(c, a), R.add_edge(a, b, 3))),
        ("delete_vertex(a)", lambda G: G.delete_vertex(a), lambda R: R.delete_vertices([a])),
        ("delete_vertex(c)", lambda G: G.delete_vertex(c), lambda R: R.delete_vertices([c])),
        ("delete_vertices(b,a)", lambda G: G.delete_vertices((b, a)),
         lambda R: R.delete_vertices([a, b])),
        ("delete_edge(b,a)", lambda G: G.delete_edge(b, a), lambda R: R.delete_edge(a, b)),
        ("delete_edge((b,c))", lambda G: G.delete_edge((b, c)), lambda R: R.delete_edge(b, c)),
        ("delete_edge((a,c,9))", lambda G: G.delete_edge((a, c, 9)), lambda R: R.delete_edge(a, c)),
    ]


LABELS = {
    "int": (0, 1, 2),
    "str": ("b", "a", "c"),
    "tuple": ((0, 1), (0, 2), (1, 0)),
    "neg": (-1, 7, 3),
}

STARTS = {
    "empty": [],
    "triangle": [("E", 0, 1, 2), ("E", 1, 2, 1), ("E", 0, 2, 4)],
    "edge+isolated": [("V", 2), ("E", 0, 1, 3)],
}


def start(name, lab):
    from rosemary.graphs.graphs import Graph
    G, R = Graph(), Ref()
    for s in STARTS[name]:
        if s[0] == "V":
            G.add_vertex(lab[s[1]])
            R.add_vertices([lab[s[1]]])
        else:
            G.add_edge(lab[s[1]], lab[s[2]], s[3])
            R.add_edge(lab[s[1]], lab[s[2]], s[3])
    return G, R


def run_history(case, t):
    labname, st, hist, deep = case
    lab = LABELS[labname]
    ops = ops_single(lab)
    G, R = start(st, lab)
    for i in hist:
        name, g, r = ops[i]
        res = t.call(g, G)
        check(res is None, "%s returned %r", name, res)
        r(R)
        same(G, R, "after %r" % ([ops[j][0] for j in hist],))
    observe(G, R, lab)
    if deep:
        derive(G, R, lab)
        observe(G, R, lab)
    t.outcome(R.key())


# two objects: derive one from the other, then change either

def two_object_ops(lab):
    a, b, c = lab
    D = [
        ("B=A.copy()", lambda G: G.copy(), lambda R: R.copy()),
        ("B=A.remove_vertex(a)", lambda G: G.remove_vertex(a), lambda R: _minus(R, [a])),
        ("B=A.remove_edge(a,b)", lambda G: G.remove_edge(a, b), lambda R: _minus_e(R, a, b)),
        ("B=A.complement()", lambda G: G.complement(), lambda R: R.complement()),
        ("B=A.induced(all)", lambda G: G.induced_subgraph(G.vertices()), lambda R: R.induced(R.V)),
        ("B=A.induced(first two)", lambda G: G.induced_subgraph(G.vertices()[:2]),
         lambda R: R.induced(sorted(R.V)[:2])),
    ]
    M = [ops_single(lab)[i] for i in (0, 3, 4, 7, 8, 11)]
    out = []
    for x in D:
        out.append(("D",) + x)
    for x in M:
        out.append(("A",) + x)
    for x in M:
        out.append(("B",) + x)
    out.append(("S", "swap A and B", None, None))
    return out


def _minus(R, S):
    x = R.copy()
    x.delete_vertices(S)
    return x


def _minus_e(R, u, v):
    x = R.copy()
    x.delete_edge(u, v)
    return x


def run_two(case, t):
    from rosemary.graphs.graphs import Graph
    labname, st, hist = case
    lab = LABELS[labname]
    ops = two_object_ops(lab)
    A, RA = start(st, lab)
    B, RB = Graph(), Ref()
    for i in hist:
        kind, name, g, r = ops[i]
        t.calls += 1
        if kind == "D":
            B, RB = g(A), r(RA)
        elif kind == "A":
            g(A)
            r(RA)
        elif kind == "B":
            g(B)
            r(RB)
        else:
            A, RA, B, RB = B, RB, A, RA
        names = [ops[j][1] for j in hist]
        same(A, RA, "A after %r" % names)
        same(B, RB, "B after %r" % names)
    observe(A, RA, lab)
    observe(B, RB, lab)
    t.outcome((RA.key(), RB.key()))


def run_graph(case, t):
    """One whole graph: observers, derived graphs, vertex/edge deletions one at a time."""
    g, labname = case
    n = g[0]
    lab = {"int": lambda i: i, "str": lambda i: "v%d" % i, "rev": lambda i: 10 * (n - i)}[labname]
    G = gen.build(g, lab)
    R = Ref([lab(i) for i in range(n)])
    for e in g[1]:
        R.add_edge(lab(e[0]), lab(e[1]), e[2] if len(e) == 3 else 1)
    observe(G, R, [lab(i) for i in range(n)])
    t.calls += 20
    if n <= 4:
        derive(G, R, [lab(i) for i in range(n)] or [0])
    for i in range(n):
        H, x = G.copy(), R.copy()
        H.delete_vertex(lab(i))
        x.delete_vertices([lab(i)])
        same(H, x, "delete_vertex")
        same(G, R, "original after deleting from a copy")
        for u in (G.remove_neighborhood(lab(i)), G.remove_closed_neighborhood(lab(i))):
            t.calls += 1
        x = _minus(R, R.nbrs(lab(i)))
        same(G.remove_neighborhood(lab(i)), x, "remove_neighborhood")
        x = _minus(R, R.nbrs(lab(i)) | {lab(i)})
        same(G.remove_closed_neighborhood(lab(i)), x, "remove_closed_neighborhood")
    t.outcome(R.key())


def family(kind, n):
    """Named graphs on n vertices, with weights."""
    E = {
        "complete": [(i, j) for i in range(n) for j in range(i)],
        "path": [(i, i + 1) for i in range(n - 1)],
        "star": [(0, i) for i in range(1, n)],
        "two stars": [(0, i) for i in range(2, n)] + [(1, i) for i in range(2, n, 2)],
        "tree": [((i - 1) // 2, i) for i in range(1, n)],
        "sparse": [(i, j) for i in range(n) for j in range(i) if (i * i + 3 * j * j + i * j) % 11 == 0],
        "dense": [(i, j) for i in range(n) for j in range(i) if (i * i + 5 * j) % 13],
        "half": [(i, j) for i in range(n) for j in range(i) if i + j >= n],     # every degree occurs
        "cliques": [(i, j) for i in range(n) for j in range(i) if i // 7 == j // 7],
        "empty": [],
    }[kind]
    return [(i, j, (i * 7 + j * 3) % 5 - 1) for i, j in E]


def large(case, t):
    """Observers, derived graphs and long histories of deletions on graphs with many vertices."""
    from rosemary.graphs.graphs import Graph
    kind, n, labname = case
    lab = {"int": lambda i: i, "str": lambda i: "v%03d" % i, "huge": lambda i: i * 2 ** 70 - 5}[labname]
    E = [(lab(i), lab(j), w) for i, j, w in family(kind, n)]
    V = [lab(i) for i in range(n)]
    G, R = Graph(), Ref()
    t.calls += 30
    if n % 2:
        G.add_vertices(V)
        R.add_vertices(V)
        G.add_edges(E)
    else:
        for e in E[::-1]:
            G.add_edge(e)
        for v in V[::-1]:
            G.add_vertex(v)
        R.add_vertices(V)
    for e in E:
        R.add_edge(*e)
    same(G, R, "%s graph on %d vertices" % (kind, n))
    observe(G, R, V)
    parts = {"even": V[::2], "first": V[:n // 3], "last": V[n // 3:], "none": [], "all": V, "squares": [V[i * i % n] for i in range(n)]}
    outs = [("copy", G.copy(), R.copy()), ("complement", G.complement(), R.complement())]
    for what, S in parts.items():
        outs.append(("induced_subgraph(%s)" % what, G.induced_subgraph(S), R.induced(S)))
        outs.append(("remove_vertices(%s)" % what, G.remove_vertices(S), _minus(R, S)))
        H = G.copy()
        H.delete_vertices(iter(S))
        outs.append(("delete_vertices(%s)" % what, H, _minus(R, S)))
    for u in (V[0], V[1], V[n // 2], V[-1]):
        outs.append(("remove_vertex", G.remove_vertex(u), _minus(R, [u])))
        outs.append(("remove_neighborhood", G.remove_neighborhood(u), _minus(R, R.nbrs(u))))
        outs.append(("remove_closed_neighborhood", G.remove_closed_neighborhood(u), _minus(R, R.nbrs(u) | {u})))
        for v in (V[0], V[-1]):
            if u != v:
                outs.append(("remove_edge", G.remove_edge(u, v), _minus_e(R, u, v)))
    for what, H, x in outs:
        same(H, x, what)
    before = adj_of(G)
    for what, H, x in outs:
        for e in H.edges():
            H.add_edge(e[0], e[1], 99)
        H.delete_vertices(list(H)[::2])
        H.add_edge(V[0], V[-1], 5)
    if adj_of(G) != before:
        raise Violation("changing a derived graph changed the original")
    # every second edge, then every vertex, deleted one at a time
    H, x = G.copy(), R.copy()
    for k, e in enumerate(sorted(tuple(sorted(e)) for e in R.E)[::2]):
        if k % 3 == 0:
            H.delete_edge(e)
        else:
            H.delete_edge(*(e if k % 3 == 1 else e[::-1]))
        x.delete_edge(*e)
    same(H, x, "every second edge deleted")
    for i, u in enumerate(V[::2] + V[1::2]):
        H.delete_vertex(u)
        x.delete_vertices([u])
        if i % 8 == 0 or i > n - 3:
            same(H, x, "%d vertices deleted" % (i + 1))
    t.outcome((case, len(R.E)))


def domains(tier):
    big = tier == "thorough"
    depth = 5 if big else 4
    nops = len(ops_single((0, 1, 2)))

    def single():
        for lab, st in (("int", "empty"), ("int", "triangle"), ("str", "edge+isolated")):
            for h in gen.sequences(range(nops), depth):
                yield (lab, st, h, False)

    def single_deep():
        for lab in LABELS:
            for st in STARTS:
                for h in gen.sequences(range(nops), 2):
                    yield (lab, st, h, True)

    n2 = len(two_object_ops((0, 1, 2)))

    def two():
        for lab, st in (("int", "triangle"), ("str", "edge+isolated")):
            for h in gen.sequences(range(n2), 4 if big else 3, 1):
                yield (lab, st, h)

    def graphs():
        for n in range(0, 5):
            for g in gen.labelled_graphs(n):
                for lab in ("int", "str", "rev"):
                    yield (g, lab)
        for n in (2, 3):
            for g in gen.labelled_graphs(n):
                for wg in gen.weightings(g, (0, 2, -1, 1.5)):
                    yield (wg, "int")
        for n in ((5, 6) if big else (5,)):
            for g in gen.iso_graphs(n):
                for h in gen.relabellings(g, 3):
                    yield (h, "int")

    def calls():
        from rosemary.graphs import graphs as m
        from rosemary.graphs.graphs import Graph

        def tri():
            return gen.build((4, ((0, 1, 2), (1, 2, 1), (0, 2, 4), (2, 3, 1))))
        return {
            "Graph()": (lambda: Graph(), lambda: ()),
            "copy": (lambda G: G.copy(), lambda: (tri(),)),
            "complement": (lambda G: G.complement(), lambda: (tri(),)),
            "edges": (lambda G: G.edges(weights=True), lambda: (tri(),)),
            "vertices induced": (lambda G: G.vertices(order="induced"), lambda: (tri(),)),
            "vertex_set": (lambda G: G.vertex_set(), lambda: (tri(),)),
            "neighbors": (lambda G: G.neighbors(2), lambda: (tri(),)),
            "closed": (lambda G: G.closed_neighborhood(2), lambda: (tri(),)),
            "induced_subgraph": (lambda G, S: G.induced_subgraph(S), lambda: (tri(), [0, 1, 2])),
            "remove_vertices": (lambda G, S: G.remove_vertices(S), lambda: (tri(), [0, 1])),
            "remove_closed": (lambda G: G.remove_closed_neighborhood(0), lambda: (tri(),)),
            "laplacian": (lambda G: G.laplacian_matrix(), lambda: (tri(),)),
            "complete_graph": (m.complete_graph, lambda: (4,)),
        }

    return [
        Domain("single-object-histories", single, run_history,
               bound="all histories of <= %d of %d mutations from 3 start graphs" % (depth, nops)),
        Domain("single-object-histories-derived", single_deep, run_history,
               bound="all histories of <= 2 mutations, then every derived graph, 4 label kinds"),
        Domain("two-object-histories", two, run_two,
               bound="all histories of <= %d of %d operations on two related graphs" % (4 if big else 3, n2)),
        Domain("whole-graphs", graphs, run_graph,
               bound="all labelled graphs on <= 4 vertices, all isomorphism classes on <= %d" % (6 if big else 5)),
        Domain("large", [(k, n, l) for k in ("complete", "path", "star", "two stars", "tree", "sparse", "dense", "half", "cliques", "empty")
                         for n, l in ((21, "int"), (34, "str"), (51, "huge")) + (((90, "int"), (151, "str"), (9, "huge")) if big else ())], large,
               bound="ten families on 21..%d vertices, with zero and negative weights" % (151 if big else 51)),
        call_histories("call-histories", calls(), depth=2),
    ]
