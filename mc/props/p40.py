"""Answers never depend on what was asked before, anywhere in the library; memoized functions answer as the originals."""

import importlib
import itertools

from mc import gen
from mc.engine import Domain, check, equal
from mc.history import _freeze, _scribble, call_histories

PROPERTY = "P40"
ASSUMPTIONS = ["arguments of memoized functions are hashable, and equal arguments are interchangeable"]


def collected(per_module):
    """Calls of the other properties' histories, a few of each, or all of them."""
    out = {}
    for i in range(1, 40):
        m = importlib.import_module("mc.props.p%02d" % i)
        keep = getattr(m, "call_histories", None)
        if keep is None:
            continue
        got = []
        m.call_histories = lambda name, calls, **kw: got.append((calls, kw))
        try:
            m.domains("quick")
        finally:
            m.call_histories = keep
        for calls, kw in got:
            labs = [c for c in calls if c not in kw.get("inplace", ())]
            if per_module and len(labs) > per_module:
                labs = [labs[j * len(labs) // per_module] for j in range(per_module)]
            for lab in labs:
                out["%s %s" % (m.PROPERTY, lab)] = calls[lab]
    return out


# -- one graph object handed to many analyses ---------------------------------------------------------------

def analyses():
    from rosemary.graphs.algorithms import (cliques, coloring, connectivity, hamiltonian_paths, independent_sets, paths,
                                            spanning_trees, steiner_trees, traversal)

    def first(G):
        return min(G.vertices())

    def reachable(G):
        todo, seen = [first(G)], {first(G)}
        while todo:
            for v in G[todo.pop()]:
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
        return sorted(seen)

    out = {
        "dijkstra": lambda G: paths.dijkstra(G, first(G)),
        "bellman_ford": lambda G: paths.bellman_ford(G, first(G)),
        "floyd_warshall": lambda G: paths.floyd_warshall(G),
        "prim": lambda G: spanning_trees.prim(G),
        "kruskal": lambda G: spanning_trees.kruskal(G),
        "gabow": lambda G: list(spanning_trees.gabow(G)),
        "bron_kerbosch": lambda G: sorted(map(sorted, cliques.bron_kerbosch(G))),
        "greedy_sequential": lambda G: coloring.greedy_sequential(G, list(G.vertices())),
        "dsatur": lambda G: coloring.dsatur(G),
        "branch_and_bound": lambda G: coloring.branch_and_bound(G),
        "korman": lambda G: coloring.korman(G),
        "components": lambda G: sorted(map(sorted, connectivity.connected_components(G))),
        "dfs": lambda G: list(traversal.depth_first_search(G, first(G))),
        "bfs": lambda G: list(traversal.breadth_first_search(G, first(G))),
        "ham": lambda G: hamiltonian_paths.number_of_hamiltonian_paths(G),
        "ham bits": lambda G: hamiltonian_paths.number_of_hamiltonian_paths_bits(G),
        "complement": lambda G: G.complement(),
        "laplacian": lambda G: G.laplacian_matrix(),
        "induced": lambda G: G.induced_subgraph(list(G.vertices())[:2]),
        "copy": lambda G: G.copy(),
        "edges": lambda G: G.edges(weights=True),
        "neighbors": lambda G: G.neighbors(first(G)),
        "dijkstra pairing": lambda G: paths.dijkstra_pairing_heap(G, first(G)),
        "dijkstra buckets": lambda G: paths.dijkstra_buckets(G, first(G)),
        "bidirectional": lambda G: paths.dijkstra_bidirectional(G, first(G), max(G.vertices())),
        "cheriton tarjan": lambda G: spanning_trees.cheriton_tarjan(G),
        "tomita": lambda G: sorted(map(sorted, cliques.tomita(G))),
        "pardalos": lambda G: cliques.pardalos(G),
        "ostergard": lambda G: cliques.ostergard(G),
        "pardalos bits": lambda G: cliques.pardalos_binary(G),
        "ostergard bits": lambda G: cliques.ostergard_binary(G),
        "weight clique": lambda G: cliques.maximum_weight_clique(G),
        "exact coloring": lambda G: coloring.exact_coloring(G),
        "stable set": lambda G: independent_sets.maximum_independent_set(G),
        "stable sets": lambda G: sorted(map(sorted, independent_sets.maximal_independent_sets(G))),
        "stable bb": lambda G: independent_sets.branch_and_bound(G),
        "steiner distance": lambda G: steiner_trees.distance_network_heuristic(G, reachable(G)[::2]),
        "steiner paths": lambda G: steiner_trees.minimum_cost_paths_heuristic(G, reachable(G)[::2]),
        "paths listed": lambda G: sorted(map(list, hamiltonian_paths.hamiltonian_paths(G))),
        "connected": lambda G: connectivity.is_connected(G),
        "counts": lambda G: (G.num_vertices(), G.num_edges(), G.total_degree(), G.density(), G.maximum_degree(),
                             G.minimum_degree(), sorted(G.leaves())),
        "matrices": lambda G: (G.adjacency_matrix(), G.degree_matrix()),
        "dfs tree": lambda G: traversal.depth_first_search_tree(G, first(G)),
        "bfs tree": lambda G: traversal.breadth_first_search_tree(G, first(G)),
    }
    return out


def changes(n, edges):
    """Changes of a graph on 0..n-1 with those edges, many of which keep its size."""
    E = [tuple(e) for e in edges]
    F = [e for e in itertools.combinations(range(n), 2) if e not in E]
    out = [("add a vertex", [("add_vertex", n + 3)])]
    if n > 1:
        out.append(("delete the last vertex", [("delete_vertex", n - 1)]))
        out.append(("delete and add back the first vertex", [("delete_vertex", 0), ("add_vertex", 0)]))
        out.append(("remove a neighborhood", [("remove_closed_neighborhood", n - 1)]))
    for e in E[:1] + E[-1:]:
        out.append(("delete %r" % (e,), [("delete_edge", e)]))
        out.append(("reweight %r" % (e,), [("set", e, 9)]))
        out.append(("reweight %r by adding it again" % (e,), [("add_edge", e + (8,))]))
    for f in F[:1] + F[-1:]:
        out.append(("add %r" % (f,), [("add_edge", f + (2,))]))
        if E:
            out.append(("%r becomes %r" % (E[0], f), [("delete_edge", E[0]), ("add_edge", f + (1,))]))
            out.append(("%r becomes %r" % (E[-1], f), [("delete_edge", E[-1]), ("add_edge", f + (1,))]))
    if len(E) > 1:
        out.append(("two edges swap weights", [("swap", E[0], E[-1])]))
    return out


def change(G, ops):
    for op, x, *more in ops:
        if op in ("add_vertex", "delete_vertex", "remove_closed_neighborhood", "delete_edge"):
            getattr(G, op)(x)
        elif op == "add_edge":
            G.add_edge(*x)
        elif op == "set":
            u, v = x
            G[u][v] = G[v][u] = more[0]
        else:
            (u, v), (x, y) = x, more[0]
            a, b = G[u][v], G[x][y]
            G[u][v] = G[v][u] = b
            G[x][y] = G[y][x] = a


def answer(t, A, name, G):
    kind, got = t.attempt(A[name], G)
    return (kind, type(got).__name__) if kind == "raised" else (kind, _freeze(got))


def changed(case, t):
    """Analyse, change the graph, analyse again: as on a graph built and changed without the first analysis."""
    n, edges, (label, ops), step = case
    A = analyses()
    g = weigh(n, edges)
    names = list(A)
    want = {}
    for name in names:
        H = make(g)
        change(H, ops)
        want[name] = answer(t, A, name, H)
    for first in names:
        G = make(g)
        t.attempt(A[first], G)
        change(G, ops)
        for name in dict.fromkeys([first] + names[::step]):
            equal(answer(t, A, name, G), want[name], "%s after %s and the change: %s" % (name, first, label))
    t.outcome((n, len(edges)))


def recycled(case, t):
    """Many graphs analysed one after another, each freed before the next is built: each answers for itself."""
    name, graphs = case
    A = analyses()
    kept = [make(weigh(n, e)) for n, e in graphs]
    want = [answer(t, A, name, G) for G in kept]
    for order in itertools.permutations(range(len(graphs)), 2):
        for i in order:
            G = make(weigh(*graphs[i]))
            equal(answer(t, A, name, G), want[i], "%s of graph %r, after others were freed" % (name, graphs[i]))
            del G
    t.outcome(tuple(map(repr, want)))


def weigh(n, edges):
    return n, tuple((u, v, 1 + (3 * i) % 4) for i, (u, v) in enumerate(edges))


def shared(case, t):
    """Every sequence of analyses of one graph: each answers as on a fresh copy of it, and the graph stays as it was."""
    n, edges, names = case
    A = analyses()
    ws = {e: 1 + (3 * i) % 4 for i, e in enumerate(edges)}
    g = (n, tuple((u, v, ws[(u, v)]) for u, v in edges))
    G = make(g)
    before = _freeze(gen.snapshot(G))
    for k, name in enumerate(names):
        kind, got = t.attempt(A[name], G)
        kind2, want = t.attempt(A[name], make(g))
        if kind == "raised":
            check(kind2 == "raised" and type(got) is type(want), "%s after %r raised %r, alone %r", name, names[:k], got, want)
        else:
            check(kind2 == "ok", "%s alone raised %r", name, want)
            equal(_freeze(got), _freeze(want), "%s on a graph after %r" % (name, names[:k]))
            _scribble(got)
        equal(_freeze(gen.snapshot(G)), before, "the graph after %r and overwriting the answers" % (names[:k + 1],))
    t.outcome(case)


def make(g):
    from rosemary.graphs.graphs import Graph
    n, edges = g
    G = Graph()
    G.add_vertices(range(n))
    for u, v, w in edges:
        G.add_edge(u, v, w)
    return G


# -- memoization ----------------------------------------------------------------------------------------------

ARGS = [(), (0,), (1,), (-1,), ("a",), ((),), (None,), (0, 1), (1, 0), ((0, 1),), (frozenset(),)]
RESULTS = {(): 0, (0,): None, (1,): False, (-1,): [], ("a",): "", ((),): (), (None,): 0.0, (0, 1): 7, (1, 0): 8,
           ((0, 1),): 9, (frozenset(),): None}


def memo(case, t):
    """Two wrapped functions, all call sequences: answers of the originals, each argument tuple computed once."""
    from rosemary.utilities import cached_function
    seen = {"f": [], "g": []}

    def f(*args):
        "doc of f"
        seen["f"].append(args)
        return RESULTS[args]

    def g(*args):
        seen["g"].append(args)
        return ("g", args)

    F, G = t.call(cached_function, f), t.call(cached_function, g)
    check(F.__name__ == "f" and F.__doc__ == "doc of f", "name and documentation of a wrapped function: %r", F.__name__)
    want = {"f": [], "g": []}
    for which, i in case:
        a = ARGS[i]
        got = t.call(F if which == "f" else G, *a)
        exp = RESULTS[a] if which == "f" else ("g", a)
        check(type(got) is type(exp) and got == exp, "%s%r in %r = %r, expected %r", which, a, case, got, exp)
        if a not in want[which]:
            want[which].append(a)
        equal(seen[which], want[which], "argument tuples computed by %s in %r" % (which, case))
    t.outcome(case)


def memo_errors(case, t):
    """A call that raises is not remembered: the next one computes again."""
    from rosemary.utilities import cached_function
    fails = dict.fromkeys(range(3), case[0])
    count = []

    def f(x):
        count.append(x)
        if fails[x] > 0:
            fails[x] -= 1
            raise KeyError(x)
        return x * x

    F = cached_function(f)
    left = dict.fromkeys(range(3), case[0])
    done = set()
    runs = 0
    for x in case[1]:
        kind, v = t.attempt(F, x)
        if x in done:
            pass
        elif left[x]:
            left[x] -= 1
            runs += 1
            check(kind == "raised" and isinstance(v, KeyError), "call %r of a failing function: %r", x, v)
            equal(len(count), runs, "computations after %r" % (case,))
            continue
        else:
            done.add(x)
            runs += 1
        check(kind == "ok" and v == x * x, "call %r: %r", x, v)
        equal(len(count), runs, "computations after %r" % (case,))
    t.outcome(case)


def recursive(case, t):
    from rosemary.utilities import cached_function
    n = case
    count = []

    @cached_function
    def fib(k):
        count.append(k)
        return k if k < 2 else fib(k - 1) + fib(k - 2)

    a, b = 0, 1
    for _ in range(n):
        a, b = b, a + b
    equal(t.call(fib, n), a, "memoized Fibonacci number %d" % n)
    equal(sorted(count), list(range(n + 1)) if n > 1 else [n], "computations")
    t.outcome(case)


def domains(tier):
    q = tier == "quick"
    D = Domain
    names = list(analyses())
    chief = names[:22]
    nmax = 4
    graphs = [g for n in range(1, nmax + 1) for g in gen.iso_graphs(n)]
    small = [(n, e) for n, e in graphs]
    big = [(5, tuple(e)) for e in ([(0, 1), (1, 2), (2, 3), (3, 4), (0, 4), (1, 3)], [(0, 1), (0, 2), (1, 2), (3, 4)])]
    sizes = {}
    for n, e in small + [(5, tuple(e)) for e in itertools.islice(itertools.combinations(itertools.combinations(range(5), 2), 6), 0, None, 30)]:
        sizes.setdefault((n, len(e)), []).append((n, tuple(e)))
    alike = [v for v in sizes.values() if len(v) > 1]
    alpha = [("f", i) for i in range(len(ARGS))] + [("g", i) for i in (0, 1, 7, 8, 9)]
    few = [("f", 0), ("f", 1), ("f", 7), ("f", 8), ("f", 9), ("g", 1), ("g", 9)]
    return [
        D("shared graph, pairs", lambda: ((n, tuple(e), p) for n, e in small + big for p in itertools.product(names, repeat=2)),
          shared, bound="%d graphs, all ordered pairs of %d analyses" % (len(small) + len(big), len(names))),
        D("shared graph, triples", lambda: ((n, tuple(e), p) for n, e in (big if q else small + big)
                                            for p in itertools.product(chief, repeat=3)), shared,
          bound="all ordered triples of %d analyses" % len(chief)),
        D("analysis, change, analysis", lambda: ((n, tuple(e), ch, 6 if q else 1) for n, e in small + big for ch in changes(n, e)), changed,
          inputs_are_states=False, bound="%d graphs, %d analyses, up to 14 changes each, then the same analysis and %s others"
          % (len(small) + len(big), len(names), "every sixth of the" if q else "all")),
        D("graphs freed in between", lambda: ((a, tuple(gs)) for a in names for gs in alike), recycled, inputs_are_states=False,
          bound="all ordered pairs of graphs of equal numbers of vertices and edges, %d analyses" % len(names)),
        D("memoization", lambda: itertools.chain(
            itertools.product(alpha, repeat=1), itertools.product(alpha, repeat=2), itertools.product(alpha, repeat=3),
            itertools.product(few, repeat=4 if q else 6)), memo,
          bound="all call sequences up to 3 over %d calls, %d over %d" % (len(alpha), 4 if q else 6, len(few))),
        D("memoization of failing functions", lambda: ((k, s) for k in (0, 1, 2) for n in range(1, 6 if q else 8)
                                                       for s in itertools.product(range(3), repeat=n)), memo_errors),
        D("recursive memoization", lambda: range(0, 150), recursive),
        call_histories("histories across modules", collected(4 if q else 0), depth=2, timeout=600),
    ]
