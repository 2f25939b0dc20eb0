"""Exact cover solvers find exactly the exact covers, and every reduction to exact
cover counts exactly the objects it encodes."""

import itertools

from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P21"
ASSUMPTIONS = ["every element of every given set belongs to the target",
               "the columns of the binary form are the bit positions up to the largest one used",
               "an unsolvable Sudoku is reported by an exception"]


def M():
    from rosemary.combinatorics.optimization import exact_cover as m
    return m


def covers(full, masks):
    """All index sets of exact covers (empty sets are never part of one)."""
    out = set()

    def go(i, cov, used):
        if cov == full:
            out.add(tuple(used))
            return
        for j in range(i, len(masks)):
            if masks[j] and not masks[j] & cov:
                go(j + 1, cov | masks[j], used + [j])
    go(0, 0, [])
    return out


def families(cols, max_sets):
    """All multisets of nonempty subsets of the columns (as sorted mask tuples)."""
    for k in range(max_sets + 1):
        yield from itertools.combinations_with_replacement(range(1, 1 << cols), k)


NAMES = {"int": lambda i: i, "str": lambda i: "c%d" % (7 - i), "mix": lambda i: ("a", i) if i % 2 else i}


def sets_case(case, t):
    m = M()
    cols, masks, rev, kind = case
    masks = list(masks)[::-1] if rev else list(masks)
    nm = NAMES[kind]
    target = [nm(i) for i in range(cols)]
    sets = [[nm(i) for i in range(cols) if s >> i & 1] for s in masks]
    if rev:
        sets = [set(s) for s in sets]
    keep = [set(s) for s in sets]
    want = sorted(tuple(sorted(masks[i] for i in c)) for c in covers((1 << cols) - 1, masks))
    inv = {nm(i): i for i in range(cols)}
    for name in ("algorithmx", "algorithm_dlx"):
        sols = t.call(getattr(m, name), set(target) if rev else target, sets)
        got = sorted(tuple(sorted(sum(1 << inv[e] for e in s) for s in sol)) for sol in sols)
        equal(got, want, "exact covers by %s" % name)
        equal([set(s) for s in sets], keep, "the sets given to " + name)
        equal(len(target), cols, "the target")
    # the binary form: the universe is the bits up to the largest used one
    top = 0
    for s in masks:
        top = max(top, s.bit_length())
    w2 = sorted(tuple(sorted(masks[i] for i in c)) for c in covers((1 << top) - 1, masks))
    E = m.ExactCoverBinary(list(masks))
    equal(t.call(E.number_of_solutions), len(w2), "number_of_solutions of %r" % masks)
    got = sorted(tuple(sorted(x)) for x in t.call(E.solutions))
    equal(got, w2, "solutions of %r" % masks)
    equal(t.call(E.number_of_solutions), len(w2), "number_of_solutions of %r, asked again" % masks)
    equal(sorted(tuple(sorted(x)) for x in t.call(E.solutions)), w2, "solutions, asked again")
    E = m.ExactCoverBinary(tuple(masks))
    equal(sorted(tuple(sorted(x)) for x in t.call(E.solutions)), w2, "solutions before counting")
    t.outcome((case[:2], len(want)))


def interrupted(case, t):
    """Taking only some of the solutions, or two streams alternately, changes nothing."""
    m = M()
    masks, sched = case
    cols = 3
    sets = [[i for i in range(cols) if s >> i & 1] for s in masks]
    full = [tuple(map(tuple, s)) for s in m.algorithmx(range(cols), sets)]
    E = m.ExactCoverBinary(list(masks))
    fullb = [tuple(s) for s in E.solutions()]
    its = [m.algorithmx(range(cols), sets), m.algorithm_dlx(range(cols), sets),
           E.solutions(), E.solutions()]
    outs = [[], [], [], []]
    for s in sched:
        for v in itertools.islice(its[s], 1):
            outs[s].append(tuple(map(tuple, v)) if s < 2 else tuple(v))
            v[:] = [-1]
    for s in (0, 1):
        equal(outs[s], full[:len(outs[s])], "stream of solutions %d" % s)
    for s in (2, 3):
        equal(outs[s], fullb[:len(outs[s])], "stream of binary solutions %d" % s)
    t.schedules += 1
    t.outcome((masks, tuple(map(len, outs))))


def width(case, t):
    """The number of columns can be set (as the reductions do), also between two counts."""
    m = M()
    masks, seq = case
    E = m.ExactCoverBinary(list(masks))
    for w, op in seq:
        if w is not None:
            E.num_bits = w
        full = (1 << (max(v.bit_length() for v in masks) if w is None else w)) - 1
        want = sorted(tuple(sorted(masks[i] for i in c)) for c in covers(full, masks))
        if op == "n":
            equal(t.call(E.number_of_solutions), len(want), "number_of_solutions over %r columns" % w)
        else:
            equal(sorted(tuple(sorted(x)) for x in t.call(E.solutions)), want, "solutions over %r columns" % w)
    t.outcome((masks, seq[-1]))


def long_boards(case, t):
    """Coverings of n columns in a row (renamed or not) by intervals of the given lengths."""
    m = M()
    n, lens, kind = case
    perm = {"id": lambda i: i, "rev": lambda i: n - 1 - i, "mul": lambda i: i * 7 % n}[kind]
    ivs = [[perm(j) for j in range(i, i + l)] for l in lens for i in range(n - l + 1)]
    ways = [1] + [0] * n
    for i in range(1, n + 1):
        ways[i] = sum(ways[i - l] for l in lens if i >= l)
    masks = [sum(1 << j for j in iv) for iv in ivs]
    E = m.ExactCoverBinary(masks)
    if kind != "mul":
        equal(t.call(E.number_of_solutions), ways[n], "coverings of %d columns by intervals of %r" % (n, lens))
    if ways[n] <= 400 and (n <= 70 or kind == "id"):
        want = ways[n]
        got = [tuple(sorted(x)) for x in t.call(E.solutions)] if kind != "mul" else []
        if kind != "mul":
            equal((len(got), len(set(got))), (want, want), "listed coverings of %d columns by %r" % (n, lens))
            for s in got:
                check(sum(s) == (1 << n) - 1 and sum(v.bit_count() for v in s) == n, "%r is no exact cover", s)
        for f in (m.algorithmx, m.algorithm_dlx):
            got = [tuple(sorted(map(tuple, x))) for x in t.call(f, range(n), ivs)]
            equal((len(got), len(set(got))), (want, want), "coverings by %s" % f.__name__)
            for s in got:
                equal(sorted(j for iv in s for j in iv), list(range(n)), "a covering by %s" % f.__name__)
    t.outcome((case, ways[n]))


KNOWN_BOARDS = {7: 0, 8: 12988816, 9: 0, 10: 258584046368, 11: 0}
KNOWN_LANGFORD = {7: 26, 8: 150, 9: 0, 10: 0, 11: 17792}


def known(case, t):
    m = M()
    kind, n = case
    if kind == "domino":
        equal(t.call(m.domino_tilings, n), KNOWN_BOARDS[n], "domino_tilings(%d)" % n)
    elif kind == "langford":
        equal(t.call(m.langford_pairings, n), KNOWN_LANGFORD[n], "langford_pairings(%d)" % n)
    t.outcome(case)


def family(case, t):
    """The problem object keeps its own sets: what the caller does to the mapping afterwards does not matter."""
    m = M()
    sets = {i: set(j for j in range(4) if s >> j & 1) for i, s in enumerate(case)}
    E = m.ExactCover(sets)
    union = set().union(*sets.values()) if sets else set()
    equal(E.universe, union, "universe")
    equal(E.num_cols, len(union), "num_cols")
    equal(E.sets, sets, "sets")
    keep = dict(sets)
    sets["new"] = {99}
    sets.pop(0, None)
    equal(E.sets, keep, "sets, after the caller changed the mapping")
    equal((E.universe, E.num_cols), (union, len(union)), "universe, after the caller changed the mapping")
    t.outcome((case, len(union)))


def langford(n):
    """Langford pairings by direct placement."""
    cnt = 0
    slots = [0] * (2 * n)

    def go(k):
        nonlocal cnt
        if k == 0:
            cnt += 1
            return
        for i in range(2 * n - k - 1):
            if not slots[i] and not slots[i + k + 1]:
                slots[i] = slots[i + k + 1] = k
                go(k - 1)
                slots[i] = slots[i + k + 1] = 0
    go(n)
    return cnt


def latin(n):
    perms = list(itertools.permutations(range(n)))

    def go(rows):
        if len(rows) == n:
            return 1
        return sum(go(rows + [p]) for p in perms
                   if all(p[i] != r[i] for r in rows for i in range(n)))
    return go([])


def reductions(case, t):
    from mc.props.p20 import tilings, orient
    m = M()
    kind, n = case
    if kind == "langford":
        w = langford(n)
        equal(t.call(m.langford_pairings, n), w // 2, "langford_pairings(%d)" % n)
        E = m.ExactCoverBinary(m.langford_ints(n))
        if w:
            for sol in E.solutions():
                row = [0] * (2 * n)
                for v in sol:
                    k = 3 * n - (v >> 2 * n).bit_length() + 1 - 0
                    pos = [i for i in range(2 * n) if v >> i & 1]
                    k = pos[1] - pos[0] - 1
                    row[pos[0]] = row[pos[1]] = k
                check(sorted(row) == sorted(list(range(1, n + 1)) * 2), "langford solution %r", row)
            equal(E.number_of_solutions(), w, "langford covers")
    elif kind == "domino":
        w = tilings(n, n, orient([(0, 0), (0, 1)]))
        equal(t.call(m.domino_tilings, n), w, "domino_tilings(%d)" % n)
    else:
        w = latin(n)
        E = m.ExactCoverBinary(m.latin_square_ints(n))
        equal(t.call(E.number_of_solutions), w, "Latin squares of order %d" % n)
    t.outcome((case, w))


# ---- Sudoku ------------------------------------------------------------------------

BASE = "534678912672195348198342567859761423426853791713924856961537284287419635345286179"


def grid(which):
    g = BASE
    if which == 1:                       # transpose, relabelled
        g = "".join(str(int(g[9 * c + r]) % 9 + 1) for r in range(9) for c in range(9))
    if which == 2:                       # cyclic
        g = "".join(str((3 * (r % 3) + r // 3 + c) % 9 + 1) for r in range(9) for c in range(9))
    return g


def peers(i):
    r, c = divmod(i, 9)
    return {j for j in range(81) if j != i and (
        j // 9 == r or j % 9 == c or (j // 9 // 3 == r // 3 and j % 9 // 3 == c // 3))}


PEERS = [peers(i) for i in range(81)]


def sudoku_ref(g):
    """All completions (reference)."""
    g = list(g)
    for i in range(81):
        if g[i] != "0" and any(g[j] == g[i] for j in PEERS[i]):
            return set()
    out = set()

    def go():
        best = None
        for i in range(81):
            if g[i] == "0":
                opts = [d for d in "123456789" if all(g[j] != d for j in PEERS[i])]
                if best is None or len(opts) < len(best[1]):
                    best = (i, opts)
        if best is None:
            out.add("".join(g))
            return
        for d in best[1]:
            g[best[0]] = d
            go()
        g[best[0]] = "0"
    go()
    return out


def sudoku(case, t):
    m = M()
    which, blanks, wrong = case
    g = list(grid(which))
    for b in blanks:
        g[b] = "0"
    if wrong is not None:
        g[wrong[0]] = str(wrong[1])
    puzzle = "".join(g)
    want = sudoku_ref(puzzle)
    kind, got = t.attempt(m.sudoku_dlx, puzzle)
    if want:
        check(kind == "ok" and got in want, "sudoku_dlx(%s) -> %r, expected one of %r", puzzle, got,
              sorted(want)[:2])
    else:
        check(kind == "raised", "sudoku_dlx(%s) -> %r, but there is no solution", puzzle, got)
    equal(m.to_string(m.parse(puzzle)), puzzle, "to_string(parse(puzzle))")
    t.outcome((blanks, wrong, len(want)))


HARD = [
    ("530070000600195000098000060800060003400803001700020006060000280000419005000080079", None),
    ("000000010400000000020000000000050407008000300001090000300400200050100000000806000", None),
    ("100007090030020008009600500005300900010080002600004000300000010040000007007000300", None),
]


def hard(case, t):
    m = M()
    p = HARD[case][0]
    w = sudoku_ref(p)
    got = t.call(m.sudoku_dlx, p)
    check(got in w, "sudoku_dlx(%s) -> %r", p, got)
    t.outcome(got)


def sudokus(q):
    units = [tuple(range(9 * r, 9 * r + 9)) for r in range(9)]
    units += [tuple(range(c, 81, 9)) for c in range(9)]
    units += [tuple(27 * a + 3 * b + 9 * i + j for i in range(3) for j in range(3))
              for a in range(3) for b in range(3)]
    for w in range(3):
        for u in units:
            yield (w, u, None)
        for u, v in itertools.combinations(units, 2):
            if w == 0 or not q:
                yield (w, tuple(sorted(set(u + v))), None)
        for b in itertools.combinations(range(81), 2):
            if w == 0 or not q:
                yield (w, b, None)
        for i in range(81):
            for d in range(1, 10):
                if w < (1 if q else 3):
                    yield (w, (), (i, d))
                    yield (w, tuple(sorted({(i + 1) % 81, (i + 9) % 81, (i + 41) % 81})), (i, d))


def calls():
    m = M()
    E = m.ExactCoverBinary([1, 6, 2, 4, 7])
    return {
        "x": (m.algorithmx, lambda: ({1, 2, 3}, [[1], [2, 3], [2], [3]])),
        "dlx": (m.algorithm_dlx, lambda: ([1, 2, 3], [{1, 2}, {3}, {1}, {2, 3}])),
        "count": (lambda xs: m.ExactCoverBinary(xs).number_of_solutions(), lambda: ([1, 6, 2, 4],)),
        "sols": (lambda xs: m.ExactCoverBinary(xs).solutions(), lambda: ([1, 6, 2, 4],)),
        "shared count": (E.number_of_solutions, lambda: ()),
        "shared sols": (E.solutions, lambda: ()),
        "langford": (m.langford_pairings, lambda: (4,)),
        "langford ints": (m.langford_ints, lambda: (3,)),
        "domino": (m.domino_tilings, lambda: (4,)),
        "sudoku": (m.sudoku_dlx, lambda: (BASE[:40] + "0" * 6 + BASE[46:],)),
    }


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    D = Domain
    return [
        D("set systems", lambda: itertools.chain(
            ((c, f, r, k) for c in (0, 1, 2, 3) for f in families(c, 5 if q else 7 if deep else 6)
             for r in (0, 1) for k in ("int", "str")),
            ((4, f, r, "mix") for f in families(4, 4 if q else 6 if deep else 5) for r in (0, 1))), sets_case,
          bound="all multisets of <= %d nonempty subsets of <= 3 columns, <= %d of 4 columns, "
                "two orders and element types" % ((5, 4) if q else (7, 6) if deep else (6, 5))),
        D("interleaved solutions", lambda: (
            (f, s) for f in [(1, 2, 4, 3, 6, 5, 7), (1, 1, 2, 2, 4), (3, 4, 1, 6)]
            for s in itertools.product(range(4), repeat=5 if q else 9 if deep else 7)), interrupted,
          bound="all schedules of %d steps over four solution streams" % (5 if q else 9 if deep else 7)),
        D("reductions", lambda: [("langford", n) for n in range(1, 11 if deep else 9 if q else 10)] +
          [("domino", n) for n in range(1, 8 if deep else 7)] +
          [("latin", n) for n in range(1, 6 if deep else 5)], reductions, timeout=300,
          bound="Langford n <= %d, boards n <= %d, Latin squares n <= %d" % (
              (8, 6, 4) if q else (10, 7, 5) if deep else (9, 6, 4))),
        D("columns", lambda: ((f, s) for f in ((1, 2), (1, 2, 3, 4), (3, 4, 8, 12), (1, 6, 8, 14, 7), (5, 10, 2, 8, 15), (1, 2, 4, 8, 3, 12, 6))
                              for s in itertools.product(itertools.product((None, 0, 1, 2, 3, 4, 5) if q else (None,) + tuple(range(8)), "ns"), repeat=2)
                              if not (s[0][0] is not None and s[1][0] is None)), width,
          bound="six families, every pair of widths and questions"),
        D("long rows", lambda: ((n, l, k) for l in ((1, 2), (2, 3), (3, 4), (5, 7), (1, 30), (2, 31), (10, 11), (33, 34), (64, 1), (65, 2), (63,))
                                for n in ((8, 31, 33, 63, 64, 65, 66, 70, 128, 130) if q else range(1, 260))
                                for k in ("id", "rev", "mul") if min(l) <= n and not (k == "mul" and n % 7 == 0)), long_boards, timeout=300,
          bound="rows of up to %d columns, 11 sets of interval lengths, three orders of the columns" % (130 if q else 259)),
        D("problem object", lambda: (f for k in range(4) for f in itertools.product(range(16), repeat=k)) if not q else
          (f for k in range(3) for f in itertools.product(range(16), repeat=k)), family,
          bound="all families of at most %d subsets of 4 columns" % (2 if q else 3)),
        D("known counts", lambda: [("domino", n) for n in ((7, 8, 9) if q else (7, 8, 9, 10, 11))] +
          [("langford", n) for n in ((7, 8) if q else (7, 8, 9, 10, 11))], known, timeout=600,
          bound="boards to %d, pairings to %d" % ((9, 8) if q else (11, 11))),
        D("sudoku", lambda: sudokus(q), sudoku, timeout=60,
          bound="full grids with every pair of cells, every unit and pair of units blanked, and every "
                "single clue replaced by every digit"),
        D("hard sudoku", lambda: range(2 if q else len(HARD)), hard, timeout=600,
          bound="%d minimal puzzles" % (2 if q else len(HARD))),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
