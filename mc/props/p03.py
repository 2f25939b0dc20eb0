"""Disjoint sets and counting sieves agree with their set models under every history."""

import itertools

from mc import gen
from mc.engine import Domain, Violation, check, equal

PROPERTY = "P03"
ASSUMPTIONS = [
    "union is called with current set names (what find returns), as documented",
    "a new name given to the named variant is one of the two merged names, or a label not "
    "naming another set",
    "partial sums are asked at positions 0..n",
]


def same_partition(U, M, elems, what):
    """M: element -> block id."""
    names = {u: U.find(u) for u in elems}
    for u, v in itertools.combinations(elems, 2):
        check((names[u] == names[v]) == (M[u] == M[v]),
              "%s: find(%r)=%r find(%r)=%r, reference says %s", what, u, names[u], v, names[v],
              "same set" if M[u] == M[v] else "different sets")
    for u in elems:
        n = names[u]
        check(n in M and M[n] == M[u], "%s: name %r of %r is not in its set", what, n, u)
        check(U.find(u) == n, "%s: find(%r) is not stable", what, u)
        check(U.find(n) == n, "%s: the name %r does not name itself", what, n)


def uf_history(case, t):
    from rosemary.data_structures.unionfind import UnionFind
    elems, hist = case
    U = UnionFind(elems)
    M = {u: i for i, u in enumerate(elems)}
    for k, op in enumerate(hist):
        t.calls += 1
        what = "history %r" % (hist[:k + 1],)
        if op[0] == "f":
            U.find(elems[op[1]])
            continue
        u, v = elems[op[1]], elems[op[2]]
        U.union(U.find(u), U.find(v))
        a, b = M[u], M[v]
        for x in M:
            if M[x] == b:
                M[x] = a
    # compare without disturbing earlier paths more than one observer pass would
    same_partition(U, M, list(elems), "history %r" % (hist,))
    t.outcome(tuple(M.values()))


def uf_structured(case, t):
    """Unions in a given order of pairs, observing after every one (or only at the end)."""
    from rosemary.data_structures.unionfind import UnionFind
    n, pairs, each = case
    U = UnionFind(range(n))
    M = {u: u for u in range(n)}
    for u, v in pairs:
        t.calls += 1
        x, y = U.find(u), U.find(v)
        U.union(x, y)
        a, b = M[u], M[v]
        for z in M:
            if M[z] == b:
                M[z] = a
        if each:
            same_partition(U, M, list(range(n)), "unions %r" % (pairs,))
    same_partition(U, M, list(range(n)), "unions %r" % (pairs,))
    t.outcome(tuple(M.values()))


def named_history(case, t):
    from rosemary.data_structures.unionfind import NamedUnionFind
    elems, hist = case
    U = NamedUnionFind(elems)
    sets = {u: {u} for u in elems}       # name -> members
    fresh = 0
    for k, op in enumerate(hist):
        t.calls += 1
        what = "history %r" % (hist[:k + 1],)
        if op[0] == "f":
            u = elems[op[1]]
            name = [n for n in sets if u in sets[n]][0]
            equal(U.find(u), name, what)
            continue
        names = sorted(sets, key=repr)
        i, j, mode = op[1:]
        if i >= len(names) or j >= len(names) or i == j:
            return
        u, v = names[i], names[j]
        w = {"u": u, "v": v, "new": "s%d" % fresh, "old": None}[mode]
        if mode == "old":                # a label retired by an earlier union
            old = [e for e in elems if e not in sets]
            if not old:
                return
            w = old[0]
        fresh += 1
        U.union(u, v, w)
        merged = sets.pop(u) | sets.pop(v)
        sets[w] = merged
    for u in elems:
        name = [n for n in sets if u in sets[n]][0]
        equal(U.find(u), name, "find(%r) after %r" % (u, hist))
    t.outcome(tuple(sorted((repr(n), tuple(sorted(s, key=repr))) for n, s in sets.items())))


def uf_long(case, t):
    from rosemary.data_structures.unionfind import UnionFind, NamedUnionFind
    kind, n = case
    order = {
        "chain": [(i, i + 1) for i in range(n - 1)],
        "rchain": [(i, i + 1) for i in reversed(range(n - 1))],
        "star": [(0, i) for i in range(1, n)],
        "binary": [(i, i + s) for s in (1 << k for k in range(n.bit_length()))
                   for i in range(0, n - s, 2 * s)],
        "evenodd": [(i, i + 2) for i in range(n - 2)],
    }[kind]
    U = UnionFind(range(n))
    N = NamedUnionFind(range(n))
    for u, v in order:
        t.calls += 2
        a, b = U.find(u), U.find(v)
        if a != b:
            U.union(a, b)
        a, b = N.find(u), N.find(v)
        if a != b:
            N.union(a, b, a)
    blocks = {}
    for i in range(n):
        blocks.setdefault(i % 2 if kind == "evenodd" else 0, []).append(i)
    for ms in blocks.values():
        equal(len({U.find(m) for m in ms}), 1, "%s: union-find sets" % kind)
        equal(len({N.find(m) for m in ms}), 1, "%s: named sets" % kind)
    equal(len({U.find(i) for i in range(n)}), len(blocks), "%s: number of sets" % kind)
    equal(len({N.find(i) for i in range(n)}), len(blocks), "%s: number of named sets" % kind)
    t.outcome(case)


def sieve_history(case, t):
    from rosemary.data_structures.bit_sieve import BITSieve, BITSieveArray
    n, marks = case
    A, B = BITSieve(n), BITSieveArray(n)
    live = set(range(1, n + 1))
    for p in (None,) + marks:
        if p is not None:
            t.calls += 2
            A.mark_multiples(p)
            B.mark_multiples(p)
            live -= set(range(p, n + 1, p))
        want = [1 if i in live else 0 for i in range(1, n + 1)]
        what = "n=%d after marking %r" % (n, marks)
        equal(list(A.entries()), want, what + ": dictionary sieve entries")
        equal(list(B.entries())[1:], want, what + ": array sieve entries")
        run = 0
        for m in range(0, n + 1):
            run += 1 if m in live else 0
            t.calls += 2
            equal(A.partial_sum(m), run, what + ": dictionary sieve partial_sum(%d)" % m)
            equal(B.partial_sum(m), run, what + ": array sieve partial_sum(%d)" % m)
    A.update()
    equal([A.partial_sum(m) for m in range(n + 1)],
          [sum(1 for x in live if x <= m) for m in range(n + 1)], "after update")
    t.outcome((n, tuple(sorted(live))))


def sieve_long(case, t):
    """Whole sieves: every prime (or every number) marked, in both orders."""
    from rosemary.data_structures.bit_sieve import BITSieve, BITSieveArray
    n, kind = case
    A, B = BITSieve(n), BITSieveArray(n)
    marks = {"primes": [p for p in range(2, n + 1) if all(p % q for q in range(2, int(p ** 0.5) + 1))],
             "back": list(range(n + 2, 1, -1)), "twice": [x for p in (101, 53, 7, 64, 2) for x in (p, p)] + [n, n // 2 or 1],
             "all": [3, 1, 2]}[kind]
    live = set(range(1, n + 1))
    for k, p in enumerate(marks):
        t.calls += 2
        A.mark_multiples(p)
        B.mark_multiples(p)
        live.difference_update(range(p, n + 1, p))
        if k % 40 == 0 or k == len(marks) - 1 or kind == "twice":
            run = [0]
            for i in range(1, n + 1):
                run.append(run[-1] + (i in live))
            want = [1 if i in live else 0 for i in range(1, n + 1)]
            what = "n=%d after %d marks (%s)" % (n, k + 1, kind)
            equal(list(A.entries()), want, what + ": dictionary sieve entries")
            equal(list(B.entries())[1:], want, what + ": array sieve entries")
            equal([A.partial_sum(m) for m in range(n + 1)], run, what + ": dictionary sieve partial sums")
            equal([B.partial_sum(m) for m in range(n + 1)], run, what + ": array sieve partial sums")
    A.update()
    equal([A.partial_sum(m) for m in range(n + 1)], run, "after update")
    t.outcome((case, len(live)))


def named_long(case, t):
    """Long named histories: every merge checked against a list of blocks, with finds in between."""
    from rosemary.data_structures.unionfind import NamedUnionFind, UnionFind
    n, order, naming, finds = case
    N, U = NamedUnionFind(range(n)), UnionFind(range(n))
    block = {i: {i} for i in range(n)}          # by current name
    where = {i: i for i in range(n)}
    pairs = {"chain": [(i, i + 1) for i in range(n - 1)], "binomial": [(i, i + s) for s in (1 << k for k in range(20)) if s < n
                                                                       for i in range(0, n - s, 2 * s)],
             "far": [(i, n - 1 - i) for i in range(n // 2)] + [(i, i + 1) for i in range(0, n // 2)]}[order]
    for k, (a, b) in enumerate(pairs):
        x, y = where[a], where[b]
        t.calls += 4
        equal((N.find(a), N.find(b)), (x, y), "names after %d unions" % k)
        check((U.find(a) == U.find(b)) == (x == y), "find(%d), find(%d) after %d unions", a, b, k)
        if x != y:
            if k % 2:
                x, y = y, x
            new = {"first": x, "second": y, "new": "s%d" % k, "alternate": (x, y)[k // 3 % 2]}[naming]
            N.union(x, y, new)
            U.union(U.find(a), U.find(b))
            m = block.pop(x) | block.pop(y)
            block[new] = m
            for i in m:
                where[i] = new
        if finds and k % finds == 0:
            equal([N.find(i) for i in range(n)], [where[i] for i in range(n)], "names after %d unions" % (k + 1))
    equal([N.find(i) for i in range(n)], [where[i] for i in range(n)], "all names")
    reps = {}
    for i in range(n):
        reps.setdefault(where[i], set()).add(U.find(i))
    check(all(len(r) == 1 for r in reps.values()) and len(set().union(*reps.values())) == len(reps), "sets %r", reps)
    t.outcome(case)


LEVELS = ("thorough", "deep")


def domains(tier):
    big = tier != "quick"
    deep = tier == "deep"

    def uf():
        for elems in ((0, 1, 2, 3), ("d", "a", "c", "b")):
            ops = [("u", i, j) for i in range(4) for j in range(4) if i != j] + [("f", 0), ("f", 3)]
            for h in gen.sequences(ops, 5 if big else 4):
                yield (elems, h)
        if deep:
            for h in itertools.product([("u", i, j) for i in range(4) for j in range(4) if i != j], repeat=6):
                yield ((2, 0, 3, 1), h)
        ops = [("u", i, j) for i in range(5) for j in range(i + 1, 5)]
        for h in gen.sequences(ops, 5 if big else 4):
            yield ((4, 1, 3, 0, 2), h)
        yield from (((0,), ()), ((0, 1), (("u", 0, 0), ("u", 0, 1))))

    def structured():
        # orders of unions making every shape of merge forest on 8 elements
        base = [(0, 1), (2, 3), (4, 5), (6, 7), (1, 3), (5, 7), (3, 7)]
        for k in range(len(base) + 1):
            for p in itertools.permutations(base, k) if k <= (7 if big else 6) else ():
                yield (8, p, False)
        for p in itertools.permutations([(0, 1), (2, 3), (1, 2), (4, 5), (3, 5), (0, 5)]):
            yield (6, p, True)
        for p in itertools.product([(0, 1), (1, 0), (0, 2), (3, 0), (2, 3), (4, 2)], repeat=5):
            yield (5, p, True)

    def named():
        elems = ("a", "b", "c", "d")
        ops = [("f", 0), ("f", 2)] + [("u", i, j, m) for i in range(4) for j in range(4) if i != j
                                      for m in ("u", "v", "new", "old")]
        for h in gen.sequences(ops, 4 if deep else 3):
            yield (elems, h)
        ops5 = [("f", 0)] + [("u", i, j, m) for i, j in ((0, 1), (1, 0), (1, 2), (2, 0), (0, 3), (4, 0))
                             for m in ("u", "v", "new", "old")]
        for h in gen.sequences(ops5, 4 if big else 3):
            yield ((0, 1, 2, 3, 4), h)
        # merge everything, every order of named merges
        for h in itertools.product([("u", i, j, m) for i in (0, 1) for j in (0, 1) if i != j
                                    for m in ("u", "v", "new", "old")], repeat=4):
            yield ((0, 1, 2, 3, 4), h)

    def long_():
        for kind in ("chain", "rchain", "star", "binary", "evenodd"):
            for n in (2, 3, 10, 100, 3000):
                yield (kind, n)

    def sieve():
        for n in range(1, 150 if deep else 70 if big else 41):
            ps = [p for p in (2, 3, 5, 7, 11, 13, 1, 4, 6) if p <= n + 2]
            for k in range(0, 3):
                for m in itertools.permutations(ps, k):
                    yield (n, m)
        for n in (1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255,
                  256, 257):
            for m in ((2, 3, 5, 7, 11, 13), (13, 11, 7, 5, 3, 2), (6, 6), (1,), (2, 4, 8), (n,),
                      (n + 1, 2), (1, 2)):
                yield (n, m)

    return [
        Domain("union-histories", uf, uf_history,
               bound="all histories of <= %d unions/finds on 4 and 5 elements%s" % (5 if big else 4, ", of six unions on 4" if deep else "")),
        Domain("union-forests", structured, uf_structured,
               bound="all orders of binary-tree merges on 8 elements, all orders/sequences on 5-6 elements"),
        Domain("named-union-histories", named, named_history,
               bound="all histories of <= %s named unions with every naming choice" % ("4" if deep else "3 (six pairs of five: 4)" if big else "3")),
        Domain("union-long", long_, uf_long, bound="5 merge orders, up to 3000 elements"),
        Domain("sieve-histories", sieve, sieve_history,
               bound="all n <= %d, all ordered pairs of marks; powers of two +-1 to 257" % (149 if deep else 69 if big else 40)),
        Domain("named-long", [(n, o, k, f) for n in (33, 65, 130) + ((300,) if big else ()) + ((1000,) if deep else ()) for o in ("chain", "binomial", "far")
                              for k in ("first", "second", "new", "alternate") for f in (0, 1, 7)], named_long,
               bound="three merge orders of %d elements, four ways to name, with finds in between" % (1000 if deep else 300 if big else 130)),
        Domain("sieve-long", [(n, k) for n in (63, 64, 255, 256, 500, 511, 512, 513, 1000, 1023, 1024, 1025) + ((2047, 2048, 2049, 4096, 5000) if big else ()) + ((8191, 8192, 8193, 20000) if deep else ())
                              for k in ("primes", "back", "twice", "all")], sieve_long, timeout=120,
               bound="n to %d, all primes, all numbers downwards, repeated marks" % (20000 if deep else 5000 if big else 1025)),
    ]
