"""Generators of arrangements list every object exactly once, in the documented order."""

import itertools
import math

from mc import gen
from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P18"
ASSUMPTIONS = ["radices of mixed-radix tuples are at least 1 and come as a list of the right length",
               "combination sizes are between 0 and n, or larger than n",
               "elements of a multiset are mutually comparable"]


def check_list(got, want, what):
    got = [tuple(x) for x in itertools.islice(got, len(want) + 2)]
    check(got == want, "%s: %s", what, _diff(got, want))


def _diff(got, want):
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return "item %d is %r, expected %r" % (i, a, b)
    return "%d items, expected %d (next %r)" % (len(got), len(want),
                                               (got + want)[min(len(got), len(want)):][:1])


def canonical_words(max_len, start=0):
    """All words up to renaming is not enough: order matters.  All words over a
    k-letter alphabet for each length."""
    for n in range(start, max_len + 1):
        k = min(n, 4)
        yield from itertools.product(range(k), repeat=n) if n else [()]


def multiset(case, t):
    from rosemary.combinatorics.generation import permutations as m
    word, kind = case
    f = {"int": lambda i: i, "neg": lambda i: i * 7 - 9, "str": lambda i: "dbca"[i],
         "tup": lambda i: (i // 2, -i), "list": lambda i: i}[kind]
    elems = [f(i) for i in word]
    src = tuple(elems) if kind == "tup" else list(elems)
    keep = list(elems)
    want = sorted(set(itertools.permutations(elems)))
    for name in ("phillips", "knuth_algorithm_l"):
        check_list(t.call(getattr(m, name), src), want, name)
        equal(list(src), keep, "the argument of " + name)
    allv = []
    for r in range(len(elems) + 2):
        w = sorted(set(itertools.permutations(elems, r)))
        allv += w
        check_list(t.call(m.knuth_algorithm_l_rvariations, src, r), w, "%d-variations" % r)
    check_list(t.call(m.knuth_algorithm_l_variations, src), sorted(allv), "variations")
    equal(list(src), keep, "the argument")
    t.outcome((word, len(want)))


def longer(case, t):
    from rosemary.combinatorics.generation import permutations as m
    want = sorted(set(itertools.permutations(case)))
    for name in ("phillips", "knuth_algorithm_l"):
        check_list(t.call(getattr(m, name), list(case)), want, name)
    for r in range(len(case) + 1):
        check_list(t.call(m.knuth_algorithm_l_rvariations, list(case), r),
                   sorted({w[:r] for w in want}), "%d-variations" % r)
    t.outcome((case, len(want)))


def arrangements(counts, r=None):
    """All r-letter words (in order) with at most counts[i] letters i."""
    counts = list(counts)
    n = sum(counts) if r is None else r

    def go(k):
        if k == 0:
            yield ()
            return
        for i, c in enumerate(counts):
            if c:
                counts[i] -= 1
                for w in go(k - 1):
                    yield (i,) + w
                counts[i] += 1
    return go(n)


def large(case, t):
    """Many elements, few arrangements."""
    from rosemary.combinatorics.generation import permutations as m
    counts, order = case
    word = [i for i, c in enumerate(counts) for _ in range(c)]
    word = word[::-1] if order else word[1::2] + word[::2]
    want = list(arrangements(counts))
    for name in ("phillips", "knuth_algorithm_l"):
        check_list(t.call(getattr(m, name), word), want, name)
    n = len(word)
    allv = []
    for r in range(n + 2):
        w = list(arrangements(counts, r)) if r <= n else []
        allv += w
        check_list(t.call(m.knuth_algorithm_l_rvariations, word, r), w, "%d-variations" % r)
    check_list(t.call(m.knuth_algorithm_l_variations, word), sorted(allv), "variations")
    t.outcome((counts, len(want)))


def large_counts(cap):
    from math import factorial
    for total in range(8, 31):
        for k in range(1, 6):
            for cuts in itertools.combinations(range(1, total), k - 1):
                c = tuple(b - a for a, b in zip((0,) + cuts, cuts + (total,)))
                v = factorial(total)
                for x in c:
                    v //= factorial(x)
                if v <= cap:
                    yield c


def abandoned(case, t):
    """Two generators advanced in every interleaving yield what each yields alone,
    even when the client overwrites the lists it was handed."""
    from rosemary.combinatorics.generation import permutations as m
    from rosemary.combinatorics.generation import tuples, combinations as c, partitions as p
    a, b, sched = case
    mk = {"ph": lambda: m.phillips([3, 1, 2]), "kl": lambda: m.knuth_algorithm_l([1, 2, 1, 3]),
          "va": lambda: m.knuth_algorithm_l_variations([1, 2, 2]),
          "rv": lambda: m.knuth_algorithm_l_rvariations([1, 2, 3], 2),
          "nt": lambda: tuples.n_tuples(3, [2, 3, 2]), "co": lambda: c.combinations(5, 3),
          "pp": lambda: p.integer_partitions(7), "ph3": lambda: p.integer_partitions(9, num_parts=4),
          "pd": lambda: p.integer_partitions(10, distinct=True)}
    want = {x: [tuple(v) for v in mk[x]()] for x in {a, b}}
    gens = [mk[a](), mk[b]()]
    out = [[], []]
    for s in sched:
        for v in itertools.islice(gens[s], 1):
            out[s].append(tuple(v))
            v[:] = [-99] * 3
    for i, x in enumerate((a, b)):
        equal(out[i], want[x][:len(out[i])], "values of generator %s under the schedule" % x)
    t.schedules += 1
    t.outcome((a, b, tuple(map(len, out))))


def combos(case, t):
    from rosemary.combinatorics.generation.combinations import combinations
    n, k = case
    got = [tuple(x) for x in t.call(combinations, n, k)]
    want = sorted(tuple(sorted(c, reverse=True)) for c in itertools.combinations(range(n), k))
    check_list(got, want, "combinations(%d, %d)" % case)
    t.outcome((n, k, len(want)))


def tuples_(case, t):
    from rosemary.combinatorics.generation.tuples import n_tuples
    n, M = case
    if isinstance(M, tuple):
        M = list(M)
        ranges = M
        keep = list(M)
    else:
        ranges = [2 if M is None else M] * n
    got = t.call(n_tuples, n) if M is None else t.call(n_tuples, n, M)
    check_list(got, list(itertools.product(*map(range, ranges))), "n_tuples(%r, %r)" % (n, M))
    if isinstance(M, list):
        equal(M, keep, "the radices")
    t.outcome((n, repr(M)))


def calls():
    from rosemary.combinatorics.generation import permutations as m
    from rosemary.combinatorics.generation.tuples import n_tuples
    from rosemary.combinatorics.generation.combinations import combinations
    from rosemary.combinatorics.generation.partitions import integer_partitions
    return {
        "phillips": (m.phillips, lambda: ([2, 1, 3],)),
        "phillips2": (m.phillips, lambda: ([1, 1],)),
        "algorithm_l": (m.knuth_algorithm_l, lambda: ([2, 1, 1],)),
        "variations": (m.knuth_algorithm_l_variations, lambda: ([2, 1, 1],)),
        "rvariations": (m.knuth_algorithm_l_rvariations, lambda: ([2, 1, 1, 3], 2)),
        "n_tuples": (n_tuples, lambda: (2, [2, 3])),
        "n_tuples int": (n_tuples, lambda: (2, 3)),
        "combinations": (combinations, lambda: (4, 2)),
        "partitions": (integer_partitions, lambda: (5,)),
        "partitions parts": (lambda n, p: integer_partitions(n, parts=p), lambda: (6, [2, 1, 3])),
        "partitions distinct": (lambda n: integer_partitions(n, distinct=True), lambda: (6,)),
    }


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    n = 5 if q else 7 if deep else 6
    kinds = ["int", "neg", "str", "tup"]
    gens = ["ph", "kl", "va", "rv", "nt", "co", "pp", "ph3", "pd"]
    return [
        Domain("multisets", lambda: ((w, k) for w in canonical_words(n) for k in kinds
                                     if len(w) <= n - 1 or k in ("int", "tup")), multiset,
               bound="every word of length <= %d over min(length, 4) letters, four element types, "
                     "every r from 0 to length + 1" % n),
        Domain("longer multisets", lambda: (w for k in range(n + 1, n + 3)
                                            for w in itertools.combinations_with_replacement(
                                                range(5 if q or deep else 8), k)), longer,
               bound="every sorted multiset of %d..%d elements over %d letters, every r" % (
                   n + 1, n + 2, 5 if q or deep else 8)),
        Domain("large multisets", lambda: ((c, o) for c in large_counts(200 if q else 5000 if deep else 1000) for o in (0, 1)), large,
               bound="all multisets of 8..30 elements of at most 5 kinds with at most %d arrangements" % (200 if q else 5000 if deep else 1000)),
        Domain("interleaved generators", lambda: (
            (a, b, s) for a in gens for b in gens
            for s in itertools.product((0, 1), repeat=7 if q else 13 if deep else 10)), abandoned,
            bound="all %d-step schedules of every ordered pair of 9 generators" % (7 if q else 13 if deep else 10)),
        Domain("combinations", lambda: ((a, k) for a in range(0, 13 if q else 20 if deep else 17)
                                        for k in range(0, a + 3)), combos,
               bound="n <= %d, all sizes <= n + 2" % (12 if q else 19 if deep else 16)),
        Domain("large combinations", lambda: ((a, k) for a in list(range(17, 70)) + [100, 127, 128, 129, 200]
                                              for k in (0, 1, 2, 3, a - 3, a - 2, a - 1, a, a + 1)
                                              if math.comb(a, min(k, a)) <= (3000 if q else 50000)), combos,
               bound="n to 200, sizes within 3 of 0 or n, at most %d combinations" % (3000 if q else 50000)),
        Domain("long tuples", lambda: ((len(M), M) for a in (1, 2, 3, 5, 9, 17, 40) for b in (1, 2, 3, 6, 20, 300)
                                       for c in (1, 2, 7) for M in (
                                           (1,) * a + (b,) + (1,) * a + (c,), (b,) + (1,) * a + (c,), (c,) + (1,) * a + (b,) * 2,
                                           (1,) * a + (b, c) + (1,) * a) if math.prod(M) <= (1000 if q else 50000)), tuples_,
               bound="up to 82 places, radices to 300, at most %d tuples" % (1000 if q else 50000)),
        Domain("tuples", lambda: itertools.chain(
            ((k, M) for k in range(0, 6) for M in (None, 1, 2, 3, 4)),
            ((len(M), M) for M in gen.sequences((1, 2, 3, 4), 5 if q else 7 if deep else 6))), tuples_,
            bound="all radix lists over 1..4 of length <= %d; uniform radices <= 4" % (5 if q else 7 if deep else 6)),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
