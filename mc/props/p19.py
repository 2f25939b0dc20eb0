"""Integer partitions are enumerated exactly under every combination of constraints."""

import itertools

from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P19"
ASSUMPTIONS = ["the list of allowed parts holds distinct positive integers",
               "num_parts is nonnegative, and zero means no restriction"]


def ref(n, parts, distinct, k):
    """All nonincreasing sequences of allowed parts with sum n (reference)."""
    parts = sorted(set(parts), reverse=True)
    out = []

    def go(rest, used, i):
        if rest == 0:
            if not k or len(used) == k:
                out.append(tuple(used))
            return
        if i == len(parts):
            return
        p = parts[i]
        m = min(rest // p, 1 if distinct else rest // p)
        for c in range(m, -1, -1):
            go(rest - c * p, used + [p] * c, i + 1)
    go(n, [], 0)
    return out


def run(case, t):
    from rosemary.combinatorics.generation.partitions import integer_partitions
    n, distinct, k, parts, ptype = case
    kw = {}
    if distinct is not None:
        kw["distinct"] = distinct
    if k is not None:
        kw["num_parts"] = k
    if parts is not None:
        kw["parts"] = ptype(parts)
    want = ref(n, range(1, n + 1) if parts is None else parts, distinct, k)
    got = [tuple(p) for p in t.call(integer_partitions, n, **kw)]
    check(len(got) == len(set(got)), "partitions of %r with %r: repeats %r", n, kw,
          [p for i, p in enumerate(got) if p in got[:i]][:3])
    check(set(got) == set(want), "partitions of %r with %r: missing %r, extra %r", n, kw,
          sorted(set(want) - set(got))[:3], sorted(set(got) - set(want))[:3])
    if parts is not None:
        equal(list(kw["parts"]), list(parts), "the list of parts")
    t.outcome(case[:3] + (len(want),))


def space(N, P):
    for n in range(N + 1):
        for d in (None, False, True):
            for k in [None] + list(range(0, n + 3)):
                yield (n, d, k, None, None)
    U = list(range(1, P + 1))
    for r in range(0, len(U) + 1):
        for parts in itertools.combinations(U, r):
            for j, order in enumerate((parts, parts[::-1])):
                if j and r < 2:
                    continue
                for n in range(0, P + 4):
                    for d in (None, True):
                        for k in (None, 0, 1, 2, 3, n):
                            yield (n, d, k, order, list if (r + j) % 2 else tuple)


def run_named(case, t):
    n, d, k, parts, pt = case
    run((n, d, k, parts, {"list": list, "tuple": tuple, None: None}[pt]), t)


def chunks(N, P):
    for c in space(N, P):
        yield c[:4] + ({list: "list", tuple: "tuple", None: None}[c[4]],)


def count(case, t):
    from rosemary.combinatorics.generation.partitions import integer_partitions
    n = case
    got = [tuple(p) for p in t.call(integer_partitions, n)]
    want = ref(n, range(1, n + 1), False, 0)
    equal(got, want, "partitions of %d" % n)
    bym = {}
    for p in want:
        bym.setdefault(len(p), set()).add(p)
    for k in range(1, n + 1):
        gk = [tuple(p) for p in t.call(integer_partitions, n, num_parts=k)]
        check(len(gk) == len(set(gk)) and set(gk) == bym[k], "partitions of %d into %d parts", n, k)
    t.outcome((n, len(want)))


def calls():
    from rosemary.combinatorics.generation.partitions import integer_partitions as f
    return {
        "plain": (f, lambda: (5,)),
        "zero": (f, lambda: (0,)),
        "parts": (lambda n, p: f(n, parts=p), lambda: (6, [2, 1, 3])),
        "distinct parts": (lambda n, p: f(n, parts=p, distinct=True), lambda: (7, [2, 5, 1, 4])),
        "count": (lambda n, k: f(n, num_parts=k), lambda: (7, 3)),
        "distinct count": (lambda n, k: f(n, num_parts=k, distinct=True), lambda: (7, 3)),
    }


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    N, P = (16, 8) if q else (28, 12) if deep else (24, 11)
    return [
        Domain("constraints", lambda: chunks(N, P), run_named,
               bound="n <= %d with every num_parts and distinct flag; every set of parts within "
                     "1..%d, both orders, n <= %d" % (N, P, P + 3)),
        Domain("unconstrained", lambda: range(0, 31 if q else 54 if deep else 46), count,
               bound="n <= %d, every number of parts" % (30 if q else 53 if deep else 45)),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
