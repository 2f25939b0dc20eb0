"""Priority queues agree with a multiset under every operation history."""

import itertools

from mc import gen
from mc.engine import Domain, Violation, check, equal

PROPERTY = "P02"
ASSUMPTIONS = [
    "values stored in one pairing heap are distinct (they index the heap)",
    "a heap that has been merged into another one is not used again",
    "new keys given to decrease_key are not larger than the current key",
]


def drain_leftist(H, M, what):
    out = []
    while M:
        equal(len(H), len(M), what + ": len")
        equal(H.find_min(), min(M), what + ": find_min")
        v = H.delete_min()
        check(v == min(M), "%s: delete_min gave %r, smallest of %r", what, v, M)
        M.remove(v)
        out.append(v)
    equal(len(H), 0, what + ": len when drained")
    equal(H.delete_min(), None, what + ": delete_min on empty")
    return out


def leftist_history(case, t):
    from rosemary.data_structures.heaps import LeftistHeap
    start, hist = case
    H = LeftistHeap(list(start))
    M = list(start)
    for op in hist:
        t.calls += 1
        what = "history %r" % (case,)
        if op[0] == "i":
            H.insert(op[1])
            M.append(op[1])
        elif op[0] == "d":
            v = H.delete_min()
            if not M:
                equal(v, None, what)
            else:
                equal(v, min(M), what)
                M.remove(v)
        elif op[0] == "m":
            other = LeftistHeap(list(op[1]))
            H.merge(other)
            M.extend(op[1])
        elif op[0] == "r":       # merged into another heap, which takes over
            other = LeftistHeap(list(op[1]))
            other.merge(H)
            H = other
            M.extend(op[1])
        equal(len(H), len(M), what + ": len")
        equal(repr(H), "Leftist heap of size %d." % len(M), "repr")
        if M:
            equal(H.find_min(), min(M), what + ": find_min")
    t.outcome((tuple(sorted(M)),))
    t.calls += 2 * len(M)
    drain_leftist(H, M, "history %r" % (case,))


def leftist_build(case, t):
    from rosemary.data_structures.heaps import LeftistHeap
    kind, vals = case
    vals = list(vals)
    conv = {"list": list, "tuple": tuple, "set": set}[kind](vals)
    M = sorted(conv)
    H = t.call(LeftistHeap, conv)
    equal(len(H), len(M), "len")
    equal(list(H), M, "iteration over heap of %r" % (vals,))
    equal(len(H), 0, "len after iteration")
    equal(list(H), [], "iteration of a drained heap")
    H.insert(3)
    H.insert(1)
    equal(list(H), [1, 3], "reuse after draining")
    # halfway: iterate a little, insert, iterate on
    H = LeftistHeap(conv)
    k = len(M) // 2
    got = [H.delete_min() for _ in range(k)]
    H.insert(0)
    H.insert(2)
    equal(got, M[:k], "first half")
    equal(list(H), sorted(M[k:] + [0, 2]), "second half")
    # insert one at a time
    H = LeftistHeap([])
    for v in vals:
        t.call(H.insert, v)
    equal(list(H), sorted(vals), "one by one")
    for cut in range(len(vals) + 1):
        A, B = LeftistHeap(vals[:cut]), LeftistHeap(vals[cut:])
        t.call(A.merge, B)
        equal(len(A), len(vals), "len of merge")
        equal(list(A), sorted(vals), "merge of %r and %r" % (vals[:cut], vals[cut:]))
    t.outcome(tuple(M))


LONG = ("ascending", "descending", "organ", "equal", "blocks", "merge-chain", "merge-chain-desc",
        "tuples")


def long_values(name, n):
    return {
        "ascending": list(range(n)),
        "descending": list(range(n, 0, -1)),
        "organ": [min(i, n - i) for i in range(n)],
        "equal": [7] * n,
        "blocks": [(i * 7919) % 101 for i in range(n)],
        "merge-chain": list(range(n)),
        "merge-chain-desc": list(range(n, 0, -1)),
        "tuples": [((i * 31) % 17, (i % 5, i)) for i in range(n)],
    }[name]


def leftist_long(case, t):
    from rosemary.data_structures.heaps import LeftistHeap
    name, n, mode = case
    vals = long_values(name, n)
    if mode == "build":
        H = LeftistHeap(vals)
    elif mode == "insert":
        H = LeftistHeap(vals[:1])
        for v in vals[1:]:
            H.insert(v)
    else:
        H = LeftistHeap(vals[:1])
        for i in range(1, n, 3):
            B = LeftistHeap(vals[i:i + 3])
            if mode == "merge":
                H.merge(B)
            else:
                B.merge(H)
                H = B
    t.calls += n
    equal(len(H), n, "len")
    got = list(H)
    check(got == sorted(vals), "long %r history is not drained in order", case)
    t.outcome(case)


# pairing heaps ----------------------------------------------------------------

def same_elements(P, M, what):
    got = sorted(P.list_elements())
    want = sorted((k, v) for v, k in M.items())
    if got != want:
        raise Violation("%s: elements %r, expected %r" % (what, got, want))


def pop(P, M, what):
    node = P.delete_min()
    if not M:
        equal(node, None, what + ": delete_min on empty")
        return None
    check(node is not None, "%s: delete_min gave nothing, heap holds %r", what, M)
    check(node.value in M, "%s: delete_min gave value %r not among %r", what, node.value, M)
    check(M[node.value] == node.key, "%s: value %r has key %r, expected %r", what, node.value,
          node.key, M[node.value])
    check(node.key == min(M.values()), "%s: delete_min gave key %r, smallest is %r", what,
          node.key, min(M.values()))
    del M[node.value]
    return node.value


def pairing_history(case, t):
    from rosemary.data_structures.heaps import PairingHeap
    start, hist = case
    P = PairingHeap()
    M = {}
    nxt = 0
    P.insert_values([(k, i) for i, k in enumerate(start)])
    for k in start:
        M[nxt] = k
        nxt += 1
    what = "history %r" % (case,)
    for op in hist:
        t.calls += 1
        if op[0] == "i":
            P.insert(op[1], nxt)
            M[nxt] = op[1]
            nxt += 1
        elif op[0] == "p":
            pop(P, M, what)
        else:                      # decrease the op[1]-th live value to key op[2]
            live = sorted(M)
            if op[1] >= len(live) or M[live[op[1]]] < op[2]:
                return             # not enabled in this state
            P.decrease_key(live[op[1]], op[2])
            M[live[op[1]]] = op[2]
        same_elements(P, M, what)
    t.outcome(tuple(sorted(M.items())))
    t.calls += len(M)
    while M:
        pop(P, M, what)
        same_elements(P, M, what)
    pop(P, M, what)


def pairing_deep(case, t):
    """Build from a permutation of keys, pop some, decrease two values, drain."""
    from rosemary.data_structures.heaps import PairingHeap
    keys, pops, mode = case
    n = len(keys)

    def build():
        P = PairingHeap()
        if mode == "values":
            P.insert_values([(k, ("v", i)) for i, k in enumerate(keys)])
        else:
            for i, k in enumerate(keys):
                P.insert(k, ("v", i))
        M = {("v", i): k for i, k in enumerate(keys)}
        for _ in range(pops):
            pop(P, M, "build %r" % (case,))
        return P, M

    P, M = build()
    live = sorted(M)
    plans = []
    for v in live:
        for k in {0, M[v] - 1, M[v], M[v] - 2}:
            if k <= M[v]:
                plans.append(((v, k),))
    for v, w in itertools.permutations(live, 2):
        plans.append(((v, 0), (w, 0)))
        plans.append(((v, -1), (w, 1 if M[w] >= 1 else 0)))
    for plan in plans:
        P, M = build()
        what = "case %r plan %r" % (case, plan)
        for v, k in plan:
            t.calls += 1
            P.decrease_key(v, k)
            M[v] = k
        pop(P, M, what)
        if M:
            # decrease a value once more between two deletions
            v = sorted(M)[-1]
            k = min(M[v], 0) - 1
            P.decrease_key(v, k)
            M[v] = k
        same_elements(P, M, what)
        while M:
            pop(P, M, what)
            t.calls += 1
    t.outcome((keys, pops))
    t.traces += len(plans)
    t.states += len(plans)


def pairing_long(case, t):
    from rosemary.data_structures.heaps import PairingHeap
    name, n, mode = case
    vals = long_values(name, n)
    P, M = PairingHeap(), {}
    for i, v in enumerate(vals):
        P.insert(v, i)
        M[i] = v
        if mode == "mixed" and i % 3 == 2:
            pop(P, M, "long")
    if mode == "decrease" and name != "tuples":
        pop(P, M, "long")
        for i in list(M)[::7]:
            M[i] -= 5
            P.decrease_key(i, M[i])
    want = sorted(M.values())
    got = []
    while M:
        node = P.delete_min()
        check(node is not None and M.pop(node.value, None) == node.key, "long %r", case)
        got.append(node.key)
        t.calls += 1
    check(got == want, "long %r is not drained in order", case)
    t.outcome(case)


def domains(tier):
    big = tier == "thorough"

    lops = [("i", 1), ("i", 2), ("i", 3), ("d",), ("m", ()), ("m", (2,)), ("m", (3, 1)), ("r", (2, 2, 0))]

    def leftist():
        for st in ((), (2,), (3, 1, 2)):
            for h in gen.sequences(lops, 6 if big else 5):
                yield (st, h)

    def leftist_b():
        for n in range(0, 6):
            for vals in itertools.product(range(4 if n < 5 or big else 3), repeat=n):
                yield ("list", vals)
        for n in (6, 7, 8) if big else (6, 7):
            for p in itertools.permutations(range(n)):
                yield ("list", p)
        for n in range(0, 5):
            for vals in itertools.product((5, 1, 8), repeat=n):
                yield ("tuple", vals)
            for vals in itertools.combinations((5, 1, 8, 64, 33), n):
                yield ("set", vals)

    def leftist_l():
        for name in LONG:
            for n in (10, 100, 1000, 3000):
                for mode in ("build", "insert", "merge", "absorb"):
                    yield (name, n, mode)

    pops_ = [("i", 1), ("i", 2), ("i", 3), ("p",)] + [("k", i, k) for i in range(4) for k in (0, 2)]

    def pairing():
        for st in ((), (2, 1), (3, 1, 2, 2)):
            for h in gen.sequences(pops_, 5 if big else 4):
                yield (st, h)

    def pairing_d():
        for n in range(1, 7 if not big else 8):
            for p in itertools.permutations(range(1, n + 1)):
                for k in range(0, n):
                    yield (p, k, "values" if n % 2 else "one")
        for n in (4, 5) if not big else (4, 5, 6):
            for p in itertools.product((1, 2), repeat=n):
                for k in range(0, n):
                    yield (p, k, "one")

    def pairing_l():
        for name in LONG:
            for n in (10, 100, 1000, 3000):
                for mode in ("plain", "mixed", "decrease"):
                    yield (name, n, mode)

    return [
        Domain("leftist-histories", leftist, leftist_history,
               bound="all histories of <= %d of 8 operations from 3 start heaps, then drained" % (6 if big else 5)),
        Domain("leftist-contents", leftist_b, leftist_build,
               bound="all value sequences of length <= 5 over 4 values; all permutations of <= %d values; every split and merge" % (8 if big else 7)),
        Domain("leftist-long", leftist_l, leftist_long, bound="8 fixed shapes, sizes to 3000, 4 ways to build"),
        Domain("pairing-histories", pairing, pairing_history,
               bound="all histories of <= %d of 12 operations from 3 start heaps, then drained" % (5 if big else 4)),
        Domain("pairing-decrease", pairing_d, pairing_deep,
               bound="all key permutations of <= %d values, every number of deletions, every one or two decreases" % (7 if big else 6)),
        Domain("pairing-long", pairing_l, pairing_long, bound="8 fixed shapes, sizes to 3000"),
    ]
