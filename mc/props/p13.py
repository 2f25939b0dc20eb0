"""Graphic sequence tests answer exactly whether a simple graph with those degrees exists."""

import itertools

from mc import gen
from mc.engine import Domain, Violation, check, equal
from mc.history import call_histories

PROPERTY = "P13"
ASSUMPTIONS = ["the inequality-based test is asked about non-negative integers, as its theorem is stated"]


def realizable(seq):
    """Independent oracle: the sorted sequence occurs as a degree sequence, decided by the
    exhaustive search for an edge set (row by row)."""
    seq = sorted(seq, reverse=True)
    n = len(seq)
    if any(d < 0 or d >= n for d in seq) and n:
        return False

    memo = {}

    def rec(rest):
        # rest: non-increasing tuple of residual degrees; first vertex chooses its neighbours
        if not rest or rest[0] == 0:
            return True
        if rest in memo:
            return memo[rest]
        d, others = rest[0], rest[1:]
        ok = False
        tried = set()
        for S in itertools.combinations(range(len(others)), d):
            new = list(others)
            for i in S:
                new[i] -= 1
            if min(new, default=0) < 0:
                continue
            new = tuple(sorted(new, reverse=True))
            if new in tried:
                continue
            tried.add(new)
            if rec(new):
                ok = True
                break
        memo[rest] = ok
        return ok
    return rec(tuple(seq))


_ATLAS = {}


def atlas(n):
    if n not in _ATLAS:
        s = set()
        for g in gen.iso_graphs(n):
            deg = [0] * n
            for u, v in g[1]:
                deg[u] += 1
                deg[v] += 1
            s.add(tuple(sorted(deg)))
        _ATLAS[n] = s
    return _ATLAS[n]


def run(case, t):
    from rosemary.graphs.algorithms import degree_sequences as m
    seq = case
    n = len(seq)
    want = tuple(sorted(seq)) in atlas(n) if n <= 7 else realizable(seq)
    for kind in (list, tuple):
        S = kind(seq)
        equal(bool(t.call(m.is_graphic, S)), want, "is_graphic(%r)" % (S,))
        equal(S, kind(seq), "the sequence")
        if min(seq, default=0) >= 0:
            equal(bool(t.call(m.is_graphic_erdos_gallai, S)), want, "is_graphic_erdos_gallai(%r)" % (S,))
            equal(S, kind(seq), "the sequence")
    t.outcome((n, want, sum(seq)))


def threshold(word):
    """Degrees of the graph built by adding, per letter, an isolated (0) or a dominating (1) vertex: the sequence is
    graphic, and no other graphic sequence of the same sum majorizes it."""
    deg = []
    for b in word:
        if b:
            deg = [d + 1 for d in deg] + [len(deg)]
        else:
            deg.append(0)
    return sorted(deg, reverse=True)


def known(case, t):
    """Threshold sequences, unit transfers away from them (towards balance: graphic; away from it: not), and parity."""
    from rosemary.graphs.algorithms import degree_sequences as m
    kind, word, step = case

    def ask(seq, want):
        for S in (seq, seq[::-1], tuple(seq[1::2] + seq[::2])):
            equal(bool(t.call(m.is_graphic, S)), want, "is_graphic(%r)" % (S,))
            equal(bool(t.call(m.is_graphic_erdos_gallai, S)), want, "is_graphic_erdos_gallai(%r)" % (S,))
        t.outcome((len(seq), want, sum(seq)))
    if kind == "regular":
        n, d = word
        ask([d] * n, d < n and n * d % 2 == 0)
        return
    s = threshold(word)
    ask(s, True)
    n = len(s)
    for i in range(0, n, step):
        for j in range(i + 1, n, step):
            if s[i] > s[j] + 1:
                u = list(s)
                u[i] -= 1
                u[j] += 1
                ask(u, True)
            if s[j] > 0 and (i == 0 or s[i - 1] > s[i]) and (j == n - 1 or s[j + 1] < s[j]):
                u = list(s)
                u[i] += 1
                u[j] -= 1
                ask(u, False)
        u = list(s)
        u[i] += 1
        ask(u, False)


LEVELS = ("thorough", "deep")


def domains(tier):
    big = tier != "quick"
    deep = tier == "deep"

    def seqs():
        for n in range(0, 6):
            yield from itertools.product(range(-1, n + 2), repeat=n)     # every order
        for n in (6, 7):
            for s in itertools.combinations_with_replacement(range(0, n + 1), n):
                yield s
                yield s[::-1]
                yield s[n // 2:] + s[:n // 2]
        for n in (8, 9, 10, 11) if deep else (8, 9) if big else (8,):
            for s in itertools.combinations_with_replacement(range(0, n), n):
                yield s

    def longer():
        for n in range(1, 13 if deep else 10 if big else 8):
            for w in itertools.product((0, 1), repeat=n):
                yield ("threshold", (0,) + w, 1)
        for n in (20, 35, 50, 70) if big else (20, 35, 50):
            for a, b in itertools.product((1, 2, 5, 9, 16), repeat=2):
                yield ("threshold", tuple(1 if i % (a + b) >= a else 0 for i in range(n)), 7)
        for n in range(1, 45 if deep else 31 if big else 23):
            for d in range(0, n + 1):
                yield ("regular", (n, d), 1)
        for n in (40, 65):
            for d in (1, 7, 20, n // 2, n - 4, n - 1, n):
                yield ("regular", (n, d), 1)

    def calls():
        from rosemary.graphs.algorithms import degree_sequences as m
        out = {}
        for s in ([5, 4, 4, 3, 1, 1], [4, 4, 3, 2, 2, 1], [1, 1], [3, 3, 1, 1], [1]):
            out["is_graphic %r" % s] = (m.is_graphic, lambda s=s: (list(s),))
            out["erdos_gallai %r" % s] = (m.is_graphic_erdos_gallai, lambda s=s: (list(s),))
        return out

    return [
        Domain("sequences", seqs, run,
               bound="every sequence of length <= 5 with entries -1..n+1; every multiset of length 6, 7 in three orders; length 8%s" % (", 9, 10, 11" if deep else ", 9" if big else "")),
        Domain("longer", longer, known, timeout=60,
               bound="every threshold sequence up to length %d, 25 of length up to %d, regular sequences up to 65; with every (or a grid of) unit transfers"
               % ((13, 70) if deep else (10, 70) if big else (8, 50))),
        call_histories("call-histories", calls(), depth=2),
    ]
