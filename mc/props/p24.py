"""The alphametic solver yields exactly the digit assignments that solve the puzzle."""

import itertools

from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P24"
ASSUMPTIONS = ["words are nonempty; no word starts with the digit zero; distinct letters, distinct digits"]


def ref(lhs, rhs):
    """All solutions as value tuples (reference: plain search, last letter solved for)."""
    coef = {}
    order = []
    for side, sign in ((lhs, 1), (rhs, -1)):
        for w in side:
            for k, ch in enumerate(reversed(w)):
                if ch not in coef:
                    coef[ch] = 0
                    order.append(ch)
                coef[ch] += sign * 10 ** k
    first = {w[0] for w in lhs + rhs}
    out = set()
    order.sort(key=lambda c: abs(coef[c]), reverse=True)
    hi = [0] * (len(order) + 1)
    for i in range(len(order) - 1, -1, -1):
        hi[i] = hi[i + 1] + 9 * abs(coef[order[i]])
    mp = {}

    def value(w):
        return int("".join(str(mp[c]) for c in w))

    def go(i, total):
        if abs(total) > hi[i]:
            return
        if i == len(order):
            if total == 0:
                out.add((tuple(map(value, lhs)), tuple(map(value, rhs))))
            return
        c = order[i]
        for d in range(10):
            if d in mp.values() or (d == 0 and c in first):
                continue
            mp[c] = d
            go(i + 1, total + d * coef[c])
            del mp[c]
    go(0, 0)
    return out


def run(case, t):
    from rosemary.combinatorics.recreational.alphametics import solve
    lhs, rhs, alphabet = case
    tr = {chr(97 + i): alphabet[i] for i in range(len(alphabet))}
    L = ["".join(tr[c] for c in w) for w in lhs]
    R = ["".join(tr[c] for c in w) for w in rhs]
    keep = (list(L), list(R))
    want = ref(L, R)
    got = [(tuple(a), tuple(b)) for a, b in t.call(solve, L, R)]
    check(len(got) == len(set(got)), "solve(%r, %r) repeats a solution", L, R)
    check(set(got) == want, "solve(%r, %r): missing %r, extra %r", L, R,
          sorted(want - set(got))[:2], sorted(set(got) - want)[:2])
    equal((L, R), keep, "the words")
    t.outcome((lhs, rhs, len(want)))


def shapes(shape, max_letters):
    """All puzzles with these word lengths up to renaming letters."""
    lens = shape[0] + shape[1]
    n = sum(lens)

    def go(pre, mx):
        if len(pre) == n:
            yield pre
            return
        for v in range(min(mx + 2, max_letters)):
            yield from go(pre + [v], max(mx, v))
    for word in go([], -1):
        s = "".join(chr(97 + v) for v in word)
        ws = []
        i = 0
        for k in lens:
            ws.append(s[i:i + k])
            i += k
        yield tuple(ws[:len(shape[0])]), tuple(ws[len(shape[0]):])


CLASSIC = [
    (("send", "more"), ("money",)), (("she", "will", "wash", "these"), ("shirts",)),
    (("violin", "violin", "viola"), ("trio", "sonata")), (("forty", "ten", "ten"), ("sixty",)),
    (("ab", "ab"), ("ab", "ab")), (("abcdefghijk",), ("abcdefghijk",)), (("abc",), ("cba", "a")),
    (("abcde", "abcde"), ("fghij",)),
    (("cab", "bad"), ("dab", "cad")), (("aa", "bb", "cc"), ("abc",)), (("ab", "cb"), ("cb", "ab")),
]


def classics(case, t):
    from rosemary.combinatorics.recreational.alphametics import solve
    L, R = map(list, case)
    letters = {c for w in L + R for c in w}
    want = ref(L, R) if len(letters) <= 10 else set()
    got = [(tuple(a), tuple(b)) for a, b in t.call(solve, L, R)]
    check(len(got) == len(set(got)) and set(got) == want, "solve(%r, %r): missing %r, extra %r", L, R,
          sorted(want - set(got))[:2], sorted(set(got) - want)[:2])
    t.outcome(case)


def long_words(case, t):
    """Words of up to 40 letters: the columns repeat, so a column-by-column search settles them."""
    from rosemary.combinatorics.recreational.alphametics import solve
    L, R = map(list, case)
    want = ref(L, R)
    got = [(tuple(a), tuple(b)) for a, b in t.call(solve, L, R)]
    check(len(got) == len(set(got)) and set(got) == want, "solve(%r, %r): missing %r, extra %r", L, R,
          sorted(want - set(got))[:2], sorted(set(got) - want)[:2])
    t.outcome((case, len(want)))


def long_puzzles(q):
    for k in (7, 15, 16, 17, 18, 19, 20, 25, 40):
        for u, v, w in (("a", "b", "c"), ("a", "a", "b"), ("ab", "ab", "ba"), ("ab", "ba", "cc"), ("ab", "c", "ac"), ("abc", "cba", "dcd"), ("a", "bc", "ca")):
            yield ((u + "d" * k, v + "d" * k), (w + "d" * k,))
            yield ((u * k, v * k), (w * k,))
            yield ((w * k,), (u * k, v * k))
            yield ((u + "e" * k + "d", v + "d" * k + "e"), (w + "ed" * (k // 2) + "e" * (k % 2 + 1),))
            yield ((u + "d" * k,), (v + "d" * k, w + "d" * k))
            if not q:
                yield ((u + "d" * k, u + "d" * k, v + "e" * k), (w + "e" * k, v + "d" * k))
                yield ((u + "d" * (k - 1),), (v + "e" * k,))
                yield ((u * k + v, v), (w * k, u))


def calls():
    from rosemary.combinatorics.recreational.alphametics import solve
    return {
        "a": (solve, lambda: (["ab", "b"], ["ca"])),
        "b": (solve, lambda: (["aa", "b"], ["bcc"])),
        "c": (solve, lambda: (["ab"], ["ba"])),
    }


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    sh = [((1, 1), (1,)), ((1, 1), (2,)), ((2, 1), (2,)), ((2, 2), (2,)), ((2, 1), (3,)), ((2, 2), (3,)),
          ((1, 1, 1), (2,)), ((2,), (2,)), ((3,), (2, 1)), ((1,), (1, 1)), ((3,), (3,)), ((2, 2), (2, 1))]
    if not q:
        sh += [((3, 2), (3,)), ((2, 2, 2), (3,)), ((3, 3), (3,)), ((3, 1), (2, 2))]
    if deep:
        sh += [((2, 2), (2, 2)), ((2, 2, 1), (3,))]
    cap = 5 if q else 6
    return [
        Domain("small puzzles", lambda: ((l, r, "abcdefghij") for s in sh for l, r in shapes(s, cap)),
               run, timeout=120,
               bound="every puzzle with these word lengths and <= %d letters, up to renaming: %r" % (cap, sh)),
        Domain("other letters", lambda: ((l, r, a) for a in ("zyxwvuts", "AbcDefGh", "mqceafkx")
                                         for s in sh[:6] for l, r in shapes(s, 4)), run, timeout=120,
               bound="<= 4 letters, three other alphabets"),
        Domain("classic puzzles", lambda: CLASSIC[:-5] + CLASSIC[-4:] if q else CLASSIC, classics, timeout=600,
               bound="%d puzzles with up to 11 letters" % (len(CLASSIC) - 1 if q else len(CLASSIC))),
        Domain("long words", lambda: long_puzzles(q), long_words, timeout=200,
               bound="words of 7 to 120 letters, at most five of them different"),
        call_histories("histories", calls(), depth=2 if q else 3),
    ]
