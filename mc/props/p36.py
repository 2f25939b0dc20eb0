"""Continued fractions of quadratic irrationals are exact, with the least preperiod and period."""

import itertools
import math
from fractions import Fraction

from mc import ref
from mc.engine import Domain, check, equal
from mc.history import call_histories

PROPERTY = "P36"
ASSUMPTIONS = ["d > 0, q != 0"]


def C():
    from rosemary.number_theory.continued_fractions import QuadraticIrrational
    return QuadraticIrrational


def floor_of(P, D, Q):
    """Exact floor of (P + sqrt(D))/Q for nonsquare D."""
    r = math.isqrt(D)
    if Q > 0:
        return (P + r) // Q
    return -((P + r) // -Q) - 1


def expansion(d, p, q):
    """(preperiod, period) with exact states (P + sqrt(D))/Q, D - P^2 divisible by Q."""
    P, D, Q = p * abs(q), d * q * q, q * abs(q)
    seen, out = {}, []
    while (P, Q) not in seen:
        seen[P, Q] = len(out)
        a = floor_of(P, D, Q)
        out.append(a)
        P = a * Q - P
        Q, rem = divmod(D - P * P, Q)
        assert rem == 0
    j = seen[P, Q]
    return out[:j], out[j:]


def close(d, p, q, a, b):
    """|(p + sqrt(d))/q - a/b| < 1/b^2, decided with integers."""
    # b*|b(p + sqrt d) - a q| < |q|  <=>  -|q| < b(bp - aq) + b^2 sqrt d < |q|
    c = b * (b * p - a * q)
    def less(x, y):             # sign of x*sqrt(d) < y
        lhs = x * x * d
        return y > 0 and lhs < y * y if x >= 0 else not (y < 0 and lhs <= y * y)
    return less(b * b, abs(q) - c) and not less(b * b, -abs(q) - c)


def one(case, t):
    K = C()
    d, p, q = case
    if q == 1 and p == 0:
        cf = t.call(K, d)
    else:
        cf = t.call(K, d, p, q)
    pre, per = expansion(d, p, q)
    what = "(%d + sqrt(%d))/%d" % (p, d, q)
    equal(list(cf.pre_period), pre, what + ": preperiod")
    equal(list(cf.fundamental_period), per, what + ": period")
    equal(cf.period_length, len(per), what + ": period length")
    equal((cf.d, cf.p, cf.q), (d, p, q), what + ": fields")
    n = len(pre) + 2 * len(per) + 3
    terms = list(itertools.islice(itertools.chain(pre, itertools.cycle(per)), n))
    equal(list(itertools.islice(t.call(cf.partial_quotients), n)), terms, what + ": partial quotients")
    n = min(n, 60)
    conv = list(itertools.islice(t.call(cf.convergents), n))
    h0, h1, k0, k1 = 0, 1, 1, 0
    want = []
    for a in terms[:n]:
        h0, h1 = h1, a * h1 + h0
        k0, k1 = k1, a * k1 + k0
        want.append((h1, k1))
    equal([tuple(x) for x in conv], want, what + ": convergents")
    for a, b in want[1:]:
        check(close(d, p, q, a, b), what + ": %d/%d is not a convergent", a, b)
    # a second walk of the same object
    equal(list(itertools.islice(t.call(cf.partial_quotients), n)), terms[:n], what + ": partial quotients again")
    s = "Continued Fraction Expansion of "
    num = "sqrt(%d)" % d if p == 0 else "%d + sqrt(%d)" % (p, d)
    s += num if q == 1 else ("%s/%d" % (num, q) if p == 0 else "(%s)/%d" % (num, q))
    equal(repr(cf), s, what + ": text")
    t.outcome((pre, per))


def huge(q):
    for k in (2**26, 2**27 + 1, 94906266, 3 * 10**8 + 1, 2**53 - 1, 2**53 + 1, 10**17 + 1, 10**30 - 1, 3**100):
        ds = [k * k + 1, k * k - 1, k * k + 2, k * k - 2, k * k + k, k * k + 2 * k, k * k + 4, k * k - 4]
        for d in ds if not q or k > 10**8 else ds[:4]:
            yield (d, 0, 1)
        for d in (k * k + 1, k * k - 1, k * k + 4):
            for p in (1, -1, k, -k, k + 1, -k - 1, 2 * k + 3, -5 * k, 10**40, -10**40 - 1):
                for s in (1, -1, 2, -2):
                    yield (d, p, s)
    for d, p, s in ((2, 10**20, 3), (2, -10**20, 7), (5, 3**60, -2), (7, 1, 1009), (3, 10**9, 1000)):
        yield (d, p, s)


def squares(case, t):
    K = C()
    d, p, q = case
    kind, v = t.attempt(K, d, p, q)
    check(kind == "raised" and isinstance(v, ValueError), "QuadraticIrrational(%d, %d, %d): %r", d, p, q, v)
    t.outcome(case)


def interleave(case, t):
    """Generators of one object, advanced in every interleaving, do not disturb each other."""
    K = C()
    args, order = case
    cf = K(*args)
    d, p, q = (args + (0, 1))[:3] if len(args) == 1 else args
    pre, per = expansion(d, p, q)
    terms = list(itertools.islice(itertools.chain(pre, itertools.cycle(per)), 10))
    cs = []
    h0, h1, k0, k1 = 0, 1, 1, 0
    for a in terms:
        h0, h1 = h1, a * h1 + h0
        k0, k1 = k1, a * k1 + k0
        cs.append((h1, k1))
    gens = [cf.partial_quotients(), cf.convergents(), cf.partial_quotients()]
    pos = [0, 0, 0]
    for g in order:
        got = t.call(next, gens[g])
        w = (cs if g == 1 else terms)[pos[g]]
        equal(got, w, "item %d of generator %d of %r in order %r" % (pos[g], g, args, order))
        pos[g] += 1
    t.outcome((args, tuple(pos)))


def calls():
    K = C()
    def full(*a):
        cf = K(*a)
        return (repr(cf), list(cf.pre_period), list(cf.fundamental_period), cf.period_length,
                list(itertools.islice(cf.convergents(), 8)))
    return {
        "13": (full, lambda: (13,)), "425": (full, lambda: (425,)), "22": (full, lambda: (22, 4, 6)),
        "10": (full, lambda: (10, 1, 2)), "neg": (full, lambda: (7, -3, -2)), "square": (full, lambda: (100,)),
    }


LEVELS = ("thorough", "deep")


def domains(tier):
    q = tier == "quick"
    deep = tier == "deep"
    D = Domain
    nsq = [d for d in range(2, 4000 if q else 200000 if deep else 20000) if math.isqrt(d) ** 2 != d]
    quads = [(d, p, s) for d in nsq if d < (70 if q else 1000 if deep else 160) for p in range(-8, 9) for s in range(-8, 9) if s and (p, s) != (0, 1)]
    quads += [(d, p, s) for d in (94, 151, 211, 1009, 1021) for p in range(-20, 21) for s in range(-12, 13)
              if s and (p, s) != (0, 1)]
    sq = [(d * d, p, s) for d in range(0, 40) for p in (-2, 0, 1, 3) for s in (1, 2, -3)]
    objs = [(13,), (425,), (22, 4, 6), (10, 1, 2), (7, -3, -2)]
    return [
        D("square roots", lambda: [(d, 0, 1) for d in nsq] + [(c + i, 0, 1) for c in (10**6, 10**8) for i in range(1, 60)
                                                              if math.isqrt(c + i) ** 2 != c + i],
          one, timeout=60, bound="all nonsquare d < %d and windows at 10^6 and 10^8" % (nsq[-1] + 1)),
        D("quadratic irrationals", lambda: quads, one, timeout=60, bound="|p| <= 8, |q| <= 8, all small d; |p| <= 20, |q| <= 12 for five d"),
        D("huge radicands", lambda: huge(q), one, timeout=60,
          bound="d within 2k of k^2 for nine k up to 3^100, p up to 10^40, |q| <= 2"),
        D("perfect squares", lambda: sq + [(k * k, p, s) for k in (2**26 + 1, 94906267, 2**53 + 1, 10**25) for p, s in ((0, 1), (1, 2), (-3, -1))],
          squares, bound="squares up to 10^50"),
        D("interleaved generators", lambda: [(o, w) for o in objs for w in itertools.product(range(3), repeat=6 if q else 10 if deep else 8)],
          interleave, bound="every interleaving of %d steps over 3 generators" % (6 if q else 10 if deep else 8)),
        call_histories("histories", calls(), depth=3),
    ]
