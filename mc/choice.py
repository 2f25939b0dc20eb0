"""Controlled randomness.

``install()`` replaces the functions of the standard ``random`` module by the
methods of one controlled generator, before the code under test is imported, so
every random draw of the code becomes a choice point the explorer owns,
whichever way the code reaches for randomness.

``explore(body, ...)`` runs body once per combination of answers to its first
``depth`` draws (each draw offers a finite menu: every value when the range is
small, the extreme, low and middle ones otherwise); draws beyond the depth follow
a fixed pseudo-random stream, which keeps retry loops live.
"""

import random as _random

_ORIG = _random.Random


class Diverged(Exception):
    pass


class Controlled(_ORIG):
    """A random.Random whose raw draws come from a script, then a fixed stream."""

    def __init__(self):
        super().__init__(12345)
        self.begin([])

    def begin(self, script, depth=0, wide=6, stream=0, floats=(0.0, 0.5, 0.999999999)):
        self.floats = floats
        self.script = list(script)
        self.points = []            # (menu size, choice taken) for scripted draws
        self.depth = depth
        self.wide = wide
        self.draws = 0
        super().seed(99991 + stream)

    def _choose(self, size):
        i = len(self.points)
        c = self.script[i] if i < len(self.script) else 0
        if c >= size:
            raise Diverged("choice %d of %d at point %d" % (c, size, i))
        self.points.append((size, c))
        return c

    def _menu(self, n):
        w = self.wide
        if n <= w:
            return list(range(n))
        m = [0, 1, n - 1, n // 2, 2, n - 2, n // 3]
        out = []
        for v in m:
            if v not in out:
                out.append(v)
        k = 3
        while len(out) < w and k < n:
            if k not in out:
                out.append(k)
            k += 1
        return out[:w]

    # every integer draw of random.Random funnels through _randbelow
    def _randbelow(self, n):
        self.draws += 1
        if n <= 1:
            return 0
        if len(self.points) < self.depth:
            m = self._menu(n)
            return m[self._choose(len(m))]
        return int(super().random() * n) if n < 2**50 else super().getrandbits(n.bit_length() + 8) % n

    _randbelow_with_getrandbits = _randbelow
    _randbelow_without_getrandbits = _randbelow

    def random(self):
        self.draws += 1
        if len(self.points) < self.depth:
            m = self.floats
            return m[self._choose(len(m))]
        return super().random()

    def getrandbits(self, k):
        return self._randbelow(1 << k) if k else 0

    def seed(self, *a, **k):        # the code under test may not reseed us
        pass


CTL = Controlled()
_NAMES = ["betavariate", "choice", "choices", "expovariate", "gammavariate", "gauss",
          "getrandbits", "lognormvariate", "normalvariate", "paretovariate", "randbytes",
          "randint", "random", "randrange", "sample", "seed", "shuffle", "triangular",
          "uniform", "vonmisesvariate", "weibullvariate"]


def install():
    for n in _NAMES:
        setattr(_random, n, getattr(CTL, n))
    _random._inst = CTL

    class R(Controlled):
        """Private generators made by the code share the controlled stream."""

        def __init__(self, *a, **k):
            pass

        def __getattribute__(self, name):
            if name.startswith("__"):
                return object.__getattribute__(self, name)
            return getattr(CTL, name)

        def __new__(cls, *a, **k):
            return _ORIG.__new__(cls)

    _random.Random = R
    _random.SystemRandom = R


def reset(stream=0):
    """Deterministic default: no scripted choices, fixed stream."""
    CTL.begin([], 0, stream=stream)


def explore(body, depth, wide=6, limit=None, tracker=None, stream=0, floats=(0.0, 0.5, 0.999999999)):
    """Run body() for every answer sequence; body compares and raises Violation."""
    script = []
    runs = 0
    while True:
        CTL.begin(script, depth, wide, stream, floats)
        body(list(script))
        runs += 1
        pts = CTL.points
        if len(pts) < len(script):
            raise Diverged("replay used %d of %d choices" % (len(pts), len(script)))
        # next script in depth-first order
        i = len(pts) - 1
        while i >= 0 and pts[i][1] + 1 >= pts[i][0]:
            i -= 1
        if i < 0:
            break
        script = [c for _, c in pts[:i]] + [pts[i][1] + 1]
        if limit is not None and runs >= limit:
            raise RuntimeError("choice tree larger than the declared limit %d" % limit)
    CTL.begin([], 0)
    if tracker is not None:
        tracker.schedules += runs
        tracker.states += runs
    return runs
