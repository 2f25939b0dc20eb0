"""Call-history exploration.

A history is a sequence of calls made by one client in one fresh process.  After
every call the client keeps, then scribbles over, whatever mutable value it was
handed (it owns it), and the next call must still answer what the same call
answers when it is the first one of a process; no call may change its arguments.
"""

import copy
import itertools
import os
import pickle
import signal

from mc import choice
from mc.engine import Domain, Violation


def _norm(x, depth=0):
    if hasattr(x, "__next__"):
        x = list(itertools.islice(x, 200))
    return x


def _freeze(x):
    """Comparable snapshot of a value (graphs and matrices by content)."""
    if isinstance(x, dict):
        return ("d", sorted(((_freeze(k), _freeze(v)) for k, v in x.items()), key=repr))
    if isinstance(x, list):
        return ("l", [_freeze(v) for v in x])
    if isinstance(x, tuple):
        return ("t", [_freeze(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("s", sorted((_freeze(v) for v in x), key=repr))
    if isinstance(x, (int, float, str, bool, type(None), complex)):
        return x
    if callable(x) and not hasattr(x, "__dict__"):
        return "callable"
    if hasattr(x, "__dict__") and not callable(x):
        return (type(x).__name__, _freeze({k: v for k, v in vars(x).items()
                                           if not callable(v)}))
    return repr(type(x))


def _scribble(x, depth=0):
    """The client overwrites a result it owns."""
    if depth > 3:
        return
    try:
        if isinstance(x, list):
            for v in x[:50]:
                _scribble(v, depth + 1)
            x.reverse()
            x.append(-7777)
            x.insert(0, -8888)
        elif isinstance(x, dict):
            for v in list(x.values())[:50]:
                _scribble(v, depth + 1)
            x.clear()
            x[-7777] = -7777
        elif isinstance(x, set):
            x.clear()
            x.add(-7777)
        elif isinstance(x, tuple):
            for v in x:
                _scribble(v, depth + 1)
        elif hasattr(x, "__dict__") and not isinstance(x, type) and not callable(x):
            for v in vars(x).values():
                _scribble(v, depth + 1)
    except TypeError:
        pass


def _do(call):
    """call = (fn, args maker).  Returns (frozen result or exception, args problem)."""
    fn, mk = call
    args = mk()
    before = _freeze(args)
    choice.reset()
    try:
        r = _norm(fn(*args))
        fr = _freeze(r)
    except Exception as e:
        r, fr = None, ("raised", type(e).__name__)
    after = _freeze(args)
    problem = None
    if before != after:
        problem = "arguments changed from %.200r to %.200r" % (before, after)
    _scribble(r)
    return fr, problem


def isolated(body, seconds=60):
    """Run body() in a forked child; returns its pickled value."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds)
            os.close(rd)
            with os.fdopen(wr, "wb") as f:
                f.write(pickle.dumps(body()))
        except BaseException:
            code = 3
        os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        raise Violation("history ended abnormally (status %s)" % st)
    return pickle.loads(data)


def call_histories(name, calls, depth=2, timeout=120.0, inplace=()):
    """Domain of all call sequences of length <= depth over ``calls``.

    calls: dict label -> (fn, args maker).  The reference answer of a call is the
    one it gives as the first call of a fresh process.
    """
    labels = list(calls)
    base = {}

    def baseline(lab):
        if lab not in base:
            base[lab] = isolated(lambda: _do(calls[lab]))[0]
        return base[lab]

    def cases():
        # one case per (shared prefix); the last call ranges over the alphabet inside
        for k in range(0, depth):
            for pre in itertools.product(labels, repeat=k):
                yield pre

    def fn(prefix, t):
        want = {lab: baseline(lab) for lab in set(prefix) | set(labels)}

        def body():
            out = []
            for lab in prefix:
                fr, problem = _do(calls[lab])
                if problem and lab not in inplace:
                    return [(lab, problem)]
                if fr != want[lab]:
                    return [(lab, "answered %.200r, alone it answers %.200r" % (fr, want[lab]))]
            # every last call, each in its own child so that they do not see each other
            for lab in labels:
                def last():
                    fr, problem = _do(calls[lab])
                    if problem and lab not in inplace:
                        return problem
                    if fr != want[lab]:
                        return "answered %.200r, alone it answers %.200r" % (fr, want[lab])
                    return None
                p = isolated(last)
                if p:
                    out.append((lab, p))
                    break
            return out

        bad = isolated(body, seconds=int(timeout))
        t.calls += len(labels) + len(prefix)
        t.traces += len(labels)
        t.states += len(labels)
        for lab in labels:
            t.outcome(want[lab])
        if bad:
            raise Violation("after calls %r, call %s %s" % (list(prefix), bad[0][0], bad[0][1]))

    return Domain(name, cases, fn, timeout=timeout,
                  bound="all call sequences of length <= %d over %d calls" % (depth, len(labels)),
                  inputs_are_states=False)
