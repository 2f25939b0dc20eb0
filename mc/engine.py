"""Bounded-exhaustive exploration engine.

A property module exports ``PROPERTY`` (its id) and ``domains(tier)``, a list of
Domain objects.  A Domain is a finite, deterministically ordered space of cases
(inputs, operation histories, or random-choice trees) together with a function
that executes one case on the real code of /repo and compares every observable
step with a reference model.  The engine enumerates every case of every domain,
spreading them over worker processes (worker w takes the cases whose index is w
modulo the number of workers), so a run that ends normally has covered each
space completely.

A case fails when its function raises Violation, when the code under test raises
anything the reference model does not predict, or when it does not answer within
the case's time limit.
"""

import collections
import gc
import hashlib
import itertools
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ROSEMARY_REPO", "/repo")
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
MEM_LIMIT = 3 << 30
MEM_RESERVE = 256 << 20    # to report that the memory ran out
CASE_TIMEOUT = float(os.environ.get("MC_CASE_TIMEOUT", "1e9"))
FAIL_FAST = os.environ.get("MC_FAIL_FAST") == "1"     # stop at the first violation (mutation experiments)
MAX_REPORT = 3          # violations kept per worker and domain
GRACE = 240             # seconds after which a run that has a violation to report does not go on


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def _long_ints():
    """Only once a violation is being reported: its integers may be printed however long they are."""
    if hasattr(sys, "set_int_max_str_digits"):
        sys.set_int_max_str_digits(0)


def check(cond, msg, *args):
    if not cond:
        _long_ints()
        raise Violation(msg % args if args else msg)


def equal(got, want, what=""):
    if got != want:
        _long_ints()
        raise Violation("%s: got %.400r, expected %.400r" % (what, got, want))


_ABSENT = object()


def raises(exc, fn, *args, what="", **kwargs):
    """The call must raise exc (a documented error), not return a value."""
    try:
        v = fn(*args, **kwargs)
        if hasattr(v, "__next__"):      # generators report errors on first use
            v = next(v, None)
    except exc:
        return
    raise Violation("%s: returned %.200r where %s is documented"
                    % (what or getattr(fn, "__name__", "call"), v,
                       getattr(exc, "__name__", exc)))


class Tracker:
    """Counts what one worker actually explored."""

    def __init__(self):
        self.calls = 0
        self.states = 0
        self.traces = 0
        self.schedules = 0
        self.outcomes = set()

    def call(self, fn, *args, **kwargs):
        self.calls += 1
        return fn(*args, **kwargs)

    def attempt(self, fn, *args, **kwargs):
        """("ok", value) or ("raised", exception)."""
        self.calls += 1
        try:
            return "ok", fn(*args, **kwargs)
        except Exception as e:
            return "raised", e

    def outcome(self, x):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(repr(x)))


class Domain:
    def __init__(self, name, cases, fn, timeout=30.0, bound="", inputs_are_states=True):
        self.name = name
        self._cases = cases
        self.fn = fn
        self.timeout = timeout
        self.bound = bound
        self.inputs_are_states = inputs_are_states

    def cases(self):
        c = self._cases
        return iter(c() if callable(c) else c)


def domains(mod, tier):
    """The domains of a tier: a module whose deeper bounds are cheap enough explores them on every change (LEVELS)."""
    levels = getattr(mod, "LEVELS", ("quick", "thorough"))
    return mod.domains({"smoke": "quick", "quick": levels[0], "thorough": levels[1]}[tier])


def canon(x):
    """JSON-able form of a case (tuples survive a replay round trip)."""
    if isinstance(x, tuple):
        return {"t": [canon(v) for v in x]}
    if isinstance(x, list):
        return [canon(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return {"s": [canon(v) for v in sorted(x, key=repr)]}
    if isinstance(x, dict):
        return {"d": [[canon(k), canon(v)] for k, v in x.items()]}
    if isinstance(x, range):
        return {"r": [x.start, x.stop, x.step]}
    if isinstance(x, int) and not isinstance(x, bool):
        return {"i": hex(x)} if abs(x) > 2**53 else int(x)
    if isinstance(x, Fraction):
        return {"q": [canon(x.numerator), canon(x.denominator)]}
    if x is None or isinstance(x, (bool, float, str)):
        return x
    return {"o": repr(x)}                 # replayed by its index


def uncanon(x):
    if isinstance(x, dict):
        if "t" in x:
            return tuple(uncanon(v) for v in x["t"])
        if "s" in x:
            return frozenset(uncanon(v) for v in x["s"])
        if "r" in x:
            return range(*x["r"])
        if "i" in x:
            return int(x["i"], 0)
        if "q" in x:
            return Fraction(*map(uncanon, x["q"]))
        if "o" in x:
            raise ValueError("no literal form")
        return {uncanon(k): uncanon(v) for k, v in x["d"]}
    if isinstance(x, list):
        return [uncanon(v) for v in x]
    return x


def shown(case):
    """A case, or the stored form of one, for a person to read."""
    try:
        case = uncanon(case)
    except (ValueError, TypeError):
        pass
    try:
        return ("%r" % (case,))[:300]
    except ValueError:          # integers too long to be printed
        return json.dumps(canon(case))[:300]


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(dom, case, tracker):
    """Returns None, or (kind, message)."""
    signal.setitimer(signal.ITIMER_REAL, min(dom.timeout, CASE_TIMEOUT))
    try:
        dom.fn(case, tracker)
        return None
    except Violation as e:
        return ("mismatch", str(e))
    except CaseTimeout:
        return ("no-answer", "no answer within %gs" % dom.timeout)
    except RecursionError as e:
        return ("exception", "RecursionError: %s" % e)
    except MemoryError as e:
        # the frames of the traceback may hold all of the memory: let go of them first
        e.__traceback__ = e.__context__ = None
        del e
        signal.setitimer(signal.ITIMER_REAL, 0)
        _limit(MEM_RESERVE)
        gc.collect()
        return ("exception", "MemoryError: out of memory (limit of %d MiB)" % (MEM_LIMIT >> 20))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d:%s" % (os.path.relpath(f.filename, REPO)
                               if f.filename.startswith(REPO) else os.path.basename(f.filename),
                               f.lineno, f.name) for f in tb[-4:]]
        return ("exception", "%s: %s at %s" % (type(e).__name__, e, " < ".join(reversed(where))))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _limit(extra=0):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT + extra, MEM_LIMIT + MEM_RESERVE))
    except (ValueError, OSError):
        pass


def _worker(w, nw, doms, progress, out, known):
    try:
        _work(w, nw, doms, progress, out, known)
    except MemoryError:
        _limit(MEM_RESERVE)
        os._exit(3)             # reported as the failure of the case in progress
    except BaseException:
        out.send(traceback.format_exc())
        out.close()


def _work(w, nw, doms, progress, out, known):
    signal.signal(signal.SIGALRM, _alarm)
    _limit()
    # code under test that prints must not be able to forge our output lines
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    res = []
    for di, dom in enumerate(doms):
        tr = Tracker()
        seen = set()
        ncases = 0
        bad = []
        known_hits = set()
        sample = []
        slowest = 0.0
        t0 = time.time()
        progress[2 * w] = di
        for i, case in enumerate(dom.cases()):
            if i % nw != w:
                continue
            progress[2 * w + 1] = i
            ncases += 1
            if dom.inputs_are_states:
                seen.add(hash(repr(case)))
            t1 = time.time()
            r = run_case(dom, case, tr)
            slowest = max(slowest, time.time() - t1)
            if r is not None:
                _limit()
                key = known_key(dom.name, case)
                if key in known:
                    known_hits.add(key)
                    continue
                bad.append((canon(case), r[0], r[1], i))
                if not FAIL_FAST:
                    out.send((dom.name, bad[-1]))
                if FAIL_FAST:
                    out.send([dict(domain=dom.name, cases=ncases, states=0, traces=0, schedules=0, calls=0, outcomes=[],
                                   bad=bad, known=[], sample=[], secs=0.0, slowest=0.0)])
                    out.close()
                    return
                if len(bad) >= MAX_REPORT:
                    break
            elif len(sample) < 1 and i >= 3:
                sample.append(("%r" % (case,))[:300])
        res.append(dict(domain=dom.name, cases=ncases, states=len(seen) + tr.states,
                        traces=ncases if not tr.traces else tr.traces,
                        schedules=tr.schedules,
                        calls=tr.calls, outcomes=list(tr.outcomes)[:50000],
                        bad=bad, known=sorted(known_hits), sample=sample,
                        secs=time.time() - t0, slowest=slowest))
    progress[2 * w] = len(doms)
    out.send(res)
    out.close()


def known_key(domain, case):
    return domain + "|" + json.dumps(canon(case), sort_keys=True)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    out = {}
    for e in data.get("findings", []):
        if e["property"] == prop:
            out[e["domain"] + "|" + json.dumps(e["case"], sort_keys=True)] = e["what"]
    return out


def explore(prop, tier, doms, deadline=None):
    """Runs every domain; returns (per-domain results, violations, known hits, complete)."""
    known = load_known(prop)
    ctx = multiprocessing.get_context("fork")
    progress = ctx.Array("q", [0] * (2 * WORKERS), lock=False)
    procs = []
    for w in range(WORKERS):
        rd, wr = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(w, WORKERS, doms, progress, wr, known))
        p.start()
        wr.close()
        procs.append((p, rd))
    results = {d.name: dict(domain=d.name, cases=0, states=0, traces=0, calls=0, schedules=0,
                            outcomes=set(), bad=[], known=set(), sample=[], secs=0.0, slowest=0.0,
                            bound=d.bound)
               for d in doms}
    violations = []
    start = time.time()
    early = {w: [] for w in range(WORKERS)}       # violations of workers that are still going
    last = [(-1, -1, start)] * WORKERS
    pending = dict(enumerate(procs))
    complete = True
    while pending:
        time.sleep(0.02)
        for w, (p, rd) in list(pending.items()):
            msg = None
            try:
                if rd.poll():
                    msg = rd.recv()
            except EOFError:
                msg = None
                p.join()
            if isinstance(msg, str):
                for p2, _ in pending.values():
                    p2.kill()
                raise RuntimeError("harness error in a worker:\n" + msg)
            if isinstance(msg, tuple):
                early[w].append(msg)
                continue
            if msg is not None:
                early[w] = []
                for r in msg:
                    agg = results[r["domain"]]
                    for k in ("cases", "states", "traces", "calls", "schedules"):
                        agg[k] += r[k]
                    agg["outcomes"].update(r["outcomes"])
                    agg["bad"].extend(r["bad"])
                    agg["known"].update(r["known"])
                    agg["sample"].extend(r["sample"])
                    agg["secs"] += r["secs"]
                    agg["slowest"] = max(agg["slowest"], r["slowest"])
                p.join()
                del pending[w]
                if FAIL_FAST and any(r["bad"] for r in msg):
                    for p2, _ in pending.values():
                        p2.kill()
                    pending.clear()
                    break
                continue
            di, ci = progress[2 * w], progress[2 * w + 1]
            if (di, ci) != last[w][:2]:
                last[w] = (di, ci, time.time())
            stuck = di < len(doms) and time.time() - last[w][2] > 2 * min(doms[di].timeout, CASE_TIMEOUT) + 30
            if time.time() - start > GRACE and any(early.values()):
                for p2, _ in pending.values():
                    p2.kill()
                pending.clear()
                complete = False
                break
            if not p.is_alive() and not rd.poll():
                what = "worker died (exit %s)" % p.exitcode
            elif stuck:
                p.kill()
                p.join()
                what = "no answer, uninterruptible"
            else:
                continue
            del pending[w]
            complete = False
            if di < len(doms):
                case = next(itertools.islice(doms[di].cases(), ci, None), None)
                results[doms[di].name]["bad"].append((canon(case), "no-answer", what, ci))
            else:
                raise RuntimeError("worker failed outside a case: " + what)
    for found in early.values():
        for name, b in found:
            results[name]["bad"].append(b)
    for d in doms:
        for b in sorted(results[d.name]["bad"], key=lambda b: b[3]):
            violations.append((d.name,) + tuple(b))
    hits = [(k, known[k]) for d in doms for k in sorted(results[d.name]["known"])]
    return results, violations, hits, complete


def write_replay(prop, tier, viol):
    name, case, kind, msg, idx = viol
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps([name, case], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, name.replace("/", "_"), h))
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, domain=name, case=case, kind=kind,
                       message=msg, index=idx), f, indent=1)
    return path


def write_evidence(prop, tier, seed, results, nviol, wall, assumptions, exhaustive):
    cov = dict(
        states=sum(r["states"] for r in results.values()),
        transitions=sum(r["calls"] for r in results.values()),
        traces_validated_against_impl=sum(r["traces"] for r in results.values()),
        distinct_outcomes=sum(len(r["outcomes"]) for r in results.values()),
        samples=[{"domain": r["domain"], "case": s}
                 for r in results.values() for s in r["sample"][:2]][:40],
        exhaustive=bool(exhaustive),
        explanation="states = distinct inputs/histories/implementation states visited; "
                    "transitions = calls made on the real code and compared with the reference "
                    "model; traces = complete executions compared end to end",
        domains=[dict(domain=r["domain"], bound=r["bound"], cases=r["cases"], states=r["states"],
                      calls=r["calls"], traces=r["traces"], schedules=r["schedules"],
                      distinct_outcomes=len(r["outcomes"]), cpu_s=round(r["secs"], 2),
                      slowest_case_s=round(r["slowest"], 3))
                 for r in results.values()],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=assumptions, wall_s=round(wall, 3), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
