"""Command line: python -m mc.main PROPERTY [--tier smoke|quick|thorough] [--replay FILE] [--domain NAME]"""

import argparse
import importlib
import itertools
import json
import os
import signal
import sys
import time

from mc import engine


def load(prop):
    # The controlled source of randomness has to be in place before the code
    # under test is imported.
    from mc import choice
    choice.install()
    sys.path.insert(0, engine.REPO)
    return importlib.import_module("mc.props." + prop.lower())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--domain", action="append")
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    if a.tier != "thorough":    # no case of the other tiers takes a tenth of this
        engine.CASE_TIMEOUT = min(engine.CASE_TIMEOUT, 120)
    mod = load(a.property)
    doms = engine.domains(mod, a.tier)
    names = [d.name for d in doms]
    assert len(set(names)) == len(names), names
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        signal.signal(signal.SIGALRM, engine._alarm)
        dom = [d for d in engine.domains(mod, rec["tier"]) if d.name == rec["domain"]][0]
        try:
            case = engine.uncanon(rec["case"])
        except ValueError:          # no literal form: the case is found again by its position
            case = next(itertools.islice(dom.cases(), rec["index"], None))
        r = engine.run_case(dom, case, engine.Tracker())
        print("case: %s" % engine.shown(case))
        if r is None:
            print("held")
            return 0
        print("%s: %s" % r)
        print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
        return 1
    if a.domain:
        doms = [d for d in doms if d.name in a.domain]
    results, viols, hits, complete = engine.explore(a.property, a.tier, doms)
    wall = time.time() - t0
    for key, what in hits:
        print("KNOWN-FINDING: property=%s %s" % (a.property, what))
    for v in viols[:8]:
        path = engine.write_replay(a.property, a.tier, v)
        print("  [%s] %s: %s" % (v[0], v[2], v[3]))
        print("    case: %s" % engine.shown(v[1]))
        print("VIOLATION property=%s replay=%s" % (a.property, path))
    if not a.domain and a.tier != "smoke":
        engine.write_evidence(a.property, a.tier, seed, results, len(viols), wall,
                              getattr(mod, "ASSUMPTIONS", []), complete and not viols)
    tot = {k: sum(r[k] for r in results.values()) for k in ("cases", "states", "calls", "traces")}
    if a.stats:
        for r in results.values():
            print("  %-34s cases=%-8d states=%-8d calls=%-9d outcomes=%-7d cpu=%.1fs slowest=%.2fs of %gs"
                  % (r["domain"], r["cases"], r["states"], r["calls"], len(r["outcomes"]), r["secs"],
                     r["slowest"], {d.name: d.timeout for d in doms}[r["domain"]]))
    vac = [r["domain"] for r in results.values() if r["cases"] == 0 and not viols]
    if vac:
        raise RuntimeError("empty domains: %r" % vac)
    print("%s tier=%s %s wall=%.1fs states=%d transitions=%d traces=%d"
          % (a.property, a.tier, "VIOLATED" if viols else "held on everything explored",
             wall, tot["states"], tot["calls"], tot["traces"]))
    return 1 if viols else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
