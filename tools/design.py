"""Writes the per-property table of DESIGN.md (between the markers) from the registry and the modules."""
import importlib
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
sys.path[:0] = [HERE, TOP]
from mc import choice, engine
choice.install()
sys.path.insert(0, "/repo")
from registry import R

out = []
for r in R:
    m = importlib.import_module("mc.props." + r["id"].lower())
    q = {d.name: d.bound for d in engine.domains(m, "quick")}
    th = {d.name: d.bound for d in engine.domains(m, "thorough")}
    out.append("### %s %s\n" % (r["id"], r["title"]))
    out.append("%s. Anchored in %s.\n" % (r["how"][:1].upper() + r["how"][1:], ", ".join("`%s`" % f for f in r["files"])))
    for n, b in q.items():
        line = "- *%s*: %s" % (n, b or "every listed case")
        if th.get(n) and th[n] != b:
            line += " (thorough: %s)" % th[n]
        out.append(line)
    for n in th:
        if n not in q:
            out.append("- *%s* (thorough only): %s" % (n, th[n]))
    out.append("")
    if m.ASSUMPTIONS:
        out.append("Assumes: " + "; ".join(m.ASSUMPTIONS) + ".\n")
text = "\n".join(out)
path = os.path.join(TOP, "DESIGN.md")
s = open(path).read()
s = re.sub(r"(<!-- table -->\n).*?(<!-- end -->)", lambda mm: mm.group(1) + "\n" + text + "\n" + mm.group(2), s, flags=re.S)
open(path, "w").write(s)
