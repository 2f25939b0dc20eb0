"""Mutation experiment: python tools/mutate.py OUT.jsonl [--max N] [--coarse|--precise] (FILE[:func] ... | --retry OLD.jsonl)   (files relative to /repo)

Applies one small syntactic change at a time to a scratch copy of /repo, runs the quick checks of the properties
anchored in that file (one worker, first violation stops), and records which mutants survive.  For finding weak spots
of the checks by hand; no check depends on it.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from multiprocessing.pool import ThreadPool

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from registry import R

WORK = os.environ.get("MUT_DIR", "/tmp/mut")
SLOTS = int(os.environ.get("MUT_SLOTS", "8"))
PROPS = {}
for r in R:
    if r["id"] != "P40":
        for f in r["files"]:
            PROPS.setdefault(f, []).append(r["id"])


def is_doc(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)


def sites(tree):
    """[(description, function(tree copy node))] addressed by preorder index."""
    out = []
    for i, node in enumerate(ast.walk(tree)):
        line = getattr(node, "lineno", 0)
        if isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                swap = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
                        ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
                for new in swap.get(type(op), []):
                    out.append((i, line, "cmp%d %s->%s" % (k, type(op).__name__, new.__name__), ("cmp", k, new)))
        elif isinstance(node, (ast.BinOp, ast.AugAssign)):
            swap = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv],
                    ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr],
                    ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.Div: [ast.Mult]}
            for new in swap.get(type(node.op), []):
                out.append((i, line, "op %s->%s" % (type(node.op).__name__, new.__name__), ("op", new)))
        elif isinstance(node, ast.Constant) and type(node.value) is int and 0 <= node.value <= 64:
            out.append((i, line, "const %d->%d" % (node.value, node.value + 1), ("const", node.value + 1)))
            out.append((i, line, "const %d->%d" % (node.value, node.value - 1), ("const", node.value - 1)))
        elif isinstance(node, ast.Constant) and type(node.value) is bool:
            out.append((i, line, "const %r" % (not node.value), ("const", not node.value)))
        elif isinstance(node, ast.BoolOp):
            out.append((i, line, "boolop", ("boolop",)))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            out.append((i, line, "drop unary", ("unary",)))
        elif isinstance(node, (ast.If, ast.While)):
            if isinstance(node, ast.If):
                out.append((i, line, "if True", ("test", True)))
            out.append((i, line, "test False", ("test", False)))
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) and not is_doc(node):
            pass
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Delete)) and not is_doc(node):
            out.append((i, line, "delete %s" % type(node).__name__, ("delete",)))
    return out


def sites2(tree):
    """Coarser slips: dropped conditions, dropped copies, wrong names, swapped arguments and statements."""
    out = []
    inside = {}
    names = {}
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            bound = sorted({n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                           | {a.arg for a in f.args.args if a.arg != "self"})
            for n in ast.walk(f):
                inside[id(n)] = f
            names[id(f)] = bound
    R = random.Random(11)
    calls = {id(n.func) for n in ast.walk(tree) if isinstance(n, ast.Call)}
    for i, node in enumerate(ast.walk(tree)):
        line = getattr(node, "lineno", 0)
        if isinstance(node, ast.BoolOp):
            for k in range(len(node.values)):
                out.append((i, line, "drop operand %d" % k, ("operand", k)))
        elif isinstance(node, ast.Call):
            if isinstance(node.func, ast.Name) and node.func.id in ("list", "set", "sorted", "dict", "tuple", "frozenset", "abs", "int", "float") \
                    and len(node.args) == 1:
                out.append((i, line, "unwrap " + node.func.id, ("unwrap",)))
            if isinstance(node.func, ast.Name) and node.func.id in ("min", "max", "any", "all"):
                out.append((i, line, "other " + node.func.id, ("other",)))
            if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "items", "values", "keys"):
                out.append((i, line, "drop ." + node.func.attr, ("dropcall",)))
            for k in range(len(node.args) - 1):
                out.append((i, line, "swap args %d" % k, ("args", k)))
            if len(node.args) > 1 or node.keywords:
                out.append((i, line, "drop last arg", ("lastarg",)))
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) and isinstance(node.ctx, ast.Load):
            out.append((i, line, "drop slice", ("unslice",)))
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and id(node) in inside and id(node) not in calls:
            other = [x for x in names[id(inside[id(node)])] if x != node.id]
            if other:
                x = R.choice(other)
                out.append((i, line, "name %s->%s" % (node.id, x), ("name", x)))
        for field in ("body", "orelse"):
            b = getattr(node, field, None)
            if isinstance(b, list):
                for k in range(len(b) - 1):
                    if not is_doc(b[k]) and not isinstance(b[k], (ast.FunctionDef, ast.ClassDef)) \
                            and not isinstance(b[k + 1], (ast.FunctionDef, ast.ClassDef, ast.Return)) and not isinstance(node, ast.Module):
                        out.append((i, b[k].lineno, "swap %s %d" % (field, k), ("stmts", field, k)))
                if field == "orelse" and b and isinstance(node, (ast.If, ast.For, ast.While)):
                    out.append((i, line, "drop else", ("else",)))
    return out


def sites3(tree):
    """Slips of precision and of large constants."""
    out = []
    for i, node in enumerate(ast.walk(tree)):
        line = getattr(node, "lineno", 0)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("integer_sqrt", "integer_nth_root", "integer_log"):
            out.append((i, line, "float " + node.func.id, ("float",)))
        elif isinstance(node, (ast.BinOp, ast.AugAssign)) and isinstance(node.op, ast.FloorDiv):
            if isinstance(node, ast.BinOp):
                out.append((i, line, "int(/)", ("truediv",)))
        elif isinstance(node, ast.Constant) and type(node.value) is int and node.value > 64:
            for v in (node.value - 1, node.value + 1, node.value // 2, node.value * 2):
                out.append((i, line, "const %d->%d" % (node.value, v), ("const", v)))
        elif isinstance(node, ast.Constant) and type(node.value) is float:
            for v in (node.value * 0.9, node.value * 1.1):
                out.append((i, line, "const %r->%r" % (node.value, v), ("const", v)))
    return out


def apply(tree, i, how):
    t = copy.deepcopy(tree)
    nodes = list(ast.walk(t))
    n = nodes[i]
    k = how[0]
    repl = None
    if k == "operand":
        del n.values[how[1]]
        if len(n.values) == 1:
            repl = n.values[0]
    elif k == "float":
        a = [ast.unparse(x) for x in n.args]
        repl = ast.parse({"integer_sqrt": "int((%s)**0.5)", "integer_nth_root": "int((%s)**(1.0/(%s)))",
                          "integer_log": "int(__import__('math').log(%s)/__import__('math').log(%s))"}[n.func.id]
                         % tuple(a if len(a) == 1 else a[::-1]), mode="eval").body
    elif k == "truediv":
        repl = ast.parse("int((%s) / (%s))" % (ast.unparse(n.left), ast.unparse(n.right)), mode="eval").body
    elif k == "unwrap":
        repl = n.args[0]
    elif k == "dropcall":
        repl = n.func.value
    elif k == "unslice":
        repl = n.value
    elif k == "other":
        n.func.id = {"min": "max", "max": "min", "any": "all", "all": "any"}[n.func.id]
    elif k == "args":
        n.args[how[1]], n.args[how[1] + 1] = n.args[how[1] + 1], n.args[how[1]]
    elif k == "lastarg":
        (n.keywords or n.args).pop()
    elif k == "name":
        n.id = how[1]
    elif k == "stmts":
        b = getattr(n, how[1])
        b[how[2]], b[how[2] + 1] = b[how[2] + 1], b[how[2]]
    elif k == "else":
        n.orelse = []
    if repl is not None:
        for p in nodes:
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, repl)
                elif isinstance(v, list):
                    for j, x in enumerate(v):
                        if x is n:
                            v[j] = repl
    if k == "cmp":
        n.ops[how[1]] = how[2]()
    elif k == "op":
        n.op = how[1]()
    elif k == "const":
        n.value = how[1]
    elif k == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == "test":
        n.test = ast.Constant(how[1])
    elif k in ("unary", "delete"):
        for p in nodes:
            for f, v in ast.iter_fields(p):
                if v is n and k == "unary":
                    setattr(p, f, n.operand)
                elif isinstance(v, list):
                    for j, x in enumerate(v):
                        if x is n:
                            v[j] = n.operand if k == "unary" else ast.Pass()
    ast.fix_missing_locations(t)
    return ast.unparse(t)


def main():
    args = sys.argv[1:]
    out = args.pop(0)
    mx = 10**9
    if args[0] == "--max":
        mx = int(args[1])
        args = args[2:]
    find = sites
    if args[0] == "--coarse":
        find = sites2
        args = args[1:]
    if args[0] == "--precise":
        find = sites3
        args = args[1:]
    jobs = []
    retry = None
    if args[0] == "--retry":        # only the survivors of an earlier run (files: all they name)
        retry = {(d["file"], d["node"], d["desc"]) for d in map(json.loads, open(args[1])) if not d["killed"]}
        args = sorted({k[0] for k in retry})
    for a in args:
        f, _, only = a.partition(":")
        src = open("/repo/" + f).read()
        tree = ast.parse(src)
        funcs = []
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                funcs.append((n.lineno, n.end_lineno, n.name))
        ss = find(tree)
        ss = [s for s in ss if any(lo <= s[1] <= hi and (not only or nm == only) for lo, hi, nm in funcs)]
        random.Random(5).shuffle(ss)
        if retry is not None:
            ss = [s for s in ss if (f, s[0], s[2]) in retry]
        for i, line, desc, how in ss[:mx]:
            jobs.append((f, tree, i, line, desc, how))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["node"], d["desc"]))
    jobs = [j for j in jobs if (j[0], j[2], j[4]) not in done]
    random.Random(3).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    free = []
    for s in range(SLOTS):
        d = "%s/slot%d" % (WORK, s)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(WORK, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", d])
        free.append(d)
    verif = WORK + "/verif"
    shutil.rmtree(verif, ignore_errors=True)
    subprocess.check_call(["cp", "-a", TOP, verif])

    def run(job):
        f, tree, i, line, desc, how = job
        d = free.pop()
        path = os.path.join(d, f)
        orig = open("/repo/" + f).read()
        res = None
        try:
            open(path, "w").write(apply(tree, i, how))
            for p in PROPS[f]:
                env = dict(os.environ, ROSEMARY_REPO=d, MC_WORKERS="1", MC_FAIL_FAST="1", MC_CASE_TIMEOUT="60")
                try:
                    r = subprocess.run(["timeout", "-k", "5", "500", "./run.sh", p, "--tier", os.environ.get("MUT_TIER", "smoke")], cwd=verif, env=env, capture_output=True,
                                       text=True, timeout=600)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 124
                res = (p, rc, [l for l in r.stdout.splitlines() if l.startswith("  [")][:1])
                if rc == 1 and "VIOLATION" in r.stdout:
                    break
        finally:
            open(path, "w").write(orig)
            free.append(d)
        with open(out, "a") as g:
            g.write(json.dumps(dict(file=f, node=i, line=line, desc=desc, killed=res[1] == 1, rc=res[1], prop=res[0], why=res[2])) + "\n")

    with ThreadPool(SLOTS) as pool:
        for _ in pool.imap_unordered(run, jobs):
            pass


if __name__ == "__main__":
    main()
