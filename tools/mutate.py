"""Mutation sampling: apply small changes to the files of a property in a copy of /repo, run its check.
usage: mutate.py PROP... [-n N] [-s SEED] [-j JOBS] [-o OUT]
A development aid; no registered check uses it."""
import ast
import argparse
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def sub(n, new, what):
        i, j = pos(n)
        out.append((i, j, new, "%d: %s -> %s" % (n.lineno, b[i:j].decode()[:50].replace("\n", " "), new[:60].replace("\n", " "))))

    def seg(n):
        i, j = pos(n)
        return b[i:j].decode()

    def walk(n, infun):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None:
                    walk(d, True)
            for s in n.body:
                walk(s, True)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                walk(n.value, infun)
            return
        if infun:
            if isinstance(n, ast.BinOp):
                l, r = seg(n.left), seg(n.right)
                alt = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "%", ast.Mod: "//", ast.Pow: "*"}.get(type(n.op))
                if alt and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not isinstance(n.left, ast.JoinedStr):
                    sub(n, "((%s) %s (%s))" % (l, alt, r), "op")
                    if isinstance(n.op, (ast.Sub, ast.Div)):
                        sub(n, "((%s) %s (%s))" % (r, {ast.Sub: "-", ast.Div: "/"}[type(n.op)], l), "swap")
                    if isinstance(n.op, (ast.Add, ast.Mult)):
                        sub(n, "(%s)" % l, "drop")
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                alt = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}.get(type(n.ops[0]))
                if alt:
                    sub(n, "(%s %s %s)" % (seg(n.left), alt, seg(n.comparators[0])), "cmp")
            if isinstance(n, ast.BoolOp):
                sub(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % seg(v) for v in n.values) + ")", "bool")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                sub(n, "(%s)" % seg(n.operand), "unary")
            if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not ...:
                if isinstance(n.value, bool):
                    sub(n, str(not n.value), "const")
                elif isinstance(n.value, int):
                    sub(n, str(n.value + 1), "const")
                    if n.value > 0:
                        sub(n, str(n.value - 1), "const")
                elif isinstance(n.value, float):
                    sub(n, repr(n.value * 2 if n.value else 1.0), "const")
            if isinstance(n, ast.Call):
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                    i, j = pos(n.args[0])[0], pos(n.args[1])[1]
                    k0, k1 = pos(n.args[0])[1], pos(n.args[1])[0]
                    out.append((i, j, seg(n.args[1]) + b[k0:k1].decode() + seg(n.args[0]), "%d: swap args of %s" % (n.lineno, seg(n.func)[-40:])))
                if isinstance(n.func, ast.Attribute) and len(n.args) <= 1 and not n.keywords and n.func.attr in ("clamp", "round", "abs", "detach", "clone", "contiguous", "eval", "exp", "log", "float", "long", "int", "sqrt", "relu", "sum", "mean", "floor", "ceil", "flip", "t"):
                    if not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("torch", "F", "np", "jnp", "math")):
                        sub(n, seg(n.func.value), "drop method")
            if isinstance(n, (ast.If, ast.IfExp)):
                sub(n.test, "(not (%s))" % seg(n.test), "negate")
            if isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                if "super" not in seg(n) and "warn" not in seg(n):
                    sub(n, "pass", "del")
        for c in ast.iter_child_nodes(n):
            walk(c, infun)

    walk(tree, False)
    good = []
    for i, j, new, d in out:
        s = (b[:i] + new.encode() + b[j:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        good.append((s, d))
    return good


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="+")
    ap.add_argument("-n", type=int, default=12)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-j", type=int, default=2)
    ap.add_argument("-o", default="/tmp/w/mut/results.txt")
    a = ap.parse_args()
    props = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        props[d["id"]] = d
    work = []
    for p in a.props:
        rnd = random.Random("%s-%d" % (p, a.s))
        files = props[p]["anchors"]["files"]
        pool = []
        for f in files:
            full = os.path.join("/repo", f)
            fs = [full] if full.endswith(".py") else [os.path.join(full, x) for x in sorted(os.listdir(full)) if x.endswith(".py")]
            for g in fs:
                pool += [(os.path.relpath(g, "/repo"), s, d) for s, d in mutants(open(g).read())]
        rnd.shuffle(pool)
        work += [(p,) + m for m in pool[:a.n]]
        print(p, len(files), "files", len(pool), "mutants", flush=True)
    dirs = []
    for k in range(a.j):
        d = "/tmp/w/mut/r%d-%d" % (os.getpid(), k)
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        dirs.append(d)

    def one(w):
        p, f, s, desc = w
        d = dirs.pop()
        try:
            orig = open(os.path.join(d, f)).read()
            open(os.path.join(d, f), "w").write(s)
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "-ev")
            try:
                r = subprocess.run([os.path.join(HERE, "check"), p, "quick"], env=env, capture_output=True, text=True, timeout=700)
                rc, last = r.returncode, [l for l in r.stdout.splitlines() if l.startswith("violated") or l.startswith("INCONC")][:1]
            except subprocess.TimeoutExpired:
                rc, last = "timeout", []
            open(os.path.join(d, f), "w").write(orig)
        finally:
            dirs.append(d)
        line = "%s rc=%s %s %s %s" % (p, rc, os.path.basename(f), desc, last[0][:80] if last else "")
        print(line, flush=True)
        with open(a.o, "a") as g:
            g.write(line + "\n")

    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(one, work))
    for d in list(dirs):
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + "-ev", ignore_errors=True)


main()
