"""Development aid: systematic single-site mutants of effector, each run against the checks of the files concerned until one
reports a violation.  mutate.py OUT.jsonl [--files a.py,b.py] [--every K] [--offset I] ; resumes from OUT.jsonl.
Copies live under /tmp; /repo is never touched."""
import argparse
import ast
import json
import os
import shutil
import subprocess
import sys
import time

REPO = "/repo"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "bin_splitting.py": "C06 C07 C03 C17 C02 C22 C16 C15 C09 C12",
    "binning_methods.py": "C06 C22 C07 C03 C02 C16",
    "global_effect.py": "C01 C02 C05 C10 C22 C08 C09 C15 C17",
    "global_effect_ale.py": "C02 C03 C05 C10 C23 C17 C22 C08 C09 C15 C13 C19",
    "global_effect_pdp.py": "C01 C05 C10 C23 C17 C22 C08 C09 C15 C20 C13 C19 C16",
    "global_effect_shap.py": "C04 C05 C10 C23 C17 C22 C08 C09 C15 C13",
    "helpers.py": "C01 C02 C05 C10 C22 C17 C09 C15 C08 C12",
    "interaction.py": "C20 C22 C23 C16 C15 C09",
    "partitioning.py": "C21 C11 C18 C12 C22 C13 C14 C16 C15",
    "regional_effect.py": "C11 C18 C13 C12 C22 C14 C09 C15 C17 C23 C16",
    "regional_effect_ale.py": "C11 C12 C13 C22 C14 C18 C23 C09 C15 C17 C19",
    "regional_effect_pdp.py": "C11 C12 C13 C22 C14 C18 C23 C09 C15 C17 C19",
    "regional_effect_shap.py": "C11 C12 C13 C22 C14 C18 C23 C09 C15 C17",
    "utils.py": "C26 C02 C03 C01 C05 C06 C11 C12 C15 C16 C22 C23",
    "utils_integrate.py": "C05 C02",
    "visualization.py": "C17 C15 C08 C13",
}
CMP = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "NotEq": "==", "Is": "is not", "IsNot": "is", "In": "not in", "NotIn": "in"}
BIN = {"Add": "-", "Sub": "+", "Mult": "/", "Div": "*", "Pow": "*", "Mod": "+"}
SWAP = {"min": "max", "max": "min", "mean": "median", "std": "var", "var": "std", "argmin": "argmax", "argmax": "argmin",
        "logical_and": "logical_or", "logical_or": "logical_and", "any": "all", "all": "any", "sum": "mean", "floor": "ceil",
        "deepcopy": "copy", "zeros": "ones", "ones": "zeros", "append": "extend", "minimum": "maximum", "square": "abs"}


def mutants(src):
    """(start, end, replacement, label) over the source text"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = pos(n)
        return b[s:e].decode()

    docs, annots = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
        if isinstance(n, ast.arg) and n.annotation is not None:
            annots.update(id(m) for m in ast.walk(n.annotation))
        if isinstance(n, ast.AnnAssign):
            annots.update(id(m) for m in ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            annots.update(id(m) for m in ast.walk(n.returns))
    out = []

    def add(n, rep, label):
        s, e = pos(n)
        out.append((s, e, rep, label, n.lineno))

    for n in ast.walk(tree):
        if id(n) in annots:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0]).__name__
            add(n, "%s %s %s" % (text(n.left), CMP[o], text(n.comparators[0])), "cmp " + CMP[o])
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            add(n, "(%s %s %s)" % (text(n.left), BIN[type(n.op).__name__], text(n.right)), "bin " + BIN[type(n.op).__name__])
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                add(n, text(n.left), "left only")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, text(n.operand), "drop not")
        elif isinstance(n, ast.BoolOp):
            add(n, (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % text(v) for v in n.values), "and/or")
            add(n, text(n.values[0]), "first operand")
            add(n, text(n.values[-1]), "last operand")
        elif isinstance(n, ast.Constant) and not isinstance(getattr(n, "parent", None), ast.Expr):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "flip")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "+1")
                if n.value > 0:
                    add(n, str(n.value - 1), "-1")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 2 + (n.value == 0)), "*2")
        elif isinstance(n, ast.IfExp):
            add(n, "%s if %s else %s" % (text(n.orelse), text(n.test), text(n.body)), "swap branches")
        elif isinstance(n, ast.If):
            add(n.test, "not (%s)" % text(n.test), "negate if")
        elif isinstance(n, (ast.Assert,)):
            add(n, "pass", "drop assert")
        elif isinstance(n, ast.Expr) and n not in docs:
            add(n, "pass", "drop call")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if not isinstance(t, ast.Name) or isinstance(n, ast.AugAssign):
                add(n, "pass", "drop assign")
            elif isinstance(t, ast.Name) and any(isinstance(m, ast.Name) and m.id == t.id for m in ast.walk(n.value)):
                add(n, "pass", "drop reassign")
        elif isinstance(n, ast.Break):
            add(n, "pass", "drop break")
        elif isinstance(n, ast.Continue):
            add(n, "pass", "drop continue")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is None:
                    continue
                s, e = starts[k.lineno - 1] + k.col_offset, pos(k.value)[1]
                rest = b[e:].lstrip()
                e2 = e + (len(b[e:]) - len(rest)) + 1 if rest.startswith(b",") else e
                out.append((s, e2, "", "drop keyword " + k.arg, k.lineno))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                s, e = pos(n.args[0])[0], pos(n.args[1])[1]
                out.append((s, e, "%s, %s" % (text(n.args[1]), text(n.args[0])), "swap args", n.lineno))
            if isinstance(n.func, ast.Attribute) and n.func.attr in SWAP:
                add(n.func, text(n.func.value) + "." + SWAP[n.func.attr], "call " + SWAP[n.func.attr])
            elif isinstance(n.func, ast.Name) and n.func.id in SWAP:
                add(n.func, SWAP[n.func.id], "call " + SWAP[n.func.id])
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("deepcopy", "copy") and len(n.args) == 1:
                add(n, text(n.args[0]), "no copy")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 \
                and text(n.slice.elts[0]) != text(n.slice.elts[1]):
            add(n, "%s[%s, %s]" % (text(n.value), text(n.slice.elts[1]), text(n.slice.elts[0])), "swap index")
    seen, res = set(), []
    for s, e, rep, label, line in sorted(out, key=lambda m: (m[0], m[1], m[2])):
        new = (b[:s] + rep.encode() + b[e:]).decode()
        if new == src or new in seen:
            continue
        try:
            if ast.dump(ast.parse(new)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        seen.add(new)
        res.append((line, label, b[s:e].decode(), rep, new))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=",".join(CHECKS))
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)["key"] for l in open(a.out)}
    stats = {}
    work = []
    for f in a.files.split(","):
        src = open(os.path.join(REPO, "effector", f), newline="").read()
        ms = mutants(src)
        if a.count:
            print(f, len(ms))
        work += [(f,) + m for i, m in enumerate(ms) if i % a.every == a.offset % a.every]
    if a.count:
        print(len(work))
        return
    tmp = "/tmp/mut.%d" % os.getpid()
    for f, line, label, old, rep, new in work:
        key = "%s:%d:%s:%s->%s" % (f, line, label, old[:60], rep[:60])
        if key in done:
            continue
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copytree(os.path.join(REPO, "effector"), os.path.join(tmp, "effector"), ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(tmp, "effector", f), "w", newline="").write(new)
        order = sorted(CHECKS[f].split(), key=lambda c: -stats.get((f, c), (1, 30))[0] / stats.get((f, c), (1, 30))[1])
        killed, t0, tried = None, time.time(), []
        for c in order:
            t = time.time()
            try:
                p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", os.path.join(ROOT, "mc", "run.py"), c], cwd=ROOT,
                                   env=dict(os.environ, MC_REPO=tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900, text=True)
                rc, tail = p.returncode, p.stdout[-300:]
            except subprocess.TimeoutExpired:
                rc, tail = -1, "timeout"
            k, s = stats.get((f, c), (1, 30))
            hit = rc != 0
            stats[(f, c)] = (k + hit, s + time.time() - t)
            tried.append("%s:%d" % (c, rc))
            if hit:
                killed = c
                break
        json.dump({"key": key, "killed": killed, "tried": tried, "s": round(time.time() - t0), "tail": tail if killed and rc != 1 else ""},
                  open(a.out, "a"))
        open(a.out, "a").write("\n")
    shutil.rmtree(tmp, ignore_errors=True)


main()
