#!/usr/bin/env python3
"""mutate.py OUT [FILES...]: every single-point mutant of the library (comparisons, conditions, constants, removed statements, dropped
copies, shortened loops, ...) in a scratch copy of /repo. Those that pass the stable tests are put to one shard in MUTATE_OF of every quick check until one reports
a violation. OUT gets one JSON line per mutant; survivors are to be read: equivalent, missed by the shard, or missed."""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "/repo/spine_json_lib"
ORDER = ("C12 C24 C01 C13 C21 C16 C18 C15 C10 C02 C20 C09 C06 C19 C17 C08 C04 C07 C11 C03 C14 C05").split()
LAST = ("C22 C23 C25").split()
OF, THREADS = int(os.environ.get("MUTATE_OF", 151)), int(os.environ.get("MUTATE_THREADS", 8))
FULL = ("C12",)


def mutants(tree):
    """(description, line, mutated tree) of every mutant; trees are copies."""
    nodes = [n for n in ast.walk(tree)]
    doc = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(id(n.value))
            doc.add(id(n))
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            doc.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "TypeVar"):
            doc.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.AnnAssign):
            doc.update(id(m) for m in ast.walk(n.annotation))
        if isinstance(n, (ast.FunctionDef,)):
            for a in n.args.args:
                if a.annotation is not None:
                    doc.update(id(m) for m in ast.walk(a.annotation))
            if n.returns is not None:
                doc.update(id(m) for m in ast.walk(n.returns))
    found = []
    for i, n in enumerate(nodes):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            swaps = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
                     ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for s in swaps.get(type(n.ops[0]), []):
                found.append((i, "compare %s" % s.__name__, lambda m, s=s: setattr(m, "ops", [s()])))
        if isinstance(n, ast.BoolOp):
            found.append((i, "and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
            for k in range(len(n.values)):
                found.append((i, "drop operand %d" % k, lambda m, k=k: m.values.pop(k)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            found.append((i, "drop not", lambda m: setattr(m, "op", ast.UAdd()) if False else setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                found.append((i, "condition true", lambda m: setattr(m, "test", ast.Constant(True))))
            found.append((i, "condition false", lambda m: setattr(m, "test", ast.Constant(False))))
        if isinstance(n, ast.Constant):
            v = n.value
            new = []
            if v is True or v is False:
                new = [not v]
            elif isinstance(v, (int, float)):
                new = [v + 1, v - 1] if v else [1, -1, None]
            elif isinstance(v, str):
                new = [v + "X"] if v else ["X"]
            for w in new:
                found.append((i, "constant %r -> %r" % (v, w), lambda m, w=w: setattr(m, "value", w)))
        if isinstance(n, ast.BinOp):
            swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}.get(type(n.op))
            if swap:
                found.append((i, "operator %s" % swap.__name__, lambda m, s=swap: setattr(m, "op", s())))
            found.append((i, "left only", ("replace", lambda m: m.left)))
            found.append((i, "right only", ("replace", lambda m: m.right)))
        if isinstance(n, ast.AugAssign):
            found.append((i, "= for augmented", ("replace", lambda m: ast.Assign([m.target], m.value))))
            swap = {ast.Add: ast.Sub, ast.Mult: ast.Div, ast.BitOr: ast.BitAnd, ast.Sub: ast.BitOr}.get(type(n.op))
            if swap:
                found.append((i, "augmented %s" % swap.__name__, lambda m, s=swap: setattr(m, "op", s())))
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if name in ("deepcopy", "sorted", "list", "frozenset", "copy", "set", "tuple", "str", "reversed") and len(n.args) == 1:
                found.append((i, "drop %s" % name, ("replace", lambda m: m.args[0])))
            if name == "deepcopy":
                found.append((i, "shallow copy", lambda m: setattr(m.func, "attr", "copy")))
            for k in range(len(n.keywords)):
                found.append((i, "drop keyword %s" % n.keywords[k].arg, lambda m, k=k: m.keywords.pop(k)))
            if name == "get" and len(n.args) == 2:
                found.append((i, "get without default", lambda m: m.args.pop()))
            if len(n.args) == 2:
                found.append((i, "swap arguments", lambda m: m.args.reverse()))
        if isinstance(n, (ast.For, ast.comprehension)):
            for a, b in ((1, None), (None, -1)):
                found.append((i, "shorten loop %s:%s" % (a, b), lambda m, a=a, b=b: setattr(m, "iter", ast.Subscript(
                    ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(
                        ast.Constant(a) if a else None, ast.Constant(b) if b else None), ast.Load()))))
            found.append((i, "reverse loop", lambda m: setattr(m, "iter", ast.Subscript(
                ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(None, None, ast.Constant(-1)), ast.Load()))))
        if isinstance(n, ast.comprehension):
            for k in range(len(n.ifs)):
                found.append((i, "drop filter %d" % k, lambda m, k=k: m.ifs.pop(k)))
        if isinstance(n, ast.For):
            found.append((i, "break after first", lambda m: m.body.append(ast.Break())))
        if isinstance(n, ast.Dict) and n.keys:
            for k in range(len(n.keys)):
                found.append((i, "drop entry %d" % k, lambda m, k=k: (m.keys.pop(k), m.values.pop(k))))
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and n.elts and not isinstance(n, ast.Tuple):
            for k in range(len(n.elts)):
                found.append((i, "drop element %d" % k, lambda m, k=k: m.elts.pop(k)))
        if isinstance(n, ast.Return) and n.value is not None:
            found.append((i, "return None", lambda m: setattr(m, "value", ast.Constant(None))))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Delete, ast.AnnAssign)):
            found.append((i, "drop statement", ("replace", lambda m: ast.Pass())))
        if isinstance(n, ast.Raise):
            pass
        if isinstance(n, ast.Attribute) and n.attr == "skin_name":
            pass
    for n_i, n in enumerate(nodes):
        if isinstance(n, ast.Raise):
            found.append((n_i, "drop raise", ("replace", lambda m: ast.Pass())))
    for i, what, change in found:
        line = getattr(nodes[i], "lineno", None) or getattr(getattr(nodes[i], "iter", None), "lineno", 0)
        t = copy.deepcopy(tree)
        target = [m for m in ast.walk(t)][i]
        if isinstance(change, tuple):
            new = change[1](target)

            class R(ast.NodeTransformer):
                def visit(self, node):
                    return new if node is target else super().visit(node)
            t = R().visit(t)
        else:
            change(target)
        yield what, line, ast.fix_missing_locations(t)


def sh(cmd, cwd, timeout, **env):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, ""


def sampled(repo, tmp):
    """The first check of which one case in OF reports a violation."""
    for c in ORDER + LAST:
        path = os.path.join(tmp, "out")
        rc, text = sh([sys.executable, "-B", os.path.join(ROOT, "check.py"), c, "--worker", "1", "--of", str(3 if c in FULL else OF),
                       "--out", path], ROOT, 900, SPINE_REPO=repo, PYTHONHASHSEED="1")
        if rc != 0:
            return "error of %s: %s" % (c, text[-300:])
        if json.load(open(path))["violations"]:
            return c
    return None


def main():
    out = sys.argv[1]
    files = sys.argv[2:] or [os.path.relpath(os.path.join(d, f), PKG) for d, _, fs in os.walk(PKG) for f in fs
                             if f.endswith(".py") and "test" not in d and f != "__init__.py"]
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(x)["key"]) for x in open(out)}
    scratch = tempfile.mkdtemp(prefix="mutate-")
    base = os.path.join(scratch, "base")
    shutil.copytree("/repo", base, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    todo = []
    for f in sorted(files):
        text = open(os.path.join(PKG, f)).read()
        tree = ast.parse(text)
        plain = ast.unparse(tree)
        for k, (what, line, t) in enumerate(mutants(tree)):
            key = (f, k, what, line)
            try:
                new = ast.unparse(t)
                compile(new, f, "exec")
            except Exception:
                continue
            if new != plain and key not in done:
                todo.append((key, f, new))
    print(len(todo), "mutants", flush=True)

    def tested(item):
        key, f, new = item
        copy_ = tempfile.mkdtemp(dir=scratch)
        try:
            shutil.copytree(base, os.path.join(copy_, "r"), symlinks=True)
            with open(os.path.join(copy_, "r", "spine_json_lib", f), "w") as h:
                h.write(new)
            rc, _ = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], os.path.join(copy_, "r"), 120)
            return rc == 0, sampled(os.path.join(copy_, "r"), copy_) if rc == 0 else None
        finally:
            shutil.rmtree(copy_)
    try:
        with ThreadPoolExecutor(THREADS) as pool, open(out, "a") as log:
            for (key, f, new), (passes, verdict) in zip(todo, pool.map(tested, todo)):
                log.write(json.dumps({"key": key, "tests": passes, "verdict": verdict}) + "\n")
                log.flush()
                if passes and (verdict is None or verdict.startswith("error")):
                    print("SURVIVES", key, verdict or "", flush=True)
    finally:
        shutil.rmtree(scratch)


if __name__ == "__main__":
    main()
