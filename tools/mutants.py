#!/usr/bin/env python3
"""Mutation sweep (run by hand): small changes to parce that pass its tests, run against the checks.

usage: mutants.py OUT.jsonl FILE=N=P01,P02 ...      (FILE relative to the package, N mutants, checks in order)
       options: SEED=n JOBS=n
Works on scratch copies under /tmp only.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def candidates(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()
    docs = set()
    infunc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
        if isinstance(n, ast.FunctionDef):
            for m in ast.walk(n):
                infunc.add(m)
    out = []
    swaps = []

    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for x, y in zip(f.body, f.body[1:]):
                if all(isinstance(z, ast.Expr) and isinstance(z.value, (ast.Yield, ast.YieldFrom)) for z in (x, y)):
                    swaps.append((x, y))

    def add(n, new, kind):
        s, e = span(n)
        out.append((n.lineno, kind, s, e, new))
    for n in ast.walk(tree):
        if n not in infunc or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            add(n, "%s %s %s" % (seg(n.left), CMP[t], seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            other = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + other.join("(%s)" % seg(v) for v in n.values) + ")", "bool")
            this = " and " if isinstance(n.op, ast.And) else " or "
            for i in range(len(n.values)):
                add(n, "(" + this.join("(%s)" % seg(v) for k, v in enumerate(n.values) if k != i) + ")", "clause")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + seg(n.operand) + ")", "not")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, "(%s %s %s)" % (seg(n.left), "-" if isinstance(n.op, ast.Add) else "+", seg(n.right)), "arith")
            add(n, "(%s)" % seg(n.left), "arith0")
        elif isinstance(n, ast.Constant) and type(n.value) is int and n.value < 100:
            add(n, str(n.value + 1), "int+")
            if n.value > 0:
                add(n, str(n.value - 1), "int-")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "bool0")
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            add(n, "yield from ()", "delyield")
        elif isinstance(n, ast.Expr) and not isinstance(n.value, (ast.Yield, ast.YieldFrom, ast.Constant)):
            add(n, "pass", "del")
        elif isinstance(n, ast.AugAssign):
            add(n, "pass", "del")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "del")
        elif isinstance(n, ast.Delete):
            add(n, "pass", "del")
        elif isinstance(n, ast.If):
            add(n.test, "False", "if0")
            add(n.test, "True", "if1")
        elif isinstance(n, ast.While):
            pass
        elif isinstance(n, ast.Break):
            add(n, "pass", "break")
        elif isinstance(n, ast.Continue):
            add(n, "pass", "continue")
        elif isinstance(n, ast.With) and len(n.items) == 1 and "lock" in seg(n.items[0].context_expr):
            add(n.items[0].context_expr, "__import__('contextlib').nullcontext()", "nolock")
        elif isinstance(n, ast.IfExp):
            add(n, seg(n.body), "ifexp1")
            add(n, seg(n.orelse), "ifexp0")
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not isinstance(n.func, ast.Attribute) and seg(n.func) not in ("isinstance", "getattr", "hasattr"):
            add(n, "%s(%s, %s)" % (seg(n.func), seg(n.args[1]), seg(n.args[0])), "swap")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            add(n.func, "max" if n.func.id == "min" else "min", "minmax")
    for x, y in swaps:
        (s, _), (_, e) = span(x), span(y)
        out.append((x.lineno, "swapyield", s, e, seg(y) + b[span(x)[1]:span(y)[0]].decode() + seg(x)))
    return out


def run(f, cand, props, seed):
    ln, kind, s, e, new = cand
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        repo = d + "/repo"
        os.mkdir(repo)
        for x in os.listdir("/repo"):
            if x != ".git":
                (shutil.copytree if os.path.isdir("/repo/" + x) else shutil.copy)("/repo/" + x, repo + "/" + x)
        p = os.path.join(repo, "parce", f)
        b = open(p, "rb").read()
        old = b[s:e].decode()
        b = b[:s] + new.encode() + b[e:]
        try:
            compile(b, p, "exec")
        except SyntaxError:
            return None
        open(p, "wb").write(b)
        rec = {"file": f, "line": ln, "kind": kind, "old": old[:200], "new": new[:200], "seed": seed}
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo, PYTHONHASHSEED="0")
        try:
            r = subprocess.run(["timeout", "100", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo, env=env, capture_output=True, text=True)
        except Exception as ex:
            return None
        if "14 passed" not in r.stdout:
            rec["result"] = "tests"
            return rec
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=str(seed))
        bad = []
        for q in props:
            r = subprocess.run(["timeout", "800", "python3", "run.py", q, "--tier", "quick", "--workers", "3", "--scale", os.environ.get("SCALE", "0.4"), "--outdir", d + "/ev"], cwd=VERIF, env=env, capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION property=" + q in r.stdout:
                rec["result"] = "caught"
                rec["by"] = q
                return rec
            if r.returncode:
                bad.append((q, r.returncode, r.stdout[-300:]))
        rec["result"] = "survived"
        rec["notes"] = bad
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out = sys.argv[1]
    seed, jobs = 1, 3
    work = []
    for a in sys.argv[2:]:
        if a.startswith("SEED="):
            seed = int(a[5:])
        elif a.startswith("JOBS="):
            jobs = int(a[5:])
        else:
            f, n, props = a.split("=")
            c = candidates(open("/repo/parce/" + f).read())
            random.Random("%s %s" % (f, seed)).shuffle(c)
            work += [(f, x, props.split(","), seed) for x in c[:int(n)]]
            print(f, len(c), "candidates", flush=True)
    with ThreadPoolExecutor(jobs) as ex, open(out, "a") as o:
        for fut in as_completed([ex.submit(run, *w) for w in work]):
            rec = fut.result()
            if rec:
                o.write(json.dumps(rec) + "\n")
                o.flush()


main()
