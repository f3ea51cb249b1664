#!/usr/bin/env python3
"""mutate.py FILE [stride [offset]] -- P01 P02 ...: systematic one-point
changes of FILE, each run against the checks given until one catches it.
Prints the survivors. (A tool for finding what the checks miss; no check.)"""
import ast
import copy
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOGS = ("debug", "info", "warning", "error", "notice", "log", "log_debug")


def is_log(node):
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        f = node.value.func
        if isinstance(f, ast.Attribute) and f.attr == "__init__" and \
           len(node.value.args) == 2 and "rror" in ast.dump(f):
            return True
        name = f.attr if isinstance(f, ast.Attribute) else getattr(
            f, "id", "")
        return name in LOGS or name.startswith(("debug", "log_"))
    return False


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def mutants(tree):
    """(line, description, function changing a copy of the tree)"""
    out = []
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if is_log(n) or isinstance(n, ast.Assert):
            skip |= {id(x) for x in ast.walk(n)}
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue

        def add(what, f, i=i, n=n):
            out.append((getattr(n, "lineno", 0), what, i, f))
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                c = CMP.get(type(op))
                if c:
                    def f(x, k=k, c=c):
                        x.ops[k] = c()
                    add("%s -> %s" % (type(op).__name__, c.__name__), f)
        elif isinstance(n, ast.BoolOp):
            def f(x):
                x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            add("and/or", f)
            for k in range(len(n.values)):
                def f(x, k=k):
                    del x.values[k]
                    if len(x.values) == 1:
                        x.values.append(copy.deepcopy(x.values[0]))
                add("drop operand %d" % k, f)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def f(x):
                x.operand = ast.UnaryOp(ast.Not(), x.operand)
            add("drop not", f)
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            def f(x):
                x.value += 1
            add("%d -> %d" % (n.value, n.value + 1), f)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            def f(x):
                x.value = not x.value
            add("not %r" % n.value, f)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add,
                                                            ast.Sub)):
            def f(x):
                x.op = ast.Sub() if isinstance(x.op, ast.Add) else ast.Add()
            add("+/-", f)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in (True, False):
                if isinstance(n, ast.While) and v:
                    continue

                def f(x, v=v):
                    x.test = ast.Constant(v)
                add("condition %r" % v, f)
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if not isinstance(b, list):
                continue
            for k, st in enumerate(b):
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign,
                                   ast.Delete, ast.Raise, ast.Return,
                                   ast.Break, ast.Continue)) and \
                   not isinstance(n, (ast.Module, ast.ClassDef)) and \
                   not is_log(st) and not (
                       isinstance(st, ast.Expr) and
                       isinstance(st.value, ast.Constant)):
                    def f(x, k=k, field=field):
                        getattr(x, field)[k] = ast.Pass()
                    out.append((st.lineno, "delete", i, f))
                if k + 1 < len(b) and not isinstance(
                        n, (ast.Module, ast.ClassDef)) and \
                   isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign)) \
                   and isinstance(b[k + 1], (ast.Expr, ast.Assign,
                                             ast.AugAssign)) and \
                   (isinstance(st, ast.Expr) or
                        isinstance(b[k + 1], ast.Expr)) and \
                   not is_log(st) and not is_log(b[k + 1]):
                    def f(x, k=k, field=field):
                        y = getattr(x, field)
                        y[k], y[k + 1] = y[k + 1], y[k]
                    out.append((st.lineno, "swap with next", i, f))
    return out


def main():
    i = sys.argv.index("--")
    fn = sys.argv[1]
    stride = int(sys.argv[2]) if i > 2 else 1
    offset = int(sys.argv[3]) if i > 3 else 0
    checks = sys.argv[i + 1:]
    src = open(os.path.join("/repo", fn)).read()
    lines = src.splitlines()
    lo = int(os.environ.get("FROM", "0"))
    hi = int(os.environ.get("TO", "1000000"))
    ms = [m for m in sorted(mutants(ast.parse(src)),
                            key=lambda m: (m[0], m[1])) if lo <= m[0] <= hi]
    print("%d mutants, every %d" % (len(ms), stride))
    wt = "/tmp/mutate-wt-%d" % os.getpid()
    shutil.copytree("/repo", wt, ignore=shutil.ignore_patterns(".git"))
    hits = {}
    order = list(checks)
    try:
        for m in ms[offset::stride]:
            line, what, idx, f = m
            tree = ast.parse(src)
            f(list(ast.walk(tree))[idx])
            ast.fix_missing_locations(tree)
            try:
                new = ast.unparse(tree)
            except Exception:
                continue
            head = "#!/usr/bin/env python3\n" if src.startswith("#!") else ""
            with open(os.path.join(wt, fn), "w") as fh:
                fh.write(head + new + "\n")
            t = time.time()
            by = None
            odd = []
            for p in order:
                try:
                    r = subprocess.run(
                        ["/opt/venv/bin/python", "run.py", p, "quick"],
                        cwd=VERIF, stdout=subprocess.PIPE,
                        stderr=subprocess.STDOUT, text=True, timeout=900,
                        env=dict(os.environ, VERIF_REPO=wt,
                                 VERIF_SHALLOWER="1",
                                 VERIF_EVIDENCE="/tmp/mutate-ev"))
                except subprocess.TimeoutExpired:
                    odd.append("%s TIMEOUT" % p)
                    continue
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    by = p
                    break
                if r.returncode:
                    odd.append("%s exit %d %s" % (
                        p, r.returncode, r.stdout.strip()[-200:]))
            print("%s %s:%d %s | %s | %.0f s %s" % (
                "killed by " + by if by else "SURVIVED", fn, line, what,
                lines[line - 1].strip(), time.time() - t, odd or ""))
            sys.stdout.flush()
            if by:
                hits[by] = hits.get(by, 0) + 1
                order.sort(key=lambda p: -hits.get(p, 0))
        print(hits)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


main()
