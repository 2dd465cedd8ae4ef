"""Development tool: mutants of the package, kept when the stable tests still pass, run against the checks that analyse the
changed function (cheapest first) until one reports it.  usage: mutate.py OUT N SEED WORKERS [file substring]"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

OUT, NUM, SEED, WORKERS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
ONLY = sys.argv[5] if len(sys.argv) > 5 else ""
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/magnopy"
SKIP = ("_pinfo", "__main__", "_osfix", "__init__")
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: ast.MatMult}
NAMES = [("atom1", "atom2"), ("exchange_factor", "on_site_factor"), ("relative", "absolute"), ("double_counting", "spin_normalized"), ("i", "j"), ("cos", "sin"), ("xy", "yx"), ("xz", "zx"), ("yz", "zy"), ("spin_orientation", "cone_axis")]
PAIR = {a: b for x in NAMES for a, b in (x, x[::-1])}


def muts(tree):
    """(node path, description, function applying the change)."""
    out = []

    def visit(n, infn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            infn = isinstance(n, ast.FunctionDef) or infn
            body = n.body[1:] if ast.get_docstring(n, clean=False) is not None else n.body
            for s in body:
                visit(s, infn)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ("_logger" in ast.unparse(n.value.func) or ast.unparse(n.value.func) == "print"):
            return
        if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr):
            if isinstance(n, ast.Raise) and infn:
                out.append((n, "raise -> pass", lambda m: ("stmt", ast.Pass())))
            return
        if infn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                out.append((n, "compare", lambda m: setattr(m, "ops", [CMP[type(m.ops[0])]()])))
            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
                if isinstance(n.op, ast.MatMult):
                    out.append((n, "swap @", lambda m: (lambda l, r: (setattr(m, "left", r), setattr(m, "right", l)))(m.left, m.right)))
                else:
                    out.append((n, "binop", lambda m: setattr(m, "op", BIN[type(m.op)]())))
            if isinstance(n, ast.BoolOp):
                out.append((n, "boolop", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
                out.append((n, "drop operand", lambda m: setattr(m, "values", m.values[:-1] + m.values[-2:-1])))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                out.append((n, "unary", lambda m: setattr(m, "op", ast.UAdd()) if isinstance(m.op, ast.USub) else ("expr", m.operand)))
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                out.append((n, "const+1", lambda m: setattr(m, "value", m.value + 1)))
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((n, "not const", lambda m: setattr(m, "value", not m.value)))
            if isinstance(n, ast.If):
                out.append((n, "if True", lambda m: setattr(m, "test", ast.Constant(True))))
                out.append((n, "if False", lambda m: setattr(m, "test", ast.Constant(False))))
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                out.append((n, "drop statement", lambda m: ("stmt", ast.Pass())))
            if isinstance(n, ast.Continue):
                out.append((n, "continue -> break", lambda m: ("stmt", ast.Break())))
            if isinstance(n, ast.Break):
                out.append((n, "break -> continue", lambda m: ("stmt", ast.Continue())))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in PAIR:
                out.append((n, "name " + n.id, lambda m: setattr(m, "id", PAIR[m.id])))
            if isinstance(n, ast.Attribute) and n.attr in PAIR:
                out.append((n, "attr " + n.attr, lambda m: setattr(m, "attr", PAIR[m.attr])))
            if isinstance(n, ast.Attribute) and n.attr in ("T",):
                out.append((n, "drop .T", lambda m: ("expr", m.value)))
            if isinstance(n, ast.Call):
                f = ast.unparse(n.func)
                if f in ("deepcopy", "np.conj", "np.conjugate", "abs", "np.abs", "sorted", "tuple", "list", "np.array") and n.args:
                    out.append((n, "drop " + f, lambda m: ("expr", m.args[0])))
                if f.endswith(".copy") or f.endswith(".conj") or f.endswith(".conjugate") or f.endswith(".lower"):
                    out.append((n, "drop ." + f.split(".")[-1], lambda m: ("expr", m.func.value)))
                if n.keywords:
                    out.append((n, "drop keyword " + str(n.keywords[-1].arg), lambda m: setattr(m, "keywords", m.keywords[:-1])))
                if len(n.args) >= 2:
                    out.append((n, "swap arguments", lambda m: setattr(m, "args", m.args[1::-1] + m.args[2:])))
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                pass
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                if n.slice.upper is not None:
                    out.append((n, "open slice", lambda m: setattr(m.slice, "upper", None)))
        for c in ast.iter_child_nodes(n):
            visit(c, infn)

    for s in tree.body:
        visit(s, False)
    return out


def apply(src, index):
    tree = ast.parse(src)
    ms = muts(tree)
    n, what, fn = ms[index]
    line = n.lineno
    res = fn(n)
    if isinstance(res, tuple) and res and res[0] in ("expr", "stmt"):

        class R(ast.NodeTransformer):
            def visit(self, x):
                if x is n:
                    return ast.copy_location(res[1], x)
                return self.generic_visit(x)

        tree = R().visit(tree)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), what, line


def spans(src):
    return sorted(((n.lineno, n.end_lineno, n.name) for n in ast.walk(ast.parse(src)) if isinstance(n, ast.FunctionDef)), key=lambda t: t[1] - t[0])


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, executable="/bin/bash", **k)


def main():
    rnd = random.Random(SEED)
    cands = []
    for d, _, files in sorted(os.walk(SRC)):
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith(".py") and not any(s in f for s in SKIP) and ONLY in p:
                src = open(p).read()
                cands += [(p, i) for i in range(len(muts(ast.parse(src))))]
    print(len(cands), "mutants", flush=True)
    rnd.shuffle(cands)
    funcs, wall = {}, {}
    for i in sorted(os.listdir(os.path.join(HERE, "evidence"))):
        if i.endswith(".json") and len(i) == 8:
            e = json.load(open(os.path.join(HERE, "evidence", i)))
            wall[i[:3]] = e["wall_s"]
            for x in e["coverage"]["functions_analysed"]:
                funcs.setdefault(x.split(".")[-1], set()).add(i[:3])
    pool = Queue()
    for w in range(WORKERS):
        base = f"/tmp/mut/w{w}"
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        sh(f"cp -a /repo {base}/r; mkdir {base}/v; cp -a {HERE}/sa {HERE}/check.py {HERE}/known_findings.txt {HERE}/properties.jsonl {base}/v/; mkdir {base}/v/evidence")
        pool.put(base)
    done = [0]
    out = open(OUT, "a")

    def one(c):
        p, i = c
        if done[0] >= NUM:
            return
        base = pool.get()
        try:
            rel = os.path.relpath(p, "/repo")
            src = open(p).read()
            try:
                new, what, line = apply(src, i)
            except Exception as e:
                return
            if ast.unparse(ast.parse(src)) == new:
                return
            open(f"{base}/r/{rel}", "w").write(new)
            t = sh(f". /opt/vp/env.sh; cd {base}/r; PYTHONPATH={base}/r/src timeout 120 $PY -m pytest -q -x -p no:cacheprovider --timeout=60 --hypothesis-profile=ci --doctest-modules --ignore=utests/test_io/test_hdf5_internal.py --ignore=utests/test_io/test_txt_internal.py --ignore=utests/test_io/test_txt_verify.py utests src 2>&1 | tail -1")
            if "64 passed" not in t.stdout or "failed" in t.stdout or "error" in t.stdout:
                return
            done[0] += 1
            fn = next((nm for a, b, nm in spans(src) if a <= line <= b), "")
            checks = sorted(funcs.get(fn, set()), key=lambda x: wall[x])
            hit, log = None, []
            for k in checks:
                r = sh(f"cd {base}/v; VERIF_REPO={base}/r timeout 600 python3-vt check.py {k}")
                log.append((k, r.returncode))
                if r.returncode == 1:
                    hit = k
                    break
            text = src.splitlines()[line - 1].strip()
            diff = [l for l in new.splitlines() if l not in ast.unparse(ast.parse(src)).splitlines()][:2]
            out.write(json.dumps({"file": rel, "line": line, "fn": fn, "what": what, "hit": hit, "checks": log, "text": text, "new": diff, "index": i}) + "\n")
            out.flush()
        finally:
            shutil.copy(p, f"{base}/r/{os.path.relpath(p, '/repo')}")
            pool.put(base)

    with ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(one, cands))
    for w in range(WORKERS):
        shutil.rmtree(f"/tmp/mut/w{w}", ignore_errors=True)


main()
