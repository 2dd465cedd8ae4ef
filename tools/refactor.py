"""Behaviour-preserving rewrites of the whole package, to see that the checks stay quiet.

usage: refactor.py NAME SRC_ROOT   (rewrites every .py under SRC_ROOT/src in place)"""
import ast, sys, pathlib, copy
T = {}
def t(f): T[f.__name__] = f; return f
_n = [0]
def fresh(p="tmp"):
    _n[0] += 1
    return f"_{p}_{_n[0]}"
N = lambda s, c=None: ast.Name(s, c or ast.Load())
ST = lambda s: ast.Name(s, ast.Store())
class Blocks(ast.NodeTransformer):
    """Applies self.stmt to every statement of every block, bottom up."""
    def stmt(self, s): return [s]
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                o = []
                for i, s in enumerate(b):
                    doc = i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
                    o += [s] if doc else self.stmt(s)
                setattr(n, f, o)
        return n
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
@t
def renamelocals(tree):
    for f in ast.walk(tree):
        if not isinstance(f, FN): continue
        inner = [n for b in f.body for n in ast.walk(b)]
        if any(isinstance(n, FN + (ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef)) for n in inner): continue
        params = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        st = {n.id for n in inner if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        for n in inner:
            if isinstance(n, ast.Name) and n.id in st: n.id = "v_" + n.id
            if isinstance(n, ast.ExceptHandler) and n.name in st: n.name = "v_" + n.name
    return tree
@t
def invertif(tree):
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse:
                n.test = ast.UnaryOp(ast.Not(), n.test); n.body, n.orelse = n.orelse, n.body
            return n
        def visit_IfExp(self, n):
            self.generic_visit(n)
            n.test = ast.UnaryOp(ast.Not(), n.test); n.body, n.orelse = n.orelse, n.body
            return n
    return V().visit(tree)
@t
def returntemp(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.Return) and s.value is not None:
                k = fresh("result"); return [ast.Assign([ST(k)], s.value), ast.Return(N(k))]
            return [s]
    return V().visit(tree)
@t
def argtemps(tree):
    class V(Blocks):
        depth = 0
        def stmt(self, s):
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(s.value, ast.Call):
                c = s.value
                if isinstance(c.func, (ast.Name,)) or isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
                    if isinstance(c.func, ast.Name) and c.func.id in ("super", "locals", "vars"): return [s]
                    pre = []
                    def do(e):
                        if isinstance(e, (ast.Constant, ast.Name, ast.Starred)): return e
                        k = fresh("arg"); pre.append(ast.Assign([ST(k)], e)); return N(k)
                    c.args = [do(a) for a in c.args]
                    for kw in c.keywords: kw.value = do(kw.value)
                    return pre + [s]
            return [s]
    for f in ast.walk(tree):
        if isinstance(f, FN): V().visit(f)
    return tree
@t
def comploops(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp):
                L = s.value; k = fresh("items")
                b = [ast.Expr(ast.Call(ast.Attribute(N(k), "append", ast.Load()), [L.elt], []))]
                for g in reversed(L.generators):
                    for c in reversed(g.ifs): b = [ast.If(c, b, [])]
                    b = [ast.For(g.target, g.iter, b, [])]
                s.value = N(k)
                return [ast.Assign([ST(k)], ast.List([], ast.Load()))] + b + [s]
            return [s]
    for f in ast.walk(tree):
        if isinstance(f, FN): V().visit(f)
    return tree
@t
def noaug(tree):
    class V(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                return ast.Assign([n.target], ast.BinOp(N(n.target.id), n.op, n.value))
            return n
    return V().visit(tree)
@t
def whileloops(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) < 3 and isinstance(s.target, ast.Name):
                a = s.iter.args; lo, hi = (a if len(a) == 2 else (ast.Constant(0), a[0])); i, e = fresh("i"), fresh("end")
                return [ast.Assign([ST(i)], lo), ast.Assign([ST(e)], hi),
                        ast.While(ast.Compare(N(i), [ast.Lt()], [N(e)]), [ast.Assign([s.target], N(i)), ast.AugAssign(ST(i), ast.Add(), ast.Constant(1))] + s.body, s.orelse)]
            return [s]
    return V().visit(tree)
@t
def enumerated(tree):
    class V(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            n.iter = ast.Call(N("enumerate"), [n.iter], []); n.target = ast.Tuple([ST(fresh("k")), n.target], ast.Store())
            return n
    return V().visit(tree)
@t
def nofstrings(tree):
    def conv(j):
        parts = []
        for v in j.values:
            if isinstance(v, ast.Constant): parts.append(v); continue
            e = v.value
            if v.conversion == 114: e = ast.Call(N("repr"), [e], [])
            if v.conversion == 115: e = ast.Call(N("str"), [e], [])
            spec = conv(v.format_spec) if v.format_spec else ast.Constant("")
            parts.append(ast.Call(N("format"), [e, spec], []))
        if not parts: return ast.Constant("")
        o = parts[0]
        for q in parts[1:]: o = ast.BinOp(o, ast.Add(), q)
        return o
    class V(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            for v in n.values: 
                if isinstance(v, ast.FormattedValue): v.value = self.visit(v.value)
            return conv(n)
    return V().visit(tree)
@t
def formatmethod(tree):
    """f"a{x:.3f}" -> "a{:.3f}".format(x) where the specs are constant"""
    class V(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            s, a = "", []
            for v in n.values:
                if isinstance(v, ast.Constant): s += v.value.replace("{", "{{").replace("}", "}}"); continue
                sp = ""
                if v.format_spec:
                    for q in v.format_spec.values:
                        if isinstance(q, ast.Constant): sp += q.value
                        else: return n
                s += "{" + str(len(a)) + ("!" + chr(v.conversion) if v.conversion > 0 else "") + (":" + sp if sp else "") + "}"; a.append(v.value)
            return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), a, [])
    return V().visit(tree)
@t
def matmuls(tree):
    if not any(isinstance(n, ast.alias) and n.asname == "np" for n in ast.walk(tree)): return tree
    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.MatMult):
                return ast.Call(ast.Attribute(N("np"), "matmul", ast.Load()), [n.left, n.right], [])
            return n
    return V().visit(tree)
def impl(tree, wrap):
    def split(f, cls):
        if f.decorator_list or f.name.startswith("__") or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)): return [f]
        a = f.args
        if a.vararg or a.kwarg or a.posonlyargs: return [f]
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("super", "locals") for n in ast.walk(f)): return [f]
        g = copy.deepcopy(f); g.name = "_" + f.name.lstrip("_") + "_body"
        doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
        g.body = g.body[len(doc):] or [ast.Pass()]
        names = [x.arg for x in a.args]; kws = [x.arg for x in a.kwonlyargs]
        g.args.defaults = []; g.args.kw_defaults = [None] * len(kws)
        fn = ast.Attribute(N(names[0]), g.name, ast.Load()) if cls else N(g.name)
        call = ast.Call(fn, [N(x) for x in (names[1:] if cls else names)], [ast.keyword(x, N(x)) for x in kws])
        f.body = doc + [ast.Return(call)]
        return [g, f]
    o = []
    for s in tree.body:
        if isinstance(s, ast.FunctionDef): o += split(s, False)
        elif isinstance(s, ast.ClassDef):
            b = []
            for m in s.body: b += split(m, True) if isinstance(m, ast.FunctionDef) else [m]
            s.body = b; o.append(s)
        else: o.append(s)
    tree.body = o
    return tree
@t
def bodies(tree): return impl(tree, True)
@t
def testtemps(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
                k = fresh("cond"); a = ast.Assign([ST(k)], s.test); s.test = N(k); return [a, s]
            return [s]
    class W(V):
        def visit_If(self, n):      # an elif must not get its temporary between if and else: nest it explicitly
            return self.generic_visit(n)
    for f in ast.walk(tree):
        if isinstance(f, FN): W().visit(f)
    return tree
@t
def numpyname(tree):
    hit = False
    for n in ast.walk(tree):
        if isinstance(n, ast.alias) and n.name == "numpy" and n.asname == "np": n.asname = None; hit = True
    if hit:
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id == "np": n.id = "numpy"
    return tree
@t
def noopenwith(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].optional_vars, ast.Name):
                i = s.items[0]; k = i.optional_vars.id
                return [ast.Assign([ST(k)], i.context_expr), ast.Try(s.body, [], [], [ast.Expr(ast.Call(ast.Attribute(N(k), "close", ast.Load()), [], []))])]
            return [s]
    return V().visit(tree)
@t
def constants(tree):
    names = {}
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            def do(e):
                if isinstance(e, ast.Constant) and isinstance(e.value, str):
                    return N(names.setdefault(e.value, f"_TEXT_{len(names)}"))
                if isinstance(e, (ast.List, ast.Tuple)): e.elts = [do(x) for x in e.elts]
                return e
            n.comparators = [do(c) for c in n.comparators]; return n
    V().visit(tree)
    at = max([i + 1 for i, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom))] + [0])
    tree.body[at:at] = [ast.Assign([ST(v)], ast.Constant(k)) for k, v in names.items()]
    return tree
@t
def inor(tree):
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.left, ast.Name) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and n.comparators[0].elts:
                return ast.BoolOp(ast.Or(), [ast.Compare(n.left, [ast.Eq()], [e]) for e in n.comparators[0].elts])
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotEq): return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Eq()], n.comparators))
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.Lt): return ast.Compare(n.comparators[0], [ast.Gt()], [n.left])
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.GtE): return ast.Compare(n.comparators[0], [ast.LtE()], [n.left])
            return n
    return V().visit(tree)
@t
def earlyreturn(tree):
    def ends(b): return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                o = s.orelse; s.orelse = []; return [s] + o
            return [s]
    return V().visit(tree)
@t
def elsereturn(tree):
    def ends(b): return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
    class V(ast.NodeTransformer):
        def generic_visit(self, n):
            super().generic_visit(n)
            for f in ("body", "orelse"):
                b = getattr(n, f, None)
                if isinstance(b, list):
                    for i in range(len(b) - 2, -1, -1):
                        if isinstance(b[i], ast.If) and not b[i].orelse and ends(b[i].body) and b[i + 1:]:
                            b[i].orelse = b[i + 1:]; del b[i + 1:]
            return n
    V().visit(tree); return tree
@t
def commute(tree):
    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            bad = lambda e: isinstance(e, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(e, ast.Constant) and isinstance(e.value, str)
            if isinstance(n.op, ast.Mult) and not bad(n.left) and not bad(n.right): n.left, n.right = n.right, n.left
            return n
    return V().visit(tree)
@t
def swapassign(tree):
    def simple(s): return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute)) for n in ast.walk(s.value))
    class V(ast.NodeTransformer):
        def generic_visit(self, n):
            super().generic_visit(n)
            b = getattr(n, "body", None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                i = 0
                while i + 1 < len(b):
                    p, q = b[i], b[i + 1]
                    if simple(p) and simple(q):
                        x, y = p.targets[0].id, q.targets[0].id
                        u = {m.id for m in ast.walk(p.value) if isinstance(m, ast.Name)}; v = {m.id for m in ast.walk(q.value) if isinstance(m, ast.Name)}
                        if x != y and x not in v and y not in u: b[i], b[i + 1] = q, p; i += 1
                    i += 1
            return n
    V().visit(tree); return tree
@t
def nestand(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                b = s.body
                for c in reversed(s.test.values): b = [ast.If(c, b, [])]
                return b
            return [s]
    return V().visit(tree)
@t
def untuple(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and all(isinstance(e, ast.Name) for e in s.targets[0].elts) and isinstance(s.value, (ast.Call, ast.Name)):
                k = fresh("all")
                return [ast.Assign([ST(k)], s.value)] + [ast.Assign([e], ast.Subscript(N(k), ast.Constant(i), ast.Load())) for i, e in enumerate(s.targets[0].elts)]
            return [s]
    return V().visit(tree)
@t
def forindex(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                k = fresh("seq")
                return [ast.Assign([ST(k)], ast.Call(N("list"), s.iter.args, [])), ast.For(s.target.elts[0], ast.Call(N("range"), [ast.Call(N("len"), [N(k)], [])], []),
                    [ast.Assign([s.target.elts[1]], ast.Subscript(N(k), N(s.target.elts[0].id), ast.Load()))] + s.body, s.orelse)]
            return [s]
    return V().visit(tree)
@t
def noops(tree):
    class V(Blocks):
        def stmt(self, s):
            return [s] if isinstance(s, (ast.Import, ast.ImportFrom)) else [ast.If(ast.Constant(False), [ast.Pass()], []), s] 
    for f in ast.walk(tree):
        if isinstance(f, FN): V().visit(f)
    return tree
@t
def unchain(tree):
    """a[i] += v  ->  a[i] = a[i] + v ;  a.b += v -> a.b = a.b + v"""
    class V(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, (ast.Subscript, ast.Attribute)):
                l = copy.deepcopy(n.target); l.ctx = ast.Load()
                return ast.Assign([n.target], ast.BinOp(l, n.op, n.value))
            return n
    return V().visit(tree)
@t
def unparse(tree): return tree
if __name__ == "__main__":
    if len(sys.argv) < 3: print(" ".join(T)); sys.exit()
    for q in pathlib.Path(sys.argv[2], "src").rglob("*.py"):
        a = q.read_text()
        for n in sys.argv[1].split("+"): tree = T[n](ast.parse(a)); a = ast.unparse(ast.fix_missing_locations(tree)) + "\n"
        q.write_text(a)
