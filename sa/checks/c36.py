"""Typestate analysis of file objects over the syntax trees of every function: a forward may-be-open analysis with an
exceptional edge from every statement that can raise, summaries for functions that return an open file or close a parameter."""
import ast
import os

from ..scopes import *

TECHNIQUE = "typestate analysis (may-be-open file objects on normal and exceptional exits) over the syntax trees of the whole package"
LEVEL_NOTE = "All call sites that open a file are enumerated; every statement with a call, subscript or operator may raise, except calls of a logger and of print. Files kept in attributes are not followed."
OPENERS = {"open", "io.open", "codecs.open", "os.fdopen", "gzip.open", "bz2.open", "lzma.open", "h5py.File", "zipfile.ZipFile", "tarfile.open", "tempfile.TemporaryFile", "tempfile.NamedTemporaryFile", "tempfile.SpooledTemporaryFile", "urllib.request.urlopen"}


class Site:
    def __init__(self, node, what):
        self.node, self.what = node, what


class Exits:
    def __init__(self):
        self.returns, self.raises, self.breaks, self.continues = [], [], [], []


class Analysis:
    def __init__(self, world):
        self.world = world
        self.types = Types(world)
        self.opens, self.closes = {}, {}
        self.sites = []

    def canonical(self, f, mod, func):
        """Dotted library name of a callee."""
        r = root_name(f) if isinstance(f, (ast.Name, ast.Attribute)) else None
        if r is None or local_name(func, r):
            return None
        if isinstance(f, ast.Name):
            d = mod.defs.get(f.id)
            if d is None:
                return f.id if f.id in BUILTINS and mod.lookup(f.id) is None else None
            if d[0] == "from" and d[1]:
                return d[1] + "." + d[2]
            return None
        parts = []
        e = f
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        d = mod.defs.get(e.id)
        if d is None or d[0] not in ("module", "from"):
            return None
        head = d[1] if d[0] == "module" else f"{d[1]}.{d[2]}"
        return ".".join([head] + parts[::-1])

    def opener(self, call, mod, func, cls):
        if not isinstance(call, ast.Call):
            return None
        name = self.canonical(call.func, mod, func)
        if name in OPENERS or name == "builtins.open":
            return name
        if isinstance(call.func, ast.Attribute) and call.func.attr == "open" and isinstance(call.func.value, ast.Call) and self.canonical(call.func.value.func, mod, func) == "pathlib.Path":
            return "Path.open"
        d = self.types.callee(call.func, func, mod, cls)
        if d and d[0] in ("func", "bound") and self.opens.get(id(d[1])):
            return ast.unparse(call.func)
        return None

    # -- one function
    def function(self, func, mod, cls, report):
        self.func, self.mod, self.cls, self.report = func, mod, cls, report
        self.escaped = set()
        self.fresh = False
        self.closed_params = set()
        a = func.args
        self.params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        self.manager = any("contextmanager" in d for d in decorators(func))
        ex = Exits()
        end = self.block(func.body, (frozenset(), ()), ex)
        for st, how in [(end, "at its end")] + [(s, "on return") for s in ex.returns] + [(s, f"when line {ln} raises") for s, ln in ex.raises]:
            if st is None:
                continue
            for s in st[0]:
                if s not in self.escaped:
                    report(s, how)
        return self.fresh, self.closed_params

    def site(self, call, what):
        for s in self.sites:
            if s.node is call:
                return s
        s = Site(call, what)
        self.sites.append(s)
        return s

    def risky(self, s):
        """The statement can raise."""
        parts = [s]
        if isinstance(s, (ast.If, ast.While)):
            parts = [s.test]
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            parts = [s.iter, s.target]
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            parts = [i.context_expr for i in s.items]
        elif isinstance(s, NESTED) or isinstance(s, ast.Try):
            return False
        for p in parts:
            for n in ast.walk(p):
                if isinstance(n, ast.Call):
                    t = ast.unparse(n.func)
                    if t == "print" or "log" in t.split(".")[0].lower() or t.endswith(".close"):
                        continue
                    return True
                if isinstance(n, (ast.Subscript, ast.BinOp, ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.Yield, ast.YieldFrom, ast.Await)):
                    return True
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not any(isinstance(c, ast.Call) and c.func is n for c in ast.walk(p)):
                    return True
        return False

    def block(self, body, st, ex):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st, ex)
        return st

    def lookup(self, st, e):
        return dict(st[1]).get(e.id) if isinstance(e, ast.Name) else None

    def close(self, st, site):
        return (st[0] - {site}, st[1])

    def effects(self, s, st):
        """Closing calls and calls of functions that close their argument within an expression or simple statement."""
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("close", "__exit__"):
                    site = self.lookup(st, n.func.value)
                    if site:
                        st = self.close(st, site)
                    elif isinstance(n.func.value, ast.Name) and n.func.value.id in self.params:
                        self.closed_params.add(n.func.value.id)
                else:
                    d = self.types.callee(n.func, self.func, self.mod, self.cls)
                    if d and d[0] in ("func", "bound"):
                        cp = self.closes.get(id(d[1]), set())
                        names = [p.arg for p in d[1].args.posonlyargs + d[1].args.args]
                        if d[0] == "bound":
                            names = names[1:]
                        for p, x in list(zip(names, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                            site = self.lookup(st, x)
                            if site and p in cp:
                                st = self.close(st, site)
                    if isinstance(n.func, ast.Attribute) and n.func.attr in ("enter_context", "push", "callback", "append", "add"):
                        for x in n.args:
                            x = x.value if isinstance(x, ast.Attribute) else x
                            site = self.lookup(st, x)
                            if site:
                                st = self.close(st, site)
        return st

    def test(self, t, st, value):
        """State on a branch: a variable that holds an open file is not None and true."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.test(t.operand, st, not value)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) and value or isinstance(t.op, ast.Or) and not value:
                for x in t.values:
                    st = self.test(x, st, value)
            return st
        site = None
        if isinstance(t, ast.Name):
            site, means_open = self.lookup(st, t), True
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            site, means_open = self.lookup(st, t.left), isinstance(t.ops[0], (ast.IsNot, ast.NotEq))
        elif isinstance(t, ast.Attribute) and t.attr == "closed":
            site, means_open = self.lookup(st, t.value), False
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Constant) and isinstance(t.left.value, str) and isinstance(t.ops[0], (ast.In, ast.NotIn)) and "locals" in ast.unparse(t.comparators[0]):
            site = dict(st[1]).get(t.left.value)
            means_open = isinstance(t.ops[0], ast.In)
        if site is not None and value != means_open:
            return self.close(st, site)
        return st

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        env = dict(a[1])
        env.update(b[1])
        return (a[0] | b[0], tuple(env.items()))

    def bind(self, st, target, site):
        env = dict(st[1])
        if isinstance(target, ast.Name):
            env.pop(target.id, None)
            if site is not None:
                env[target.id] = site
        return (st[0], tuple(env.items()))

    def stmt(self, s, st, ex):
        if isinstance(s, NESTED):
            return st
        if isinstance(s, (ast.With, ast.AsyncWith)):
            managed = []
            for i in s.items:
                e = i.context_expr
                inner = e
                if isinstance(e, ast.Call) and self.canonical(e.func, self.mod, self.func) in ("contextlib.closing", "contextlib.nullcontext") and e.args:
                    inner = e.args[0]
                if self.risky(ast.Expr(e)):
                    ex.raises.append((st, s.lineno))
                what = self.opener(inner, self.mod, self.func, self.cls)
                if what:
                    self.site(inner, what)
                    if i.optional_vars is not None:
                        st = self.bind(st, i.optional_vars, None)
                site = self.lookup(st, inner)
                if site:
                    st = self.close(st, site)
                if not what:
                    self.inside(e, st)
            return self.block(s.body, st, ex)
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            sub = Exits()
            end = self.block(s.body, st, sub)
            if end is not None:
                end = self.block(s.orelse, end, sub)
            out, left = end, Exits()
            left.returns, left.breaks, left.continues = sub.returns, sub.breaks, sub.continues
            caught = False
            for h in s.handlers:
                t = ast.unparse(h.type) if h.type is not None else ""
                wide = t in ("", "Exception", "BaseException") or "Exception" in t.split(".")
                start = None
                for x, ln in sub.raises:
                    start = self.join(start, x)
                if start is not None:
                    out = self.join(out, self.block(h.body, start, left))
                if wide:
                    caught = True
            if not caught:
                left.raises += sub.raises
            if s.finalbody:
                fin = Exits()

                def final(x):
                    return self.block(s.finalbody, x, fin) if x is not None else None

                out = final(out)
                for name in ("returns", "breaks", "continues"):
                    getattr(ex, name).extend(y for y in map(final, getattr(left, name)) if y is not None)
                ex.raises.extend((y, ln) for y, ln in ((final(x), ln) for x, ln in left.raises) if y is not None)
                for name in ("returns", "raises", "breaks", "continues"):
                    getattr(ex, name).extend(getattr(fin, name))
            else:
                for name in ("returns", "raises", "breaks", "continues"):
                    getattr(ex, name).extend(getattr(left, name))
            return out
        if isinstance(s, ast.If):
            if self.risky(s):
                ex.raises.append((st, s.lineno))
            self.inside(s.test, st)
            return self.join(self.block(s.body, self.test(s.test, st, True), ex), self.block(s.orelse, self.test(s.test, st, False), ex))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if self.risky(s):
                ex.raises.append((st, s.lineno))
            self.inside(s.test if isinstance(s, ast.While) else s.iter, st)
            head = st
            for _ in range(2):
                sub = Exits()
                end = self.block(s.body, head, sub)
                for x in [end] + sub.continues:
                    head = self.join(head, x)
            ex.raises += sub.raises
            ex.returns += sub.returns
            out = self.block(s.orelse, head, ex)
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                out = None
            for x in sub.breaks:
                out = self.join(out, x)
            return out
        if isinstance(s, ast.Match):
            out = st
            for case in s.cases:
                out = self.join(out, self.block(case.body, st, ex))
            return out
        if isinstance(s, ast.Break):
            ex.breaks.append(st)
            return None
        if isinstance(s, ast.Continue):
            ex.continues.append(st)
            return None
        # simple statements
        value = getattr(s, "value", None)
        what = self.opener(value, self.mod, self.func, self.cls) if value is not None else None
        if what and isinstance(s, (ast.Assign, ast.AnnAssign)):
            ex.raises.append((st, s.lineno))
            target = s.targets[0] if isinstance(s, ast.Assign) else s.target
            site = self.site(value, what)
            if isinstance(target, ast.Name):
                st = (st[0] | {site}, st[1])
                return self.bind(st, target, site)
            self.escaped.add(site)
            return st
        if what and isinstance(s, ast.Return):
            self.site(value, what)
            self.fresh = True
            return None
        if what and isinstance(s, ast.Expr):
            site = self.site(value, what)
            self.report(site, "at once: nothing refers to it")
            return st
        before = st
        st = self.effects(s, st)
        self.inside(s, st)
        if self.risky(s) and not isinstance(s, ast.Return):
            # a closing call itself does not raise
            ex.raises.append((st if st is not before else before, s.lineno))
        if isinstance(s, ast.Return):
            if s.value is not None and self.risky(s):
                ex.raises.append((before, s.lineno))
            site = self.lookup(st, s.value) if s.value is not None else None
            if site or isinstance(s.value, ast.Tuple) and any(self.lookup(st, x) for x in s.value.elts):
                for x in [s.value] if site else s.value.elts:
                    if self.lookup(st, x):
                        st = self.close(st, self.lookup(st, x))
                self.fresh = bool(site)
            ex.returns.append(st)
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, ast.Assign):
            src = self.lookup(st, s.value)
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st = self.bind(st, t, src)
                elif src is not None:
                    self.escaped.add(src)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield) and not self.manager and s.value.value is not None and self.lookup(st, s.value.value):
            self.escaped.add(self.lookup(st, s.value.value))
        return st

    def inside(self, e, st):
        """Opening calls in the middle of an expression."""
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                for x in list(n.args) + [k.value for k in n.keywords]:
                    what = self.opener(x, self.mod, self.func, self.cls)
                    if what:
                        site = self.site(x, what)
                        managed = isinstance(n.func, ast.Attribute) and n.func.attr in ("enter_context", "push") or self.canonical(n.func, self.mod, self.func) in ("contextlib.closing",)
                        d = self.types.callee(n.func, self.func, self.mod, self.cls)
                        if not managed and not (d and d[0] in ("func", "bound") and self.closes.get(id(d[1]))):
                            self.report(site, f"after the call of {ast.unparse(n.func)}")
                if isinstance(n.func, ast.Attribute):
                    what = self.opener(n.func.value, self.mod, self.func, self.cls)
                    if what:
                        self.report(self.site(n.func.value, what), f"after .{n.func.attr}()")


def functions(world):
    for mod in world.modules:
        for node in mod.tree.body:
            yield from nested(node, mod, None, world)
        body = [s for s in mod.tree.body if not isinstance(s, NESTED)]
        f = ast.parse("def module_body_():\n    pass").body[0]
        f.body = body or [ast.Pass()]
        yield f, mod, None


def nested(node, mod, cls, world):
    if isinstance(node, ast.ClassDef):
        c = klass(world, ("class", node, mod))
        for s in node.body:
            yield from nested(s, mod, c, world)
    elif isinstance(node, FUNC):
        yield node, mod, cls
        for s in ast.walk(node):
            if s is not node and isinstance(s, FUNC):
                yield s, mod, None
    elif not isinstance(node, (ast.Lambda,)):
        for s in ast.iter_child_nodes(node):
            if isinstance(s, (ast.stmt, ast.ExceptHandler)):
                yield from nested(s, mod, cls, world)


def check(rep):
    world = World(rep.src, "magnopy")
    rep.rule = "no file object that a function opens may be open when the function ends, normally or with an exception"
    an = Analysis(world)
    todo = list(functions(world))
    for _ in range(4):
        changed = False
        for f, mod, cls in todo:
            got = an.function(f, mod, cls, lambda *a: None)
            if (an.opens.get(id(f)), an.closes.get(id(f))) != got:
                an.opens[id(f)], an.closes[id(f)] = got
                changed = True
        if not changed:
            break
    bad = {}
    for f, mod, cls in todo:
        n = len(an.sites)
        name = (cls.name + "." if cls else "") + f.name
        found = []
        here = {id(x) for x in ast.walk(f)}
        an.function(f, mod, cls, lambda s, how: found.append((s, how)))
        for s in an.sites:
            if id(s.node) in here and not hasattr(s, "where"):
                s.where = (mod.name, s.node.lineno, name)
        for s, how in found:
            bad.setdefault(s, set()).add(how)
    for s in an.sites:
        where = getattr(s, "where", ("", 0, ""))
        if s in bad:
            rep.violation(f"{s.what} in {where[2]}", f"the file opened here may stay open {sorted(bad[s])[0]}", where)
        else:
            rep.ok(f"{where[0]}:{where[1]} {where[2]}: {s.what}")
    rep.notes.append(f"{len(todo)} functions, {len(an.sites)} call sites that open a file")
    print("   ", rep.notes[-1])
