"""Name resolution, attribute resolution, call signatures and a forward flow analysis (which locals may be assigned at a use)
over the syntax trees of every function of every module, executed or not; libraries are resolved in their installed sources."""
import ast
import os

from ..lib import Bad
from ..scopes import *

TECHNIQUE = "dataflow and resolution of names, attributes and call signatures over the syntax trees of the whole package"
LEVEL_NOTE = ("Every function of every module is covered, executed or not. Attributes are decided on values whose class the assignments of the function determine "
              "(self, constructor results, annotated parameters, library modules); other attributes are not decided. A local is reported when no path assigns it before the use, or when the only assignment is inside an "
              "if without alternative (or a try with a handler that goes on) right before an unconditional use.")


class Walk:
    def __init__(self, world, mod, problems):
        self.world, self.mod, self.out = world, mod, problems
        self.types = Types(world)
        self.count = {"names": 0, "attributes": 0, "calls": 0, "functions": 0, "imports": 0}

    def say(self, node, what):
        self.out.append((getattr(node, "lineno", 0), what))

    # -- imports
    def imports(self):
        for s in ast.walk(self.mod.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.count["imports"] += 1
                    if self.world.module(a.name) is None:
                        self.say(s, f"module {a.name} does not exist")
            elif isinstance(s, ast.ImportFrom):
                m = (self.mod.base(s.level) + ("." + s.module if s.module else "")) if s.level else s.module
                mod = self.world.module(m)
                if mod is None:
                    self.say(s, f"module {m} does not exist")
                    continue
                for a in s.names:
                    self.count["imports"] += 1
                    if a.name != "*" and self.world.follow(("from", m, a.name)) is None:
                        self.say(s, f"{m} has no {a.name}")
        e = self.mod.exported()
        for n in e or []:
            if self.mod.lookup(n) is None:
                self.say(self.mod.tree, f"__all__ lists {n}, which is not defined")

    # -- scopes
    def run(self):
        self.imports()
        self.scope(self.mod.tree, None, [])
        return self.count

    def scope(self, func, cls, outer):
        """outer: local names of the enclosing functions, innermost last."""
        self.count["functions"] += 1
        is_mod = isinstance(func, ast.Module)
        names = set() if is_mod else bound(func)
        if not is_mod:
            func._outer = outer[-1][0] if outer else None
        body = func.body if isinstance(func.body, list) else [ast.Expr(func.body)]
        if not is_mod:
            a = func.args
            start = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {p.arg for p in (a.vararg, a.kwarg) if p}
            seen = set()

            def report(n, where=None):
                if (n.id, n.lineno) in seen:
                    return
                seen.add((n.id, n.lineno))
                if where is not None:
                    self.say(n, f"{n.id!r} is assigned only on one way through the statement of line {where.lineno} and used on every way")
                else:
                    self.say(n, f"{n.id!r} is used before anything is assigned to it")

            try:
                Flow(func, names, report).block(body, set(start))
            except RecursionError:
                pass
        elif any(True for _ in body):
            top = {n for n, d in self.mod.defs.items()}
            seen = set()

            def report(n, where=None):
                if where is None and n.id not in BUILTINS and self.star(n.id) is None and (n.id, n.lineno) not in seen:
                    seen.add((n.id, n.lineno))
                    self.say(n, f"{n.id!r} is used before it is defined in the module")

            Flow(func, top, report).block(body, set())
        self.nodes(func, body, cls, outer, names, is_mod)

    def star(self, n):
        for m in self.mod.stars:
            mod = self.world.module(m)
            if not isinstance(mod, Module) or mod.exported() is None or n in mod.exported():
                return True
        return None

    def defined(self, name, names, outer, hidden, klass_names):
        if name in names or name in hidden or name in klass_names or name in BUILTINS:
            return True
        for f, ns in outer:
            if name in ns:
                return True
        d = self.mod.lookup(name)
        return d is not None

    def nodes(self, func, body, cls, outer, names, is_mod, klass_names=()):
        def go(n, hidden):
            if isinstance(n, FUNC + (ast.Lambda,)):
                for d in getattr(n, "decorator_list", []) + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    go(d, hidden)
                for p in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                    if p.annotation is not None and not isinstance(p.annotation, ast.Constant):
                        go(p.annotation, hidden)
                inner = outer + ([] if is_mod else [(func, names)]) + ([(None, set(hidden))] if hidden else [])
                inner = [(f, ns) for f, ns in inner]
                self.inner(n, cls if klass_names or isinstance(n, ast.Lambda) else None, inner)
                return
            if isinstance(n, ast.ClassDef):
                for d in n.bases + n.decorator_list + [k.value for k in n.keywords]:
                    go(d, hidden)
                c = klass(self.world, ("class", n, self.mod)) if self.mod.defs.get(n.name, (0, 0))[1] is n else Class(self.world, n, self.mod)
                inner = Walk.nodes
                inner(self, func, n.body, c, outer, names, is_mod, tuple(c.members) + ("__qualname__", "__module__"))
                return
            if isinstance(n, COMP):
                h = set(hidden)
                for g in n.generators:
                    go(g.iter, h)
                    h |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    for c in g.ifs:
                        go(c, h)
                for part in ((n.key, n.value) if isinstance(n, ast.DictComp) else (n.elt,)):
                    go(part, h)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.count["names"] += 1
                if not self.defined(n.id, names, outer, hidden, klass_names):
                    self.say(n, f"name {n.id!r} is not defined")
            if isinstance(n, ast.Attribute):
                self.attribute(n, func, cls, names, outer, hidden)
            if isinstance(n, ast.Call):
                self.call(n, func, cls, names, outer, hidden)
            if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Name) and n.exc.id == "NotImplemented":
                self.say(n, "raises NotImplemented, which is not an exception")
            if isinstance(n, ast.Raise) and isinstance(n.exc, (ast.Constant, ast.JoinedStr)):
                self.say(n, "raises a string, which is not an exception")
            for c in ast.iter_child_nodes(n):
                go(c, hidden)

        for s in body:
            go(s, frozenset())

    def inner(self, f, cls, outer):
        self.scope(f, cls, outer)

    # -- attributes
    def shadowed(self, name, names, outer, hidden):
        return name in names or name in hidden or any(name in ns for f, ns in outer)

    def attribute(self, n, func, cls, names, outer, hidden):
        r = root_name(n.value)
        if r is not None and not self.shadowed(r, names, outer, hidden):
            d = self.world.resolve(self.mod, n.value)
            if d and d[0] == "module":
                m = self.world.module(d[1])
                self.count["attributes"] += 1
                if isinstance(m, set) and n.attr not in m and self.world.module(d[1] + "." + n.attr) is None:
                    self.say(n, f"module {d[1]} has no {n.attr!r}")
                if isinstance(m, Module) and m.lookup(n.attr) is None and not (d[1].split(".")[0] != self.world.package and self.world.external(m)) and self.world.module(d[1] + "." + n.attr) is None and n.attr not in BUILTINS:
                    self.say(n, f"module {d[1]} has no {n.attr!r}")
                return
            if d and d[0] == "class" and isinstance(n.ctx, ast.Load):
                c = klass(self.world, d)
                self.count["attributes"] += 1
                if c.find(n.attr) is None and not any(b is None for b in c.bases()) and not hasattr(type, n.attr):
                    self.say(n, f"class {c.name} has no attribute {n.attr!r}")
                return
        if r in hidden:
            return
        t = self.types.of(n.value, func, self.mod, cls) if not isinstance(func, ast.Module) else None
        if not isinstance(t, Class):
            return
        if t.mod.name.split(".")[0] != self.world.package and any(b is None for b in t.bases()):
            return
        self.count["attributes"] += 1
        got = t.find(n.attr)
        if isinstance(n.ctx, ast.Load) and got is None:
            self.say(n, f"{t.name} has no attribute {n.attr!r}")
        if isinstance(n.ctx, ast.Store) and not t.settable(n.attr):
            self.say(n, f"attribute {n.attr!r} of {t.name} cannot be set")
        if got == "stored" and isinstance(n.ctx, ast.Load) and t is cls:
            pass

    def plain(self, e, c, depth=0):
        """The value is certainly not a function."""
        if isinstance(e, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.Tuple, ast.List, ast.Dict, ast.JoinedStr, ast.Compare) + COMP):
            return True
        if isinstance(e, ast.Call):
            return root_name(e.func) in ("np", "numpy", "float", "int", "str", "list", "tuple", "bool", "sum", "len", "abs", "sorted")
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and depth < 3:
            vals = [s.value for s in ast.walk(c.node) if isinstance(s, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == e.attr for x in s.targets)]
            return e.attr not in c.members and bool(vals) and any(isinstance(v, ast.Constant) and v.value is None or self.plain(v, c, depth + 1) for v in vals) and not any(isinstance(v, (ast.Lambda, ast.Attribute)) for v in vals)
        return False

    # -- calls
    def call(self, n, func, cls, names, outer, hidden):
        f = n.func
        r = root_name(f) if isinstance(f, (ast.Name, ast.Attribute)) else None
        if r is not None and r in hidden:
            return
        if isinstance(f, ast.Name) and (f.id in names or any(f.id in ns for g, ns in outer)):
            # a function defined in the enclosing functions once
            for g in [func] + [x for x, ns in reversed(outer) if x is not None]:
                if isinstance(g, (ast.Module, ast.Lambda)) or g is None:
                    continue
                defs = [x for x in own(g) if isinstance(x, FUNC) and x.name == f.id]
                others = [x for x in own(g) if isinstance(x, ast.Name) and x.id == f.id and isinstance(x.ctx, ast.Store)]
                if len(defs) == 1 and not others and not defs[0].decorator_list:
                    self.count["calls"] += 1
                    why = arity(n, defs[0], 0)
                    if why:
                        self.say(n, f"{f.id} is called with {why}")
                    return
                if f.id in bound(g):
                    return
            return
        t = self.types.of(f.value, func, self.mod, cls) if isinstance(f, ast.Attribute) and not isinstance(func, ast.Module) else None
        if isinstance(t, Class):
            m = t.find(f.attr)
            if isinstance(m, tuple) and m[0] == "property" and m[2].mod.name.split(".")[0] == self.world.package:
                rets = [x.value for x in own(m[1]) if isinstance(x, ast.Return) and x.value is not None]
                if rets and all(self.plain(x, m[2]) for x in rets):
                    self.say(n, f"{t.name}.{f.attr} is a property and its value is called")
                return
        d = self.types.callee(f, func, self.mod, cls)
        if d is None:
            return
        if d[0] == "class":
            c = klass(self.world, d)
            if any(b is None for b in c.bases()) and "__init__" not in c.members or c.node.keywords or c.node.decorator_list:
                return
            m = c.find("__init__")
            n_ = c.find("__new__")
            if isinstance(n_, tuple):
                return
            if isinstance(m, tuple) and m[0] == "method":
                self.count["calls"] += 1
                why = arity(n, m[1], 1)
                if why:
                    self.say(n, f"{c.name} is constructed with {why}")
            return
        g = d[1]
        if [x for x in decorators(g) if x not in ("staticmethod", "classmethod")] or d[2].path.endswith(".pyi"):
            return
        implicit = 0
        if d[0] == "bound":
            implicit = 1
        self.count["calls"] += 1
        why = arity(n, g, implicit)
        if why:
            self.say(n, f"{ast.unparse(f)} is called with {why}")


def check(rep):
    world = World(rep.src, "magnopy")
    rep.rule = "every name, attribute of a known module or class, import and call of a known function resolves; no local is used before any path assigns it"
    total = {}
    for mod in world.modules:
        rel = os.path.relpath(mod.path, rep.root)
        problems = []
        count = Walk(world, mod, problems).run()
        for k, v in count.items():
            total[k] = total.get(k, 0) + v
        if problems:
            for line, what in sorted(set(problems)):
                rep.violation(f"{mod.name}", f"{what}", (mod.name, line, ""))
        else:
            rep.ok(f"{mod.name}: {count['functions']} scopes, {count['names']} names, {count['attributes']} attributes, {count['calls']} calls, {count['imports']} imports")
    rep.notes.append(", ".join(f"{v} {k}" for k, v in total.items()))
    print("   ", rep.notes[-1])
