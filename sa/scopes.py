"""Static resolution of names, attributes and calls over the whole package (and the sources of the libraries it builds on).

Nothing is imported from the package: modules, classes and functions are syntax trees, `import` statements are followed
by file name, and the flow analysis is a forward propagation over the statements of a function."""
import ast
import builtins
import glob
import importlib
import os
import sys

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__class__"}
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
NESTED = FUNC + (ast.Lambda, ast.ClassDef)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def site():
    for root in ("/opt/venv", sys.prefix):
        for d in sorted(glob.glob(os.path.join(root, "lib", "python3*", "site-packages"))):
            if os.path.isdir(os.path.join(d, "numpy")):
                return d
    return None


class Module:
    def __init__(self, name, path, tree, world):
        self.name, self.path, self.tree, self.world = name, path, tree, world
        self.defs = {}
        self.stars = []
        self.package = os.path.basename(path).startswith("__init__.")
        self.opaque = False
        self._collect(tree.body)
        self._all = None

    def base(self, level):
        parts = self.name.split(".")
        if not self.package:
            parts = parts[:-1]
        return ".".join(parts[: len(parts) - level + 1])

    def _collect(self, body):
        for s in body:
            if isinstance(s, FUNC):
                old = self.defs.get(s.name)
                self.defs[s.name] = ("func", s, self) if not (old and old[0] == "func" and any("overload" in ast.unparse(d) for d in s.decorator_list)) else old
            elif isinstance(s, ast.ClassDef):
                self.defs[s.name] = ("class", s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.defs[a.asname] = ("module", a.name)
                    else:
                        self.defs[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                m = (self.base(s.level) + ("." + s.module if s.module else "")) if s.level else s.module
                for a in s.names:
                    if a.name == "*":
                        self.stars.append(m)
                    else:
                        self.defs[a.asname or a.name] = ("from", m, a.name)
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for f in ("body", "orelse", "finalbody"):
                    self._collect(getattr(s, f, []))
                for h in getattr(s, "handlers", []):
                    self._collect(h.body)
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.defs.setdefault(n.id, ("value", s))
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.defs[n.id] = ("value", s)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.defs.setdefault(x, ("value", n))

    def exported(self):
        """Names a star import takes."""
        if self._all is None:
            out = None
            for s in self.tree.body:
                if isinstance(s, (ast.Assign, ast.AugAssign)):
                    t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                    if isinstance(t, ast.Name) and t.id == "__all__":
                        try:
                            v = list(ast.literal_eval(s.value))
                        except ValueError:
                            return None
                        out = v if isinstance(s, ast.Assign) else (out or []) + v
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "__all__":
                    a = s.value.args[0] if s.value.args else None
                    if s.value.func.attr == "extend":
                        if isinstance(a, ast.Attribute) and a.attr == "__all__":
                            m = self.world.expr_module(self, a.value)
                            v = m.exported() if isinstance(m, Module) else None
                        else:
                            try:
                                v = list(ast.literal_eval(a))
                            except ValueError:
                                v = None
                        if v is None:
                            return None
                        out = (out or []) + v
                    elif s.value.func.attr == "append":
                        try:
                            out = (out or []) + [ast.literal_eval(a)]
                        except ValueError:
                            return None
            self._all = (out,)
        if self._all[0] is not None:
            return self._all[0]
        return [n for n in self.names() or [] if not n.startswith("_")]

    def names(self):
        """Everything defined in the module; None: not known."""
        out = set(self.defs)
        for m in self.stars:
            mod = self.world.module(m)
            if not isinstance(mod, Module):
                if mod is not None and isinstance(mod, set):
                    out |= mod
                    continue
                return None
            e = mod.exported()
            if e is None:
                return None
            out |= set(e)
        return out

    def lookup(self, name, depth=0):
        """Definition a name of this module stands for (imports followed), None: undefined, ('unknown',)."""
        if depth > 20:
            return ("unknown",)
        if name in self.defs:
            d = self.defs[name]
            return self.world.follow(d, depth) if d[0] in ("from", "module") else d
        for m in reversed(self.stars):
            mod = self.world.module(m)
            if isinstance(mod, Module):
                e = mod.exported()
                if e is None or name in e:
                    return mod.lookup(name, depth + 1)
            elif isinstance(mod, set):
                if name in mod:
                    return ("unknown",)
            else:
                return ("unknown",)
        if self.package and self.world.module(self.name + "." + name) is not None:
            return ("module", self.name + "." + name)
        if "__getattr__" in self.defs:
            return ("unknown",)
        return None


class World:
    """The package and, on demand, the sources of its libraries."""

    def __init__(self, src, package):
        self.src, self.package = src, package
        self.cache = {}
        self.site = site()
        self.modules = []
        for d, _, files in sorted(os.walk(os.path.join(src, package))):
            for f in sorted(files):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), src)[:-3].split(os.sep)
                    if rel[-1] == "__init__":
                        rel = rel[:-1]
                    self.modules.append(self.module(".".join(rel)))

    def module(self, name):
        """Module (source known), set of names (standard library), None (does not exist), False (not known)."""
        if name is None:
            return False
        if name in self.cache:
            return self.cache[name]
        self.cache[name] = False
        top = name.split(".")[0]
        got = False
        if top == self.package:
            got = self._file(self.src, name)
        elif top in sys.stdlib_module_names:
            try:
                got = set(dir(importlib.import_module(name)))
            except ImportError:
                got = None
        elif self.site and os.path.isdir(os.path.join(self.site, top)):
            got = self._file(self.site, name)
            if got is None and glob.glob(os.path.join(self.site, *name.split(".")) + "*.so"):
                got = False
        self.cache[name] = got
        return got

    def _file(self, root, name):
        p = os.path.join(root, *name.split("."))
        for f in (p + "/__init__.pyi", p + "/__init__.py", p + ".pyi", p + ".py"):
            if root == self.src and f.endswith(".pyi"):
                continue
            if os.path.exists(f):
                with open(f, encoding="utf-8") as fh:
                    text = fh.read()
                m = Module(name, f, ast.parse(text), self)
                m.text = text
                return m
        return None

    def follow(self, d, depth=0):
        if d[0] == "module":
            return d if self.module(d[1]) is not None else None
        if d[0] == "from":
            m = self.module(d[1])
            if isinstance(m, Module):
                if m.defs.get(d[2]) == d:
                    return ("module", d[1] + "." + d[2]) if self.module(d[1] + "." + d[2]) is not None else None
                x = m.lookup(d[2], depth + 1)
                if x is None and self.module(d[1] + "." + d[2]) is not None:
                    return ("module", d[1] + "." + d[2])
                if x is None and d[1].split(".")[0] != self.package and (self.external(m) or "__getattr__" in m.defs):
                    return ("unknown",)
                return x
            if isinstance(m, set):
                return ("unknown",) if d[2] in m or self.module(d[1] + "." + d[2]) is not None else None
            if m is None:
                return None
            return ("unknown",)
        return d

    def external(self, m):
        """A library module whose names cannot all be read off its source."""
        if m.names() is None:
            return True
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "setattr", "vars") for n in ast.walk(m.tree)) and not m.path.endswith(".pyi")

    def expr_module(self, mod, e):
        d = self.resolve(mod, e)
        if d and d[0] == "module":
            return self.module(d[1])
        return None

    def resolve(self, mod, e):
        """Definition a dotted name of a module stands for; ('unknown',) if that cannot be said."""
        if isinstance(e, ast.Name):
            return mod.lookup(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve(mod, e.value)
            if b and b[0] == "module":
                m = self.module(b[1])
                if isinstance(m, Module):
                    return m.lookup(e.attr)
                if isinstance(m, set) and e.attr in m and isinstance(self.module(b[1] + "." + e.attr), set):
                    return ("module", b[1] + "." + e.attr)
        return ("unknown",)


# ------------------------------------------------------------------------ classes
def decorators(f):
    return [ast.unparse(d) for d in f.decorator_list]


class Class:
    def __init__(self, world, node, mod):
        self.world, self.node, self.mod = world, node, mod
        self.name = node.name
        self.members = {}
        self.setters, self.deleters = set(), set()
        self.stored = set()
        for s in node.body:
            if isinstance(s, FUNC):
                ds = decorators(s)
                if any(d.endswith(".setter") for d in ds):
                    self.setters.add(s.name)
                    continue
                if any(d.endswith(".deleter") for d in ds):
                    self.deleters.add(s.name)
                    continue
                kind = "property" if "property" in ds or any(d.endswith("cached_property") for d in ds) else "static" if "staticmethod" in ds else "class" if "classmethod" in ds else "method" if not ds else "other"
                if kind == "property" and "property" not in ds:
                    self.setters.add(s.name)
                self.members[s.name] = (kind, s, self)
            elif isinstance(s, ast.ClassDef):
                self.members[s.name] = ("value", s, self)
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.members[n.id] = ("value", s, self)
                    if isinstance(n, FUNC):
                        self.members[n.name] = ("other", n, self)
                # x = property(...)
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) == "property":
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            self.members[t.id] = ("unknown", s, self)
        for f in ast.walk(node):
            if isinstance(f, FUNC) and f.args.args:
                me = f.args.args[0].arg
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                        self.stored.add(n.attr)
                    if isinstance(n, ast.Call) and ast.unparse(n.func) in ("setattr", "object.__setattr__", f"{me}.__dict__.update", f"vars({me}).update"):
                        self.stored.add("*")

    def bases(self):
        """Classes in resolution order; None where something is not known."""
        out = [self]
        for b in self.node.bases:
            d = self.world.resolve(self.mod, b)
            if d and d[0] == "class":
                c = klass(self.world, d)
                out += c.bases()
            elif isinstance(b, ast.Name) and b.id in ("object",):
                pass
            else:
                out.append(None)
        return out

    def find(self, attr):
        """(kind, node, class), 'stored', 'unknown' or None."""
        known = True
        for c in self.bases():
            if c is None:
                known = False
                continue
            if attr in c.members:
                return c.members[attr]
            if attr in c.stored:
                return "stored"
            if "*" in c.stored or "__getattribute__" in c.members:
                known = False
            if "__getattr__" in c.members and c.mod.name.split(".")[0] == self.world.package:
                known = False
        if hasattr(object, attr) or attr in ("__dict__", "__weakref__", "__module__", "__annotations__", "__slots__"):
            return "unknown"
        return None if known else "unknown"

    def settable(self, attr):
        for c in self.bases():
            if c is None:
                return True
            if attr in c.members:
                k = c.members[attr]
                if k[0] == "property":
                    return attr in c.setters
                return True
        return True


def klass(world, d):
    key = ("class", id(d[1]))
    if key not in world.cache:
        world.cache[key] = Class(world, d[1], d[2])
    return world.cache[key]


# ------------------------------------------------------------------------ types of local values
class Types:
    """Flow-insensitive classes of the variables of a function (only what every assignment agrees on)."""

    def __init__(self, world):
        self.world = world
        self.busy = set()

    def returned(self, func, mod, cls):
        key = ("ret", id(func))
        if key in self.world.cache:
            return self.world.cache[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        got = set()
        yields = False
        for n in own(func):
            if isinstance(n, ast.Return) and n.value is not None:
                got.add(self.of(n.value, func, mod, cls))
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                yields = True
        self.busy.discard(key)
        ds = decorators(func) if isinstance(func, FUNC) else []
        t = got.pop() if len(got) == 1 and not yields and not [d for d in ds if d not in ("property", "staticmethod", "classmethod")] else None
        self.world.cache[key] = t
        return t

    def variables(self, func, mod, cls):
        key = ("vars", id(func))
        if key in self.world.cache:
            return self.world.cache[key]
        self.world.cache[key] = {}
        types = {}

        def put(name, t):
            types.setdefault(name, set()).add(t)

        a = func.args
        params = a.posonlyargs + a.args + a.kwonlyargs
        for i, p in enumerate(params):
            if i == 0 and cls is not None and isinstance(func, FUNC) and "staticmethod" not in decorators(func):
                put(p.arg, cls if "classmethod" not in decorators(func) else None)
            elif p.annotation is not None:
                d = self.world.resolve(mod, p.annotation)
                put(p.arg, klass(self.world, d) if d and d[0] == "class" else None)
            else:
                put(p.arg, None)
        for p in (a.vararg, a.kwarg):
            if p:
                put(p.arg, None)
        for n in own(func):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                put(n.targets[0].id, ("expr", n.value))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                put(n.id, ("store", n))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                put(n.name, None)
        # plain assignments also show as a stored name
        plain = {id(n.targets[0]) for n in own(func) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)}
        out = {}
        for name, ts in types.items():
            ts = {t for t in ts if not (isinstance(t, tuple) and t[0] == "store" and id(t[1]) in plain)}
            if any(isinstance(t, tuple) and t[0] == "store" for t in ts) or None in ts:
                out[name] = None
                continue
            out[name] = ts
        self.world.cache[key] = out
        for name in list(out):
            if out[name] is not None:
                res = {self.of(t[1], func, mod, cls) if isinstance(t, tuple) else t for t in out[name]}
                out[name] = res.pop() if len(res) == 1 else None
        return out

    def of(self, e, func, mod, cls):
        """Class of an expression or None."""
        if isinstance(e, ast.Name):
            if func is not None and not isinstance(func, ast.Module):
                v = self.variables(func, mod, cls)
                if e.id in v:
                    return v[e.id] if isinstance(v[e.id], Class) else None
            return None
        if isinstance(e, ast.Call):
            d = self.callee(e.func, func, mod, cls)
            if d is None:
                return None
            if d[0] == "class":
                return klass(self.world, d)
            if d[0] in ("func", "bound"):
                return self.returned(d[1], d[2], d[3] if len(d) > 3 else None)
            if d[0] == "super":
                return None
        if isinstance(e, ast.Attribute):
            t = self.of(e.value, func, mod, cls)
            if isinstance(t, Class):
                m = t.find(e.attr)
                if isinstance(m, tuple) and m[0] == "property":
                    return self.returned(m[1], m[2].mod, m[2])
        return None

    def callee(self, f, func, mod, cls):
        """What is called: ('class', node, mod), ('func', node, mod), ('bound', node, mod, class) or None."""
        if isinstance(f, ast.Name):
            if local_name(func, f.id):
                return None
            d = mod.lookup(f.id)
            return d if d and d[0] in ("func", "class") else None
        if isinstance(f, ast.Attribute):
            d = None
            if isinstance(f.value, (ast.Name, ast.Attribute)) and not (isinstance(root_name(f.value), str) and local_name(func, root_name(f.value))):
                d = self.world.resolve(mod, f)
                if d and d[0] in ("func", "class"):
                    return d
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and cls is not None:
                for c in cls.bases()[1:]:
                    if c is None:
                        return None
                    if f.attr in c.members:
                        m = c.members[f.attr]
                        return ("bound", m[1], c.mod, c) if m[0] in ("method", "class") else ("func", m[1], c.mod) if m[0] == "static" else None
                return None
            t = self.of(f.value, func, mod, cls)
            if isinstance(t, Class):
                m = t.find(f.attr)
                if isinstance(m, tuple) and m[0] in ("method", "class"):
                    return ("bound", m[1], m[2].mod, m[2])
                if isinstance(m, tuple) and m[0] == "static":
                    return ("func", m[1], m[2].mod)
        return None


def root_name(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def own(func):
    """Nodes of a function without those of nested functions and classes."""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            out.append(c)
            if not isinstance(c, NESTED):
                go(c)
            else:
                for d in getattr(c, "decorator_list", []) + getattr(getattr(c, "args", None), "defaults", []) + [x for x in getattr(getattr(c, "args", None), "kw_defaults", []) if x]:
                    out.append(d)
                    go(d)

    body = func.body if isinstance(func.body, list) else [func.body]
    for s in body:
        out.append(s)
        if not isinstance(s, NESTED):
            go(s)
    return out


def comp_targets(func):
    out = set()
    for n in own(func):
        if isinstance(n, COMP):
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        out.add(id(x))
    return out


def bound(func):
    """Local names of a function."""
    out = set()
    a = getattr(func, "args", None)
    if a is not None:
        out |= {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {p.arg for p in (a.vararg, a.kwarg) if p}
    skip, outer = comp_targets(func), set()
    for n in own(func):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in skip:
            out.add(n.id)
        elif isinstance(n, FUNC + (ast.ClassDef,)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name.split(".")[0]) for x in n.names if x.name != "*"}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            outer |= set(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
    return out - outer


_BOUND = {}


def local_name(func, name):
    if func is None or isinstance(func, ast.Module):
        return False
    if id(func) not in _BOUND:
        _BOUND[id(func)] = (func, bound(func))
    if name in _BOUND[id(func)][1]:
        return True
    up = getattr(func, "_outer", None)
    return local_name(up, name) if up is not None else any(name == x.id for n in own(func) if isinstance(n, COMP) for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name))


# ------------------------------------------------------------------------ calls
def arity(call, f, implicit):
    """Why a call does not fit a function, or None."""
    a = f.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    given = list(call.args)
    star = any(isinstance(x, ast.Starred) for x in given)
    kws = [k.arg for k in call.keywords]
    dstar = None in kws
    names = set(pos[len(a.posonlyargs):]) | {p.arg for p in a.kwonlyargs}
    for k in kws:
        if k is not None and k not in names and a.kwarg is None:
            return f"no parameter {k!r}"
    taken = pos[:implicit]
    for k in kws:
        if k in taken and k is not None:
            return f"{k!r} is given twice"
    if star:
        return None
    n = len(given) + implicit
    if n > len(pos) and a.vararg is None:
        return f"{len(given)} positional arguments, at most {len(pos) - implicit} are accepted"
    for k in kws:
        if k is not None and k in pos[:n]:
            return f"{k!r} is given twice"
    if dstar:
        return None
    required = pos[: len(pos) - len(a.defaults)]
    missing = [p for i, p in enumerate(required) if i >= n and p not in kws]
    missing += [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and p.arg not in kws]
    if missing:
        return f"without {', '.join(map(repr, missing))}"
    return None


# ------------------------------------------------------------------------ assignment before use
class Flow:
    """Which locals may be assigned at each use. A use of a name that no path to it assigns is reported; so is a use
    right after an `if` without alternative or a `try` with a silent handler that is the only place it is assigned."""

    def __init__(self, func, names, report):
        self.names, self.report = names, report
        self.loops = []

    def uses(self, e, st):
        """Uses in an expression, in order of evaluation (nested scopes are not looked into)."""
        if e is None or st is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.names and e.id not in st:
                self.report(e)
            if isinstance(e.ctx, ast.Store):
                st.add(e.id)
            if isinstance(e.ctx, ast.Del):
                if e.id in self.names and e.id not in st:
                    self.report(e)
                st.discard(e.id)
            return
        if isinstance(e, ast.NamedExpr):
            self.uses(e.value, st)
            st.add(e.target.id)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.uses(d, st)
            return
        if isinstance(e, COMP):
            hidden = set()
            for g in e.generators:
                self.uses_in(g.iter, st, hidden)
                hidden |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    self.uses_in(c, st, hidden)
            for part in ((e.key, e.value) if isinstance(e, ast.DictComp) else (e.elt,)):
                self.uses_in(part, st, hidden)
            return
        for c in ast.iter_child_nodes(e):
            self.uses(c, st)

    def uses_in(self, e, st, hidden):
        s = st | hidden
        self.uses(e, s)
        st |= s - hidden

    def target(self, t, st):
        for c in ast.walk(t):
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load):
                self.uses(c, st)
        for c in ast.walk(t):
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                st.add(c.id)

    def block(self, body, st):
        """State after the statements; None: not reached."""
        fragile = {}
        for s in body:
            if st is None:
                return None
            if fragile:
                self.straight(s, fragile)
                fragile = {n: w for n, w in fragile.items() if n not in stored(s)}
            before = set(st)
            st = self.stmt(s, st)
            for n in self.only_here(s, before):
                fragile[n] = s
        return st

    def only_here(self, s, before):
        """Names first assigned by a statement on one way through it while another way goes on without them."""
        if isinstance(s, ast.If) and not s.orelse and not ends(s.body):
            return stored_block(s.body) - before
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            a, b = stored_block(s.body), stored_block(s.orelse)
            out = set()
            if not ends(s.body):
                out |= b - a - before
            if not ends(s.orelse):
                out |= a - b - before
            return out
        if isinstance(s, ast.Try) and s.handlers:
            a = stored_block(s.body) | stored_block(s.orelse)
            out = set()
            for h in s.handlers:
                if not ends(h.body) and not any(isinstance(n, (ast.Raise, ast.Return, ast.Continue, ast.Break)) for x in h.body for n in ast.walk(x)) and not calls_exit(h.body):
                    first = stored_block(s.body[:1]) if len(s.body) > 1 else set()
                    out |= a - first - stored_block(h.body) - before
            return out - stored_block(s.finalbody)
        return set()

    def straight(self, s, fragile):
        """A use that does not depend on anything after such a statement."""
        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.AnnAssign, ast.Raise)):
            parts = [s]
        elif isinstance(s, ast.If):
            parts = [s.test]
        elif isinstance(s, ast.For):
            parts = [s.iter]
        elif isinstance(s, ast.With):
            parts = [i.context_expr for i in s.items]
        else:
            return
        for p in parts:
            for n in plain_uses(p):
                if n.id in fragile and n.id in self.names:
                    self.report(n, fragile[n.id])

    def stmt(self, s, st):
        if isinstance(s, FUNC):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x]:
                self.uses(d, st)
            st.add(s.name)
        elif isinstance(s, ast.ClassDef):
            st.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            st |= {(x.asname or x.name.split(".")[0]) for x in s.names}
        elif isinstance(s, ast.Assign):
            self.uses(s.value, st)
            for t in s.targets:
                self.target(t, st)
        elif isinstance(s, ast.AugAssign):
            self.uses(s.value, st)
            if isinstance(s.target, ast.Name):
                self.uses(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            self.target(s.target, st)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.uses(s.value, st)
                self.target(s.target, st)
        elif isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.uses(c, st)
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].append((isinstance(s, ast.Break), set(st)))
            return None
        elif isinstance(s, ast.If):
            self.uses(s.test, st)
            a = self.block(s.body, set(st))
            b = self.block(s.orelse, set(st))
            return join(a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.uses(s.test, st)
            else:
                self.uses(s.iter, st)
            quiet = self.report
            self.report = lambda *a: None
            head = set(st)
            for _ in range(2):
                cur = set(head)
                if not isinstance(s, ast.While):
                    self.target(s.target, cur)
                self.loops.append([])
                end = self.block(s.body, cur)
                jumps = self.loops.pop()
                head |= end or set()
                for brk, x in jumps:
                    if not brk:
                        head |= x
            self.report = quiet
            cur = set(head)
            if not isinstance(s, ast.While):
                self.target(s.target, cur)
            else:
                self.uses(s.test, cur)
            self.loops.append([])
            end = self.block(s.body, cur)
            jumps = self.loops.pop()
            out = set(head) | (end or set())
            if not isinstance(s, ast.While):
                out |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            out = None if forever else self.block(s.orelse, out)
            for brk, x in jumps:
                if brk:
                    out = join(out, x)
            return out
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.uses(i.context_expr, st)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, st)
            return self.block(s.body, st)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            before = set(st)
            end = self.block(s.body, set(st))
            inside = before | stored_block(s.body)
            out = self.block(s.orelse, end) if end is not None else None
            for h in s.handlers:
                hs = set(inside)
                self.uses(h.type, hs)
                if h.name:
                    hs.add(h.name)
                r = self.block(h.body, hs)
                if r is not None and h.name:
                    r.discard(h.name)
                out = join(out, r)
            if s.finalbody:
                every = inside | stored_block(s.orelse)
                for h in s.handlers:
                    every |= stored_block(h.body)
                f = self.block(s.finalbody, every if out is None else set(every))
                if f is None:
                    return None
                return None if out is None else out | stored_block(s.finalbody)
            return out
        elif isinstance(s, ast.Match):
            self.uses(s.subject, st)
            out = set(st)
            for case in s.cases:
                cur = set(st) | {n.name for n in ast.walk(case.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name} | {n.rest for n in ast.walk(case.pattern) if isinstance(n, ast.MatchMapping) and n.rest}
                self.uses(case.guard, cur)
                out = join(out, self.block(case.body, cur))
            return out
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.uses(t, st)
        elif isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            pass
        else:
            for c in ast.iter_child_nodes(s):
                self.uses(c, st)
            if isinstance(s, ast.Expr) and calls_exit([s]):
                return None
        return st


def plain_uses(e):
    """Names read whatever the operands are (no conditional parts)."""
    if isinstance(e, ast.Name):
        return [e] if isinstance(e.ctx, ast.Load) else []
    if isinstance(e, (ast.Lambda,) + COMP):
        return []
    if isinstance(e, ast.IfExp):
        return plain_uses(e.test)
    if isinstance(e, ast.BoolOp):
        return plain_uses(e.values[0])
    return [n for c in ast.iter_child_nodes(e) for n in plain_uses(c)]


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a | b


def stored(s):
    return {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} | \
        {n.name for n in ast.walk(s) if isinstance(n, FUNC + (ast.ClassDef,))} | \
        {(x.asname or x.name.split(".")[0]) for n in ast.walk(s) if isinstance(n, (ast.Import, ast.ImportFrom)) for x in n.names}


def stored_block(body):
    out = set()
    for s in body:
        out |= stored(s)
    return out


def calls_exit(body):
    return any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit", "exit", "quit", "os._exit") or
               (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func).endswith("parser.error")) for s in body)


def ends(body):
    """The block always leaves."""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)) or calls_exit([s]):
        return True
    if isinstance(s, ast.If):
        return ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With):
        return ends(s.body)
    if isinstance(s, ast.Try):
        return ends(s.finalbody) or (ends(s.body) or ends(s.orelse)) and all(ends(h.body) for h in s.handlers)
    return False
