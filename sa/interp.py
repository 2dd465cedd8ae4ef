"""Gated abstract interpreter for the Python subset magnopy is written in.

The interpreter walks the syntax tree of /repo's current sources (nothing of
magnopy is imported or run).  Control flow is if-converted: both branches of
every undecided condition are analysed once, on one abstract state, and every
assignment is gated by the guard (BDD) under which it happens, so values at
merge points are gated joins.  Functions, properties, iterators and operators
of the repository are analysed in the context of their call.
"""
import ast
import builtins as _bi
import os
import re
from fractions import Fraction

import numpy as np

from . import num as N
from .bdd import FALSE, M, TRUE
from .num import Num
from .values import *

MAXCASES = 400


class Loc:
    __slots__ = ("module", "line", "func")

    def __init__(self, module, line, func):
        self.module, self.line, self.func = module, line, func

    def __str__(self):
        return f"{self.module.replace('.', '/')}:{self.line} in {self.func}"


class Frame:
    __slots__ = ("vars", "globals", "func", "entry", "parent", "rets", "loops", "yields",
                 "locals", "module", "excstack", "globalnames", "nonlocals", "cls", "iscomp")

    def __init__(self, module, func=None, parent=None, entry=TRUE):
        self.vars = {}
        self.module = module
        self.globals = module.vars
        self.func = func
        self.entry = entry
        self.parent = parent
        self.rets = []
        self.loops = []
        self.yields = None
        self.locals = None
        self.excstack = []
        self.globalnames = ()
        self.nonlocals = ()
        self.cls = None
        self.iscomp = False


class Loop:
    __slots__ = ("brk", "cont")

    def __init__(self):
        self.brk = FALSE
        self.cont = FALSE


class ProgramError(Exception):
    pass


def func_locals(node):
    """Names bound in a function body and whether it is a generator."""
    names, gl, nl = set(), set(), set()
    gen = False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            stack += n.decorator_list
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    names.add(w.target.id)
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
        stack += list(ast.iter_child_nodes(n))
    return names - gl - nl, gl, nl, gen


_BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
    ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|",
    ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
}
_DUNDER = {
    "+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod",
    "**": "pow", "@": "matmul", "&": "and", "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift",
}


def render_at(s, k):
    """The text of a string with numeric holes at sample point k."""
    out = []
    for p in s.parts if isinstance(s, TStr) else (s,):
        if isinstance(p, str):
            out.append(p)
            continue
        if isinstance(p, Piece) and p.length is not None:
            out.append("0" * p.length)
            continue
        v = p.value if isinstance(p, Hole) else None
        if isinstance(v, (bool, int)):
            out.append(format(v, p.spec))
        elif isinstance(v, Num):
            x = complex(v.v[k])
            x = x if v.iscomplex else x.real
            out.append(format(int(x) if v.isint and not v.npf else x, p.spec))
        else:
            raise Undecided("text of a string with holes")
    return "".join(out)


def text_number(s, f, what, sign):
    """Number computed from the text (its length, a count): an integer term over the samples."""
    vals = [float(f(render_at(s, k))) for k in range(N.K)]
    return Num(np.array(vals), np.zeros(N.K), sign, None, False, True, what, (repr(s),))


class Interp:
    def __init__(self, root="/repo/src"):
        self.root = root
        self.pc = TRUE
        self.analysing = False
        self.handlers = [[]]
        self.modules = {}
        self.depth = 0
        self.maxdepth = 60
        self.visited = set()
        self.funcs = set()
        self.loc = None
        self.fs = {}
        self.effects = []
        self.steps = 0
        self.maxsteps = 3_000_000
        self.hooks = {}            # qualified function name -> host replacement
        self.frames = []
        self.stdout = []
        self.logged = []           # (guard, place) of errors reported to a logger
        G.I = self
        from . import models
        models.setup(self)

    # ------------------------------------------------------------------ guards
    def under(self, g):
        return M.conj(self.pc, g)

    def raise_(self, exc):
        if exc.wloc is None:
            exc.wloc = self.loc
        self.handlers[-1].append((self.pc, exc))
        self.pc = FALSE
        raise Dead

    def mkexc(self, name, *args):
        cls = self.excs[name] if isinstance(name, str) else name
        e = Obj(cls, self.pc)
        e.fields["args"] = tuple(args)
        return e

    def throw(self, name, msg=""):
        self.raise_(self.mkexc(name, msg))

    def join(self, cases):
        """Gated join of [(guard, value)]."""
        flat = []
        for g, v in cases:
            if g == FALSE:
                continue
            if isinstance(v, G):
                for h, w in v.cases:
                    k = M.conj(g, h)
                    if k != FALSE:
                        flat.append((k, w))
            else:
                flat.append((g, v))
        if not flat:
            raise Dead
        if len(flat) == 1:
            return flat[0][1]
        out = []
        boolg = None
        for g, v in flat:
            if isinstance(v, (bool, B)):
                b = v.g if isinstance(v, B) else (TRUE if v else FALSE)
                if boolg is None:
                    boolg = [FALSE, FALSE]
                boolg[0] = M.disj(boolg[0], g)
                boolg[1] = M.disj(boolg[1], M.conj(g, b))
                continue
            for i, (h, w) in enumerate(out):
                if self.leaf_same(v, w):
                    out[i] = (M.disj(h, g), w)
                    break
                if type(v) is tuple and type(w) is tuple and len(v) == len(w):
                    out[i] = (M.disj(h, g), tuple(self.join([(h, y), (g, x)]) for x, y in zip(v, w)))
                    break
            else:
                out.append((g, v))
        if boolg is not None:
            dom, t = boolg
            if not out:
                if M.implies(dom, t):
                    return True
                if M.conj(dom, t) == FALSE:
                    return False
                return B(t)
            f = M.diff(dom, t)
            if t != FALSE:
                out.append((t, True))
            if f != FALSE:
                out.append((f, False))
        if len(out) == 1:
            return out[0][1]
        if len(out) > MAXCASES:
            raise Undecided("too many cases in a gated value")
        return G(out)

    def leaf_same(self, a, b):
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta is Num and tb is Num:
            if (a.c is None) != (b.c is None):
                return False
            if a.c is not None:
                return a.c == b.c
            return a.v.dtype == b.v.dtype and bool((a.v == b.v).all()) or N.same(a, b, 1e-13)
        if ta is not tb:
            return False
        if ta in (int, str, bool, type(None)):
            return a == b
        if ta is TStr:
            return len(a.parts) == len(b.parts) and all(self._part_same(x, y) for x, y in zip(a.parts, b.parts))
        if ta is Bound:
            return a.self is b.self and a.func is b.func
        if ta is tuple:
            return len(a) == len(b) and all(self.leaf_same(x, y) for x, y in zip(a, b))
        return False

    def _part_same(self, x, y):
        if isinstance(x, str) or isinstance(y, str):
            return x == y
        if isinstance(x, Hole) and isinstance(y, Hole):
            return x.spec == y.spec and self.leaf_same(x.value, y.value)
        return x is y

    def restrict(self, v):
        """Simplify a value under the current guard."""
        if isinstance(v, G):
            keep = [(g, w) for g, w in v.cases if M.conj(g, self.pc) != FALSE]
            if len(keep) == 1:
                return keep[0][1]
            if not keep:
                raise Dead
            if len(keep) < len(v.cases):
                return G(keep)
            return v
        if isinstance(v, B):
            if M.implies(self.pc, v.g):
                return True
            if M.conj(self.pc, v.g) == FALSE:
                return False
        return v

    def mkbool(self, g):
        if M.conj(self.pc, g) == FALSE:
            return False
        if M.implies(self.pc, g):
            return True
        return B(g)

    def lift(self, fn, *vals):
        """Apply fn to the leaves of gated arguments."""
        vals = [self.restrict(v) for v in vals]
        if not any(isinstance(v, G) for v in vals):
            return fn(*vals)
        return self._lift(fn, vals, 0)

    def _lift(self, fn, vals, i):
        while i < len(vals) and not isinstance(vals[i], G):
            i += 1
        if i == len(vals):
            return fn(*vals)
        pc0 = self.pc
        out, tot = [], FALSE
        for g, v in vals[i].cases:
            p = M.conj(pc0, g)
            if p == FALSE:
                continue
            self.pc = p
            try:
                r = self._lift(fn, vals[:i] + [v] + [self.restrict(w) for w in vals[i + 1:]], i + 1)
            except Dead:
                continue
            out.append((self.pc, r))
            tot = M.disj(tot, self.pc)
        self.pc = tot
        if tot == FALSE:
            raise Dead
        return self.join(out)

    def case(self, branches):
        """Evaluate [(guard, thunk)] under the current guard and join the results."""
        pc0 = self.pc
        out, tot = [], FALSE
        for g, th in branches:
            p = M.conj(pc0, g)
            if p == FALSE:
                continue
            self.pc = p
            try:
                r = th()
            except Dead:
                continue
            out.append((self.pc, r))
            tot = M.disj(tot, self.pc)
        self.pc = tot
        if tot == FALSE:
            raise Dead
        return self.join(out)

    def gate(self, born, new, old):
        """Value of a location after writing new under the current guard."""
        if self.pc == TRUE or M.diff(born, self.pc) == FALSE:
            return new
        if old is Unbound and new is Unbound:
            return Unbound
        return self.join([(self.pc, new), (M.neg(self.pc), old)])

    # ------------------------------------------------------------------- truth
    def truth(self, v):
        """Guard under which v is true (may call __bool__/__len__)."""
        v = self.restrict(v)
        if v is None:
            return FALSE
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, B):
            return v.g
        if isinstance(v, (int, str, tuple)):
            return TRUE if v else FALSE
        if isinstance(v, Num):
            return M.neg(self.zero_guard(v))
        if isinstance(v, G):
            out = FALSE
            pc0 = self.pc
            tot = FALSE
            for g, w in v.cases:
                p = M.conj(pc0, g)
                if p == FALSE:
                    continue
                self.pc = p
                try:
                    t = self.truth(w)
                except Dead:
                    continue
                tot = M.disj(tot, self.pc)
                out = M.disj(out, M.conj(self.pc, t))
            self.pc = tot
            if tot == FALSE:
                raise Dead
            return out
        if isinstance(v, TStr):
            return TRUE
        if isinstance(v, PList):
            r = FALSE
            for g, _ in v.el:
                r = M.disj(r, g)
            return r
        if isinstance(v, PDict):
            r = FALSE
            for e in v.d.values():
                r = M.disj(r, e[2])
            return r
        if isinstance(v, PSet):
            r = FALSE
            for e in v.d.values():
                r = M.disj(r, e[1])
            return r
        if isinstance(v, Range):
            return TRUE if len(range(v.start, v.stop, v.step)) else FALSE
        if isinstance(v, Arr):
            if v.data.size == 1:
                return self.truth(v.data.reshape(-1)[0])
            if v.data.size == 0:
                return FALSE
            self.throw("ValueError", "The truth value of an array with more than one element is ambiguous")
        if isinstance(v, Obj):
            f = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(Bound(v, f), [], {}))
            f = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(Bound(v, f), [], {}))
            return TRUE
        if isinstance(v, (Func, Bound, Cls, HostFn, BType, Module, ExtMod, HostIter, Ignore)):
            return TRUE
        if isinstance(v, BytesV):
            return TRUE if v.s else FALSE
        if isinstance(v, Opaque):
            return M.var(("true", id(v), v.name))
        raise Undecided(f"truth value of {type(v).__name__}")

    generic = True
    # inputs are taken from the region around the sample points in which the signs of all terms are those at the samples
    # (for checks that fix the pattern of signs themselves)
    region = False

    def sign_guards(self, d):
        """(negative, zero, positive) guards of a number."""
        d = N.const(d)
        if d.c is not None:
            return (TRUE if d.c < 0 else FALSE, TRUE if d.c == 0 else FALSE, TRUE if d.c > 0 else FALSE)
        if d.const:
            z = complex(d.v[0])
            if z != z:
                return FALSE, FALSE, FALSE
            if z.imag == 0:
                if abs(z.real) <= 300 * d.err[0]:
                    return FALSE, TRUE, FALSE
                return (TRUE, FALSE, FALSE) if z.real < 0 else (FALSE, FALSE, TRUE)
        if d.sign == "+":
            return FALSE, FALSE, TRUE
        if d.sign == "-":
            return TRUE, FALSE, FALSE
        if d.sign == "0" or N.is_zero(d):
            return FALSE, TRUE, FALSE
        if np.isnan(d.v).any():
            return FALSE, FALSE, FALSE
        if np.isneginf(np.real(d.v)).all():
            return TRUE, FALSE, FALSE
        if np.isposinf(np.real(d.v)).all():
            return FALSE, FALSE, TRUE
        if d.iscomplex:
            if self.generic:
                return FALSE, FALSE, TRUE
            raise_c = N.fingerprint(d)
            z = M.var(("zero", raise_c, N.show(d, 3)))
            n = M.neg(z)
            return FALSE, z, n
        if self.region:
            if (d.v < 0).all():
                return TRUE, FALSE, FALSE
            if (d.v > 0).all():
                return FALSE, FALSE, TRUE
        s = abs(d.v[0]) or 1.0
        flip = d.v[0] < 0
        key = tuple(f"{float(x) / s * (-1 if flip else 1):.8g}" for x in d.v)
        name = N.show(N.neg(d) if flip else d, 4)
        # inputs are in general position: a term that is not identically zero is not zero
        if self.generic:
            at = tuple(bool(abs(x) <= 300 * e) for x, e in zip(d.v, d.err))
            zero = M.var(("null", at + key, name + " = 0")) if any(at) else FALSE
        else:
            zero = M.var(("zero", key, name + " = 0"))
        if d.sign in (">=", "<="):
            nz = M.neg(zero)
            return (FALSE, zero, nz) if d.sign == ">=" else (nz, zero, FALSE)
        neg = M.var(("neg", key, name + " < 0"))
        if self.generic:
            neg = M.conj(neg, M.neg(zero))
        else:
            zero = M.conj(zero, M.neg(neg))
        pos = M.neg(M.disj(neg, zero))
        if flip:
            neg, pos = pos, neg
        return neg, zero, pos

    def zero_guard(self, d):
        return self.sign_guards(d)[1]

    # ------------------------------------------------------------------- types
    def typename(self, v):
        if v is None:
            return "NoneType"
        if isinstance(v, (bool, B)):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, Num):
            if v.iscomplex:
                return "complex"
            return "int" if v.isint and v.c is None and not v.npf else "float"
        if isinstance(v, (str, TStr)):
            return "str"
        if isinstance(v, tuple):
            return "tuple"
        if isinstance(v, PList):
            return "list"
        if isinstance(v, PDict):
            return "dict"
        if isinstance(v, PSet):
            return "frozenset" if v.frozen else "set"
        if isinstance(v, Arr):
            return "ndarray"
        if isinstance(v, Obj):
            return v.cls.name
        if isinstance(v, (Func, HostFn)):
            return "function"
        if isinstance(v, Bound):
            return "method"
        if isinstance(v, (Cls, BType)):
            return "type"
        if isinstance(v, Range):
            return "range"
        if isinstance(v, BytesV):
            return "bytes"
        if isinstance(v, slice):
            return "slice"
        if isinstance(v, HostIter):
            return "iterator"
        return type(v).__name__

    _ITER = {"str", "tuple", "list", "dict", "set", "frozenset", "ndarray", "range", "bytes", "iterator"}
    _SEQ = {"str", "tuple", "list", "range", "bytes"}

    def isinstance_leaf(self, v, t):
        if isinstance(t, tuple):
            r = False
            for x in t:
                r = r or self.isinstance_leaf(v, x)
            return r
        if isinstance(t, Cls):
            if isinstance(v, Obj):
                return v.cls.issub(t)
            if isinstance(v, (Opaque, Ignore)):
                raise Undecided(f"isinstance of {v}")
            return False
        if isinstance(t, BType):
            n = t.name
            if isinstance(v, Opaque) and not isinstance(v, NotNumeric):
                raise Undecided(f"isinstance of {v}")
            tn = self.typename(v)
            if n == "object":
                return True
            if n in ("Iterable",):
                if isinstance(v, Obj):
                    return v.cls.has("__iter__")
                return tn in self._ITER
            if n in ("Sequence",):
                return tn in self._SEQ
            if n in ("Mapping",):
                return tn == "dict"
            if n in ("Callable",):
                return isinstance(v, (Func, Bound, HostFn, Cls, BType))
            if n in ("int", "Integral", "integer"):
                return tn in ("int", "bool") if n != "integer" else tn == "int"
            if n in ("float", "floating", "float64"):
                return tn == "float"
            if n in ("Number", "Real", "number", "Complex"):
                return tn in ("int", "float", "bool") or (tn == "complex" and n != "Real")
            if n == "complex":
                return tn == "complex"
            if n == "Sized":
                return tn in self._ITER
            return tn == n
        if isinstance(t, Ignore):
            return False
        if t is None:
            self.throw("TypeError", "isinstance() arg 2 must be a type")
        raise Undecided(f"isinstance with {t}")

    # ----------------------------------------------------------------- modules
    def modpath(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name, path=None):
        """Load a repository module (analyse its top level)."""
        if name in self.modules:
            return self.modules[name]
        stub = path is not None
        pkg = False
        if not stub:
            path, pkg = self.modpath(name)
        if path is None:
            return None
        if "." in name and not stub:
            parent = self.load(name.rsplit(".", 1)[0])
        m = Module(name, path)
        self.modules[name] = m
        with open(path, encoding="utf-8") as f:
            m.tree = ast.parse(f.read(), path)
        m.vars["__name__"] = name
        m.vars["__file__"] = path
        m.vars["__doc__"] = None
        m.pkg = name if pkg else name.rpartition(".")[0]
        saved = (self.pc, self.handlers, self.loc, self.frames)
        self.pc, self.handlers = TRUE, [[]]
        fr = Frame(m)
        fr.vars = m.vars
        self.frames = self.frames + [fr]
        try:
            self.block(m.tree.body, fr)
        except Dead:
            exc = self.handlers[0][-1][1] if self.handlers[0] else None
            raise ProgramError(f"importing {name} fails: {self.show_exc(exc)}")
        finally:
            self.pc, self.handlers, self.loc, self.frames = saved
        m.done = True
        if "." in name and not stub:
            par, _, child = name.rpartition(".")
            self.modules[par].vars.setdefault(child, m)
        return m

    def show_exc(self, e):
        if e is None:
            return "?"
        msg = e.fields.get("args", ())
        return f"{e.cls.name}({', '.join(str(a) for a in msg)[:200]}) at {e.wloc}"

    def import_module(self, name):
        if name == "magnopy" or name.startswith("magnopy."):
            m = self.load(name)
            if m is None:
                self.throw("ModuleNotFoundError", name)
            return m
        m = self.extmods.get(name)
        if m is None:
            top = name.split(".")[0]
            if top in self.stub_modules:
                return self.load("stub:" + top, self.stub_modules[top])
            if top in self.extmods:
                cur = self.extmods[top]
                for part in name.split(".")[1:]:
                    if isinstance(cur, ExtMod) and part in cur.attrs:
                        cur = cur.attrs[part]
                    else:
                        cur = None
                        break
                if cur is not None:
                    return cur
            return Ignore(name)
        return m

    # -------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided("analysis budget exceeded")
        self.loc = (fr.module.name, s.lineno, fr.func.name if fr.func else "<module>")
        if fr.module.name[:5] != "stub:":
            self.visited.add((fr.module.name, s.lineno))
        getattr(self, "s_" + type(s).__name__, self.s_unknown)(s, fr)

    def s_unknown(self, s, fr):
        raise Undecided(f"statement {type(s).__name__}")

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = _BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr)
            v = self.eval(s.value, fr)
            self.assign(t, self.inplace(op, old, v), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            v = self.eval(s.value, fr)
            self.setattr(o, t.attr, self.inplace(op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.index(t.slice, fr)
            old = self.getitem(o, k)
            v = self.eval(s.value, fr)
            self.setitem(o, k, self.inplace(op, old, v))
        else:
            raise Undecided("augmented assignment target")

    def s_Delete(self, s, fr):
        for t in s.targets:
            self.delete(t, fr)

    def delete(self, t, fr):
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.index(t.slice, fr)
            self.lift(self.delitem1, o, k)
        elif isinstance(t, ast.Name):
            self.name(t.id, fr)
            self.store(fr, t.id, Unbound)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.lift(lambda x: self.delattr1(x, t.attr), o)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, fr)
        else:
            raise Undecided("delete target")

    def s_Return(self, s, fr):
        v = self.eval(s.value, fr) if s.value is not None else None
        fr.rets.append((self.pc, v))
        self.pc = FALSE
        raise Dead

    def s_If(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        pc0 = self.pc
        p1, p2 = M.conj(pc0, c), M.diff(pc0, c)
        out = FALSE
        for p, body in ((p1, s.body), (p2, s.orelse)):
            if p == FALSE:
                continue
            self.pc = p
            try:
                self.block(body, fr)
                out = M.disj(out, self.pc)
            except Dead:
                pass
        self.pc = out
        if out == FALSE:
            raise Dead

    def s_While(self, s, fr):
        loop = Loop()
        fr.loops.append(loop)
        n = 0
        elsepc = FALSE
        try:
            while True:
                n += 1
                if n > 20000:
                    raise Undecided("loop without a bound")
                try:
                    c = self.truth(self.eval(s.test, fr))
                except Dead:
                    self.pc = FALSE
                    break
                pc0 = self.pc
                p = M.conj(pc0, c)
                elsepc = M.disj(elsepc, M.diff(pc0, c))
                if p == FALSE:
                    self.pc = FALSE
                    break
                if p != pc0 and n > self.max_symbolic_iterations:
                    raise Undecided("loop bound depends on symbolic values")
                self.pc = p
                try:
                    self.block(s.body, fr)
                except Dead:
                    pass
                self.pc = M.disj(self.pc, loop.cont)
                loop.cont = FALSE
                if self.pc == FALSE:
                    break
        finally:
            fr.loops.pop()
        self._loop_end(s, fr, elsepc, loop)

    max_symbolic_iterations = 40

    def _loop_end(self, s, fr, elsepc, loop):
        self.pc = elsepc
        out = elsepc
        if s.orelse and elsepc != FALSE:
            try:
                self.block(s.orelse, fr)
                out = self.pc
            except Dead:
                out = FALSE
        self.pc = M.disj(out, loop.brk)
        if self.pc == FALSE:
            raise Dead

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        loop = Loop()
        fr.loops.append(loop)
        try:
            for g, v in self.iterate(it):
                pc0 = self.pc
                run, skip = M.conj(pc0, g), M.diff(pc0, g)
                if run == FALSE:
                    continue
                self.pc = run
                try:
                    self.assign(s.target, v, fr)
                    self.block(s.body, fr)
                except Dead:
                    self.pc = FALSE
                self.pc = M.disj(M.disj(self.pc, loop.cont), skip)
                loop.cont = FALSE
        except Dead:
            self.pc = FALSE
        finally:
            fr.loops.pop()
        self._loop_end(s, fr, self.pc, loop)

    def s_Break(self, s, fr):
        lp = fr.loops[-1]
        lp.brk = M.disj(lp.brk, self.pc)
        self.pc = FALSE
        raise Dead

    def s_Continue(self, s, fr):
        lp = fr.loops[-1]
        lp.cont = M.disj(lp.cont, self.pc)
        self.pc = FALSE
        raise Dead

    def s_Raise(self, s, fr):
        if s.exc is None:
            if not fr.excstack:
                self.throw("RuntimeError", "No active exception to reraise")
            for g, e in fr.excstack[-1]:
                p = M.conj(self.pc, g)
                if p != FALSE:
                    self.handlers[-1].append((p, e))
            self.pc = FALSE
            raise Dead
        v = self.eval(s.exc, fr)

        def go(x):
            if isinstance(x, Cls):
                x = self.call(x, [], {})
            if not isinstance(x, Obj):
                self.throw("TypeError", "exceptions must derive from BaseException")
            self.raise_(x)

        self.lift(go, v)

    def s_Assert(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        pc0 = self.pc
        bad = M.diff(pc0, c)
        if bad != FALSE:
            self.pc = bad
            try:
                self.throw("AssertionError", "")
            except Dead:
                pass
        self.pc = M.conj(pc0, c)
        if self.pc == FALSE:
            raise Dead

    def exc_match(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        if isinstance(t, Cls):
            return e.cls.issub(t)
        if isinstance(t, Ignore):
            return False
        raise Undecided(f"except {t}")

    def s_Try(self, s, fr):
        pc_in = self.pc
        fin = bool(s.finalbody)
        outer = self.handlers
        if fin:
            fcoll = []
            self.handlers = self.handlers + [fcoll]
        coll = []
        base = self.handlers
        self.handlers = base + [coll]
        try:
            try:
                self.block(s.body, fr)
                pcn = self.pc
            except Dead:
                pcn = FALSE
        finally:
            self.handlers = base
        out = pcn
        if s.orelse and pcn != FALSE:
            self.pc = pcn
            try:
                self.block(s.orelse, fr)
                out = self.pc
            except Dead:
                out = FALSE
        pend = coll
        for h in s.handlers:
            if not pend:
                break
            t = None
            if h.type is not None:
                self.pc = FALSE
                for g, _ in pend:
                    self.pc = M.disj(self.pc, g)
                t = self.eval(h.type, fr)
            m, rest = [], []
            for g, e in pend:
                (m if t is None or self.exc_match(e, t) else rest).append((g, e))
            pend = rest
            if not m:
                continue
            self.pc = FALSE
            for g, _ in m:
                self.pc = M.disj(self.pc, g)
            fr.excstack.append(m)
            try:
                if h.name:
                    self.store(fr, h.name, self.join(list(m)))
                self.block(h.body, fr)
                out = M.disj(out, self.pc)
            except Dead:
                pass
            finally:
                fr.excstack.pop()
        for g, e in pend:
            self.handlers[-1].append((g, e))
        if fin:
            self.handlers = outer
            self.pc = pc_in
            try:
                self.block(s.finalbody, fr)
                alive = self.pc
            except Dead:
                alive = FALSE
            for g, e in fcoll:
                g = M.conj(g, alive)
                if g != FALSE:
                    self.handlers[-1].append((g, e))
            out = M.conj(out, alive)
        self.pc = out
        if out == FALSE:
            raise Dead

    def s_With(self, s, fr):
        self._with(s.items, s.body, fr)

    def _with(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        v = self.lift(self.enter, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        pc_in = self.pc
        try:
            self._with(items[1:], body, fr)
            out = self.pc
        except Dead:
            out = FALSE
        self.pc = pc_in
        try:
            self.lift(self.exit, cm)
        except Dead:
            out = FALSE
        self.pc = out
        if out == FALSE:
            raise Dead

    def enter(self, cm):
        if isinstance(cm, Obj):
            f = cm.cls.lookup("__enter__")
            if f is not None:
                return self.call(Bound(cm, f), [], {})
            self.throw("TypeError", f"'{cm.cls.name}' object does not support the context manager protocol")
        return cm

    def exit(self, cm):
        if isinstance(cm, Obj):
            f = cm.cls.lookup("__exit__")
            if f is not None:
                self.call(Bound(cm, f), [None, None, None], {})
        return None

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(fr, a.asname, m)
            else:
                self.store(fr, a.name.split(".")[0], self.import_module(a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        name = s.module or ""
        if s.level:
            pkg = fr.module.pkg
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                if not isinstance(m, Module):
                    raise Undecided(f"import * from {name}")
                al = m.vars.get("__all__")
                if al is not None:
                    names = [v for _, v in al.el]
                else:
                    names = [k for k in m.vars if not k.startswith("_")]
                for n in names:
                    if n not in m.vars:
                        self.throw("AttributeError", f"module {name} has no attribute {n}")
                    self.store(fr, n, m.vars[n])
                continue
            if isinstance(m, Module):
                if a.name in m.vars:
                    v = m.vars[a.name]
                else:
                    v = self.load(name + "." + a.name)
                    if v is None:
                        self.throw("ImportError", f"cannot import name {a.name} from {name}")
            else:
                v = self.getattr(m, a.name)
            self.store(fr, a.asname or a.name, v)

    def s_Global(self, s, fr):
        pass

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr)
        self.store(fr, s.name, v)

    def mkfunc(self, node, fr):
        a = node.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.eval(d, fr)
        closure = fr if (fr.func is not None or fr.iscomp) else None
        f = Func(node, fr.module, closure, None, defaults, kwd, fr.cls)
        return f

    def decorate(self, d, v, fr):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.eval(d.value, fr)
            if isinstance(p, Prop):
                q = Prop(p.fget, p.fset, p.fdel)
                setattr(q, {"setter": "fset", "getter": "fget", "deleter": "fdel"}[d.attr], v)
                return q
        dv = self.eval(d, fr)
        return self.call(dv, [v], {})

    def s_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            v = self.eval(b, fr)
            if isinstance(v, Cls):
                bases.append(v)
            elif isinstance(v, BType) and v.name == "object":
                pass
            elif isinstance(v, Ignore):
                pass
            else:
                raise Undecided(f"base class {v}")
        body = Frame(fr.module, fr.func, fr.parent, self.pc)
        body.locals = None
        cls = Cls(s.name, bases or [self.objectcls], {}, fr.module, s)
        body.vars = cls.ns
        body.cls = cls
        body.parent = fr if fr.func is not None else None
        cls.ns["__module__"] = fr.module.name
        cls.ns["__qualname__"] = s.name
        self.frames.append(body)
        try:
            self.block(s.body, body)
        finally:
            self.frames.pop()
        v = cls
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr)
        self.store(fr, s.name, v)

    def s_Match(self, s, fr):
        subj = self.eval(s.subject, fr)
        out = FALSE
        for c in s.cases:
            if self.pc == FALSE:
                break
            g = self.match(c.pattern, subj, fr)
            if c.guard is not None:
                pc0 = self.pc
                self.pc = M.conj(pc0, g)
                if self.pc != FALSE:
                    g = M.conj(g, self.truth(self.eval(c.guard, fr)))
                self.pc = pc0
            pc0 = self.pc
            p = M.conj(pc0, g)
            if p != FALSE:
                self.pc = p
                try:
                    self.block(c.body, fr)
                    out = M.disj(out, self.pc)
                except Dead:
                    pass
            self.pc = M.diff(pc0, g)
        out = M.disj(out, self.pc)
        self.pc = out
        if out == FALSE:
            raise Dead

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.lift(lambda x: x is p.value, v))
        if isinstance(p, ast.MatchOr):
            g = FALSE
            for q in p.patterns:
                g = M.disj(g, self.match(q, v, fr))
            return g
        if isinstance(p, ast.MatchAs):
            g = TRUE if p.pattern is None else self.match(p.pattern, v, fr)
            if p.name:
                self.store(fr, p.name, v)
            return g
        raise Undecided("match pattern")

    # ------------------------------------------------------------------- names
    def store(self, fr, name, v):
        if name in fr.globalnames:
            fr.globals[name] = self.gate(TRUE, v, fr.globals.get(name, Unbound))
            return
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = self.gate(p.entry, v, p.vars[name])
                    return
                p = p.parent
        fr.vars[name] = self.gate(fr.entry, v, fr.vars.get(name, Unbound))

    def name(self, n, fr):
        f = fr
        first = True
        while f is not None:
            if n in f.vars and n not in f.globalnames and not (f.cls is not None and not first and f.vars is f.cls.ns):
                return self.bound(f.vars[n], n, f.locals is not None and first)
            if f.locals is not None and n in f.locals:
                if first:
                    self.throw("UnboundLocalError", f"cannot access local variable '{n}' where it is not associated with a value")
                self.throw("NameError", f"cannot access free variable '{n}'")
            f = f.parent
            first = False
        if n in fr.globals:
            return self.bound(fr.globals[n], n, False)
        if n in self.builtins:
            return self.builtins[n]
        self.throw("NameError", f"name '{n}' is not defined")

    def bound(self, v, n, local):
        v = self.restrict(v)
        if v is Unbound:
            self.throw("UnboundLocalError" if local else "NameError", f"'{n}' is not bound")
        if isinstance(v, G) and any(w is Unbound for _, w in v.cases):
            def chk(w):
                if w is Unbound:
                    self.throw("UnboundLocalError" if local else "NameError", f"'{n}' is not bound")
                return w
            return self.lift(chk, v)
        return v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, len(t.elts), star[0] if star else None)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Undecided("assignment target")

    def unpack(self, v, n, star=None):
        def go(x):
            if isinstance(x, (int, Num, bool, B)) or x is None:
                self.throw("TypeError", f"cannot unpack non-iterable {self.typename(x)} object")
            items = self.listof(x)
            if star is None:
                if len(items) != n:
                    self.throw("ValueError", f"expected {n} values to unpack, got {len(items)}")
                return tuple(items)
            if len(items) < n - 1:
                self.throw("ValueError", "not enough values to unpack")
            k = len(items) - (n - 1)
            mid = self.mklist(items[star:star + k])
            return tuple(items[:star]) + (mid,) + tuple(items[star + k:])

        r = self.lift(go, v)
        if isinstance(r, tuple):
            return r
        # gated: tuples were joined elementwise when possible
        return tuple(self.lift(lambda t, i=i: t[i], r) for i in range(n))

    # ------------------------------------------------------------- containers
    def mklist(self, items):
        return PList([(TRUE, x) for x in items], self.pc)

    def definite(self, els):
        """Items of a gated sequence if their presence is certain here."""
        out = []
        for g, v in els:
            if g == TRUE or M.implies(self.pc, g):
                out.append(v)
            elif M.conj(self.pc, g) == FALSE:
                continue
            else:
                return None
        return out

    def listof(self, v):
        """Host list of the items of an iterable (all present)."""
        its = list(self.iterate(v))
        d = self.definite(its)
        if d is None:
            raise Undecided("sequence of uncertain length")
        return d

    def iterate(self, v):
        """Yield (guard, item); may change the current guard (StopIteration)."""
        v = self.restrict(v)
        if isinstance(v, G):
            # iterate the cases one after another; the body sees disjoint guards
            pc0 = self.pc
            items = []
            for g, w in v.cases:
                p = M.conj(pc0, g)
                if p == FALSE:
                    continue
                self.pc = p
                sub = list(self.iterate(w))
                if self.pc != p:
                    raise Undecided("iteration over gated iterators")
                items.append((g, sub))
            self.pc = pc0
            n = max(len(s) for _, s in items)
            for i in range(n):
                cs = [(M.conj(g, s[i][0]), s[i][1]) for g, s in items if i < len(s)]
                tot = FALSE
                for g, _ in cs:
                    tot = M.disj(tot, g)
                if tot == FALSE:
                    continue
                yield tot, self.join(cs)
            return
        if isinstance(v, tuple):
            for x in v:
                yield TRUE, x
        elif isinstance(v, PList):
            i = 0
            while i < len(v.el):
                yield v.el[i]
                i += 1
        elif isinstance(v, str):
            for x in v:
                yield TRUE, x
        elif isinstance(v, PDict):
            yield from self._iter_mut(v, [(e[2], e[0]) for e in v.d.values()])
        elif isinstance(v, PSet):
            yield from self._iter_mut(v, [(e[1], e[0]) for e in v.d.values()])
        elif isinstance(v, Range):
            for i in range(v.start, v.stop, v.step):
                yield TRUE, i
        elif isinstance(v, Arr):
            if v.data.ndim == 0:
                self.throw("TypeError", "iteration over a 0-d array")
            for i in range(v.data.shape[0]):
                yield TRUE, self.arr_get(v, i)
        elif isinstance(v, HostIter) and hasattr(v, "keysof"):
            for x in list(v.items):
                if v.src is not None and v.src.version != v.version and self.pc != FALSE:
                    self.throw("RuntimeError", "dictionary changed size during iteration")
                yield x
        elif isinstance(v, HostIter):
            while True:
                if self.pc == FALSE:
                    return
                pos = self.restrict(v.pos)
                if isinstance(pos, G):
                    raise Undecided("iterator with uncertain position")
                if v.src is not None and v.src.version != v.version:
                    self.throw("RuntimeError", "dictionary changed size during iteration")
                if pos >= len(v.items):
                    return
                v.pos = self.gate(v.born, pos + 1, v.pos)
                yield v.items[pos]
        elif isinstance(v, Obj):
            hostit = v.cls.lookup("__hostiter__")
            if hostit is not None:
                yield from self.iterate(hostit.fn(self, [v], {}))
                return
            f = v.cls.lookup("__iter__")
            if f is None:
                if v.cls.has("__getitem__"):
                    raise Undecided("old style iteration")
                self.throw("TypeError", f"'{v.cls.name}' object is not iterable")
            it = self.call(Bound(v, f), [], {})
            it = self.restrict(it)
            if isinstance(it, Obj) and it.cls.has("__next__"):
                yield from self._iter_next(it)
            else:
                if it is v:
                    self.throw("TypeError", "iter() returned non-iterator")
                yield from self.iterate(it)
        elif isinstance(v, BytesV):
            raise Undecided("iteration over bytes")
        elif isinstance(v, TStr):
            raise Undecided("iteration over a string with holes")
        elif isinstance(v, (Opaque, Ignore)) and not isinstance(v, NotNumeric):
            raise Undecided(f"iteration over {v}")
        else:
            self.throw("TypeError", f"'{self.typename(v)}' object is not iterable")

    def _iter_mut(self, v, items):
        ver = v.version
        for i, (g, x) in enumerate(items):
            yield g, x
            if v.version != ver and self.pc != FALSE:
                self.throw("RuntimeError", "dictionary changed size during iteration")

    def _iter_next(self, it):
        f = it.cls.lookup("__next__")
        n = 0
        stop = FALSE
        while True:
            n += 1
            if n > 5000:
                raise Undecided("iterator without a bound")
            base = self.handlers
            coll = []
            self.handlers = base + [coll]
            try:
                x = self.call(Bound(it, f), [], {})
            except Dead:
                self.pc = FALSE
            finally:
                self.handlers = base
            for g, e in coll:
                if e.cls.issub(self.excs["StopIteration"]):
                    stop = M.disj(stop, g)
                else:
                    self.handlers[-1].append((g, e))
            if self.pc == FALSE:
                break
            live = self.pc
            if stop == FALSE:
                yield TRUE, x
            else:
                # paths that already stopped wait at the end of the loop
                yield TRUE, x
            if self.pc == FALSE:
                break
        self.pc = stop
        if stop == FALSE:
            raise Dead

    def hkey(self, v):
        v = self.restrict(v)
        if isinstance(v, bool):
            return int(v)
        if v is None or isinstance(v, (int, str)):
            return v
        if isinstance(v, Num):
            if v.c is not None:
                return int(v.c) if v.c.denominator == 1 else v.c
            return ("num",) + N.fingerprint(v)
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.hkey(x) for x in v)
        if isinstance(v, Obj):
            if v.cls.hostkey:
                return v.cls.hostkey(self, v)
            sk = v.cls.lookup("__sa_key__")
            if sk is not None:
                return self.hkey(self.call(Bound(v, sk), [], {}))
            if v.cls.has("__eq__") and not v.cls.has("__hash__"):
                self.throw("TypeError", f"unhashable type: '{v.cls.name}'")
            if v.cls.has("__hash__") and v.cls.lookup("__hash__") is not None and isinstance(v.cls.lookup("__hash__"), Func):
                raise Undecided("user-defined hash")
            return ("id", id(v))
        if isinstance(v, (Func, Cls, BType, HostFn, Module, Opaque, Ignore)):
            return ("id", id(v))
        if isinstance(v, Bound):
            return ("bound", id(v.self), id(v.func))
        if isinstance(v, TStr):
            return ("tstr", repr([p if isinstance(p, str) else ("h", self.hkey(p.value) if isinstance(p, Hole) else id(p)) for p in v.parts]))
        if isinstance(v, PSet) and v.frozen:
            return ("frozen", frozenset(v.d))
        if isinstance(v, BytesV):
            return ("bytes", v.s)
        if isinstance(v, (G, B)):
            raise Undecided("gated key")
        self.throw("TypeError", f"unhashable type: '{self.typename(v)}'")

    def dict_set(self, d, k, v):
        if isinstance(k, G):
            k = self.restrict(k)
            if isinstance(k, G):
                return self.case([(g, lambda w=w: self.dict_set(d, w, v)) for g, w in k.cases])
        h = self.hkey(k)
        e = d.d.get(h)
        d.wloc = self.loc
        if e is None:
            full = self.pc == TRUE or M.diff(d.born, self.pc) == FALSE
            d.d[h] = [k, v, TRUE if full else self.pc]
            d.version += 1
        else:
            absent = M.diff(self.pc, e[2])
            e[1] = self.gate(d.born, v, e[1])
            if absent != FALSE:
                e[2] = M.disj(e[2], self.pc)
                d.version += 1

    def dict_get(self, d, k, missing):
        """Value for the key; missing() is called under the guard of absence."""
        if isinstance(k, G):
            k = self.restrict(k)
            if isinstance(k, G):
                return self.case([(g, lambda w=w: self.dict_get(d, w, missing)) for g, w in k.cases])
        h = self.hkey(k)
        e = d.d.get(h)
        if e is None or M.conj(self.pc, e[2]) == FALSE:
            return missing()
        if M.implies(self.pc, e[2]):
            return self.restrict(e[1])
        return self.case([(e[2], lambda: self.restrict(e[1])), (M.neg(e[2]), missing)])

    def dict_has(self, d, k):
        if isinstance(k, G):
            k = self.restrict(k)
            if isinstance(k, G):
                g = FALSE
                for h, w in k.cases:
                    g = M.disj(g, M.conj(h, self.dict_has(d, w)))
                return g
        h = self.hkey(k)
        e = d.d.get(h)
        if e is None:
            return FALSE
        return e[2] if isinstance(d, PDict) else e[1]

    def dict_del(self, d, k):
        """Delete the key (present under the current guard)."""
        if isinstance(k, G):
            k = self.restrict(k)
            if isinstance(k, G):
                return self.case([(g, lambda w=w: self.dict_del(d, w)) for g, w in k.cases])
        h = self.hkey(k)
        e = d.d[h]
        i = 2 if isinstance(d, PDict) else 1
        e[i] = M.diff(e[i], self.pc)
        if e[i] == FALSE or M.conj(e[i], d.born) == FALSE:
            del d.d[h]
        d.version += 1
        d.wloc = self.loc

    def set_add(self, s, k):
        if isinstance(k, G):
            k = self.restrict(k)
            if isinstance(k, G):
                return self.case([(g, lambda w=w: self.set_add(s, w)) for g, w in k.cases])
        h = self.hkey(k)
        e = s.d.get(h)
        if e is None:
            full = self.pc == TRUE or M.diff(s.born, self.pc) == FALSE
            s.d[h] = [k, TRUE if full else self.pc]
            s.version += 1
        elif M.diff(self.pc, e[1]) != FALSE:
            e[1] = M.disj(e[1], self.pc)
            s.version += 1

    def list_append(self, l, v):
        full = self.pc == TRUE or M.diff(l.born, self.pc) == FALSE
        l.el.append((TRUE if full else self.pc, v))
        l.wloc = self.loc

    def length(self, v):
        v = self.restrict(v)
        if isinstance(v, G):
            return self.lift(self.length, v)
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, PList):
            gs = [g for g, _ in v.el]
        elif isinstance(v, PDict):
            gs = [e[2] for e in v.d.values()]
        elif isinstance(v, PSet):
            gs = [e[1] for e in v.d.values()]
        elif isinstance(v, Arr):
            if v.data.ndim == 0:
                self.throw("TypeError", "len() of unsized object")
            return v.data.shape[0]
        elif isinstance(v, Range):
            return len(range(v.start, v.stop, v.step))
        elif isinstance(v, Obj):
            f = v.cls.lookup("__len__")
            if f is None:
                self.throw("TypeError", f"object of type '{v.cls.name}' has no len()")
            return self.call(Bound(v, f), [], {})
        elif isinstance(v, TStr):
            if len(v.parts) == 1 and isinstance(v.parts[0], Piece) and v.parts[0].length is not None:
                return v.parts[0].length
            return text_number(v, len, "len", "+")
        elif isinstance(v, (Opaque, Ignore)) and not isinstance(v, NotNumeric):
            raise Undecided(f"len of {v}")
        else:
            self.throw("TypeError", f"object of type '{self.typename(v)}' has no len()")
        n = 0
        unc = []
        for g in gs:
            if g == TRUE or M.implies(self.pc, g):
                n += 1
            elif M.conj(self.pc, g) != FALSE:
                unc.append(g)
        if not unc:
            return n
        cnt = {n: TRUE}
        for g in unc:
            new = {}
            for k, h in cnt.items():
                a, b = M.conj(h, g), M.diff(h, g)
                if a != FALSE:
                    new[k + 1] = M.disj(new.get(k + 1, FALSE), a)
                if b != FALSE:
                    new[k] = M.disj(new.get(k, FALSE), b)
            cnt = new
        return self.join([(g, k) for k, g in cnt.items()])

    # -------------------------------------------------------------- equality
    def eq(self, a, b):
        """Guard under which a == b."""
        a, b = self.restrict(a), self.restrict(b)
        if isinstance(a, G) or isinstance(b, G):
            r = self.lift(lambda x, y: self.mkbool(self.eq(x, y)), a, b)
            return self.truth(r)
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                f = a.cls.lookup("__eq__")
                if f is not None:
                    return self.truth(self.call(Bound(a, f), [b], {}))
            if isinstance(b, Obj):
                f = b.cls.lookup("__eq__")
                if f is not None:
                    return self.truth(self.call(Bound(b, f), [a], {}))
            return TRUE if a is b else FALSE
        if isinstance(a, B) or isinstance(b, B):
            if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
                return M.xnor(self.truth(a), self.truth(b))
            if isinstance(a, (bool, B, int, Num)) and isinstance(b, (bool, B, int, Num)):
                x = a if isinstance(a, B) else b
                y = b if isinstance(a, B) else a
                one, zero = self.eq(y, 1), self.eq(y, 0)
                return M.disj(M.conj(x.g, one), M.conj(M.neg(x.g), zero))
            return FALSE
        na, nb = isinstance(a, (int, Num)), isinstance(b, (int, Num))
        if na and nb:
            if isinstance(a, int) and isinstance(b, int):
                return TRUE if a == b else FALSE
            return self.zero_guard(N.binop("-", a, b))
        if na != nb:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return self._opaque_eq(a, b)
            if isinstance(a, Arr) or isinstance(b, Arr):
                return self.truth(self.compare("==", a, b))
            return FALSE
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            g = TRUE
            for x, y in zip(a, b):
                g = M.conj(g, self.eq(x, y))
                if g == FALSE:
                    return FALSE
            return g
        if isinstance(a, str) and isinstance(b, str):
            return TRUE if a == b else FALSE
        if isinstance(a, (str, TStr)) and isinstance(b, (str, TStr)):
            return self.str_eq(a, b)
        if isinstance(a, PList) and isinstance(b, PList):
            x, y = self.definite(a.el), self.definite(b.el)
            if x is None or y is None:
                raise Undecided("comparison of lists of uncertain length")
            return self.eq(tuple(x), tuple(y))
        if isinstance(a, PSet) and isinstance(b, PSet):
            x = {k for k, e in a.d.items() if M.conj(self.pc, e[1]) != FALSE}
            y = {k for k, e in b.d.items() if M.conj(self.pc, e[1]) != FALSE}
            if any(not M.implies(self.pc, e[1]) for s in (a, b) for e in s.d.values() if M.conj(self.pc, e[1]) != FALSE):
                raise Undecided("comparison of uncertain sets")
            return TRUE if x == y else FALSE
        if isinstance(a, PDict) and isinstance(b, PDict):
            if set(a.d) != set(b.d):
                return FALSE
            g = TRUE
            for k in a.d:
                g = M.conj(g, self.eq(a.d[k][1], b.d[k][1]))
            return g
        if isinstance(a, Arr) or isinstance(b, Arr):
            r = self.compare("==", a, b)
            return self.truth(r)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self._opaque_eq(a, b)
        if isinstance(a, Range) and isinstance(b, Range):
            return TRUE if range(a.start, a.stop, a.step) == range(b.start, b.stop, b.step) else FALSE
        if isinstance(a, slice) and isinstance(b, slice):
            return TRUE if a == b else FALSE
        return TRUE if a is b else FALSE

    def _opaque_eq(self, a, b):
        if a is b:
            return TRUE
        if a is None or b is None:
            return FALSE
        if isinstance(a, NotNumeric) or isinstance(b, NotNumeric):
            return FALSE
        return M.var(("eq", repr(a), repr(b)))

    def str_eq(self, a, b):
        if self.leaf_same(a, b):
            return TRUE
        pa = a.parts if isinstance(a, TStr) else (a,)
        pb = b.parts if isinstance(b, TStr) else (b,)
        if len(pa) == len(pb):
            ok = True
            for x, y in zip(pa, pb):
                if isinstance(x, str) and isinstance(y, str):
                    ok = ok and x == y
                elif isinstance(x, Hole) and isinstance(y, Hole):
                    ok = ok and isinstance(x.value, Num) and isinstance(y.value, Num) and N.same(x.value, y.value)
                else:
                    ok = False
            if ok:
                return TRUE
        # numeric holes never equal texts with letters
        s = a if isinstance(a, str) else (b if isinstance(b, str) else None)
        t = b if s is a else a
        if s is not None and all(isinstance(p, str) or (isinstance(p, Hole) and isinstance(p.value, (Num, int, G))) for p in t.parts):
            lit = "".join(p for p in t.parts if isinstance(p, str))
            if len(t.parts) == 1:
                try:
                    x = Fraction(s.strip())
                except (ValueError, ZeroDivisionError):
                    return FALSE
                return M.var(("streq", repr(t), s))
            if isinstance(t.parts[0], str) and not s.startswith(t.parts[0]):
                return FALSE
            if isinstance(t.parts[-1], str) and not s.endswith(t.parts[-1]):
                return FALSE
        return M.var(("streq", repr(a), repr(b)))

    def contains(self, k, c):
        """Guard under which k in c."""
        c = self.restrict(c)
        k = self.restrict(k)
        if isinstance(c, G) or (isinstance(k, G) and isinstance(c, (PDict, PSet, str))):
            return self.truth(self.lift(lambda x, y: self.mkbool(self.contains(x, y)), k, c))
        if isinstance(c, (PDict, PSet)):
            return self.dict_has(c, k)
        if isinstance(c, HostIter) and getattr(c, "keysof", None) is not None:
            return self.dict_has(c.keysof, k)
        if isinstance(c, (tuple, PList, Range, HostIter)):
            g = FALSE
            for h, x in list(self.iterate(c)):
                p0 = self.pc
                self.pc = M.conj(p0, M.conj(h, M.neg(g)))
                if self.pc == FALSE:
                    self.pc = p0
                    continue
                try:
                    e = TRUE if x is k else self.eq(k, x)
                    live = self.pc
                except Dead:
                    e = FALSE
                    live = FALSE
                self.pc = M.disj(live, M.diff(p0, M.conj(h, M.neg(g)))) if live != M.conj(p0, M.conj(h, M.neg(g))) else p0
                if self.pc == FALSE:
                    raise Dead
                g = M.disj(g, M.conj(h, M.conj(e, live)))
                if g == TRUE or M.implies(self.pc, g):
                    return TRUE
            return g
        if isinstance(c, str):
            if isinstance(k, str):
                return TRUE if k in c else FALSE
            if isinstance(k, TStr):
                return FALSE
            self.throw("TypeError", "'in <string>' requires string as left operand")
        if isinstance(c, TStr):
            if isinstance(k, str):
                if any(isinstance(p, str) and k in p for p in c.parts):
                    return TRUE
                if k.strip("0123456789.+-e") == "":
                    from . import models
                    if k.strip("-") == "" and all(isinstance(p, str) or models.is_num_hole(p) for p in c.parts) \
                            and max([len(m) for p in c.parts if isinstance(p, str) for m in re.findall("-+", p)], default=0) + 1 < len(k):
                        return FALSE    # a number contributes at most one dash
                    raise Undecided("digits in a string with holes")
                return FALSE
            raise Undecided("string with holes in a string with holes")
        if isinstance(c, Obj):
            f = c.cls.lookup("__contains__")
            if f is not None:
                return self.truth(self.call(Bound(c, f), [k], {}))
            if c.cls.has("__iter__") or c.cls.has("__hostiter__"):
                return self.contains(k, self.mklist(self.listof(c)))
            self.throw("TypeError", f"argument of type '{c.cls.name}' is not iterable")
        if isinstance(c, Arr):
            g = FALSE
            for x in c.data.reshape(-1):
                g = M.disj(g, self.eq(k, x))
            return g
        if isinstance(c, (Opaque, Ignore)) and not isinstance(c, NotNumeric):
            raise Undecided(f"membership in {c}")
        self.throw("TypeError", f"argument of type '{self.typename(c)}' is not iterable")

    # ------------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return N.const(v)
        if isinstance(v, complex):
            return N.const(v)
        if isinstance(v, bytes):
            return BytesV(v.decode("latin1"))
        return v

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.mklist(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        s = PSet(self.pc)
        for x in self.elts(e.elts, fr):
            self.set_add(s, x)
        return s

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.listof(self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = PDict(self.pc)
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                for kk, vv in self.dict_items(o):
                    self.dict_set(d, kk, vv)
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def dict_items(self, o):
        o = self.restrict(o)
        if isinstance(o, PDict):
            out = []
            for e in o.d.values():
                if M.implies(self.pc, e[2]):
                    out.append((e[0], self.restrict(e[1])))
                elif M.conj(self.pc, e[2]) != FALSE:
                    raise Undecided("dict with uncertain keys")
            return out
        raise Undecided("mapping")

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(_BINOPS[type(e.op)], a, b)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return self.mkbool(M.neg(self.truth(v)))
        if isinstance(e.op, ast.USub):
            return self.unary("neg", v)
        if isinstance(e.op, ast.UAdd):
            return self.unary("pos", v)
        return self.unary("invert", v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        out = []
        pc_done = FALSE
        for i, x in enumerate(e.values):
            try:
                v = self.eval(x, fr)
            except Dead:
                self.pc = FALSE
                break
            if i == len(e.values) - 1:
                out.append((self.pc, v))
                break
            t = self.truth(v)
            go = t if isand else M.neg(t)
            stop = M.diff(self.pc, go)
            if stop != FALSE:
                out.append((stop, v))
                pc_done = M.disj(pc_done, stop)
            self.pc = M.conj(self.pc, go)
            if self.pc == FALSE:
                break
        self.pc = M.disj(self.pc, pc_done)
        if self.pc == FALSE:
            raise Dead
        return self.join(out)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        if len(e.ops) == 1:
            return self.cmp1(e.ops[0], left, self.eval(e.comparators[0], fr))
        res = []
        done = FALSE
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            try:
                right = self.eval(c, fr)
                v = self.cmp1(op, left, right)
            except Dead:
                self.pc = FALSE
                break
            left = right
            if i == len(e.ops) - 1:
                res.append((self.pc, v))
                break
            t = self.truth(v)
            stop = M.diff(self.pc, t)
            if stop != FALSE:
                res.append((stop, v))
                done = M.disj(done, stop)
            self.pc = M.conj(self.pc, t)
            if self.pc == FALSE:
                break
        self.pc = M.disj(self.pc, done)
        if self.pc == FALSE:
            raise Dead
        return self.join(res)

    def cmp1(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.lift(self.is_leaf, a, b)
        if isinstance(op, ast.IsNot):
            r = self.lift(self.is_leaf, a, b)
            return self.mkbool(M.neg(self.truth(r)))
        if isinstance(op, ast.In):
            return self.mkbool(self.contains(a, b))
        if isinstance(op, ast.NotIn):
            return self.mkbool(M.neg(self.contains(a, b)))
        o = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        return self.compare(o, a, b)

    def is_leaf(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
            if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
                return self.mkbool(M.xnor(self.truth(a), self.truth(b)))
            return False
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return a == b and type(a) is type(b)
        return a is b

    def compare(self, op, a, b):
        def go(x, y):
            if isinstance(x, Obj) and isinstance(y, Arr):
                f = x.cls.lookup({"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op])
                if isinstance(f, (Func, HostFn)):
                    return self.call(Bound(x, f), [y], {})
                if op == "!=" and isinstance(x.cls.lookup("__eq__"), (Func, HostFn)):
                    return self.mkbool(M.neg(self.truth(self.call(Bound(x, x.cls.lookup("__eq__")), [y], {}))))
            if isinstance(x, Arr) or isinstance(y, Arr):
                return self.arr_compare(op, x, y)
            if op == "==":
                return self.mkbool(self.eq(x, y))
            if op == "!=":
                if isinstance(x, Obj):
                    f = x.cls.lookup("__ne__")
                    if f is not None:
                        return self.call(Bound(x, f), [y], {})
                return self.mkbool(M.neg(self.eq(x, y)))
            return self.mkbool(self.order(op, x, y))

        return self.lift(go, a, b)

    def order(self, op, x, y):
        if isinstance(x, (int, Num, B)) and isinstance(y, (int, Num, B)):
            if isinstance(x, B):
                x = self.lift(lambda z: z, G([(x.g, 1), (M.neg(x.g), 0)]))
            if isinstance(y, B):
                y = self.lift(lambda z: z, G([(y.g, 1), (M.neg(y.g), 0)]))
            if isinstance(x, G) or isinstance(y, G):
                return self.truth(self.lift(lambda p, q: self.mkbool(self.order(op, p, q)), x, y))
            if isinstance(x, int) and isinstance(y, int):
                r = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
                return TRUE if r else FALSE
            d = N.binop("-", x, y)
            if (isinstance(x, Num) and x.c is None and x.const and np.isinf(x.v[0])) or (isinstance(y, Num) and y.c is None and y.const and np.isinf(y.v[0])):
                z = N.const(x).v[0] - N.const(y).v[0]
                neg, zero, pos = (TRUE if z < 0 else FALSE), FALSE, (TRUE if z > 0 else FALSE)
            else:
                neg, zero, pos = self.sign_guards(d)
            if op == "<":
                return neg
            if op == ">":
                return pos
            if op == "<=":
                return M.disj(neg, zero)
            return M.disj(pos, zero)
        if isinstance(x, str) and isinstance(y, str):
            r = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
            return TRUE if r else FALSE
        if isinstance(x, PSet) and isinstance(y, PSet):
            if any(not M.implies(self.pc, e[1]) for s in (x, y) for e in s.d.values()):
                raise Undecided("comparison of uncertain sets")
            a, b = set(x.d), set(y.d)
            r = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
            return TRUE if r else FALSE
        sx = tuple(self.listof(x)) if isinstance(x, PList) else x
        sy = tuple(self.listof(y)) if isinstance(y, PList) else y
        if isinstance(sx, tuple) and isinstance(sy, tuple) and type(x) is type(y):
            # lexicographic
            strict = op[0]
            g = FALSE
            eqs = TRUE
            for p, q in zip(sx, sy):
                e = self.eq(p, q)
                l = self.truth(self.compare(strict, p, q)) if e != TRUE else FALSE
                g = M.disj(g, M.conj(eqs, M.conj(M.neg(e), l)))
                eqs = M.conj(eqs, e)
                if eqs == FALSE:
                    return g
            n, m = len(sx), len(sy)
            r = {"<": n < m, "<=": n <= m, ">": n > m, ">=": n >= m}[op]
            return M.disj(g, M.conj(eqs, TRUE if r else FALSE))
        if isinstance(x, Obj):
            f = x.cls.lookup({"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op])
            if f is not None:
                return self.truth(self.call(Bound(x, f), [y], {}))
        if isinstance(y, Obj):
            f = y.cls.lookup({"<": "__gt__", "<=": "__ge__", ">": "__lt__", ">=": "__le__"}[op])
            if f is not None:
                return self.truth(self.call(Bound(y, f), [x], {}))
        if isinstance(x, (Opaque, Ignore)) or isinstance(y, (Opaque, Ignore)):
            if isinstance(x, NotNumeric) or isinstance(y, NotNumeric):
                self.throw("TypeError", "unorderable")
            raise Undecided("order of opaque values")
        self.throw("TypeError", f"'{op}' not supported between instances of '{self.typename(x)}' and '{self.typename(y)}'")

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        return self.case([(c, lambda: self.eval(e.body, fr)), (M.neg(c), lambda: self.eval(e.orelse, fr))])

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.iscomp and f.parent is not None:
            f = f.parent
        self.store(f, e.target.id, v)
        return v

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.index(e.slice, fr))

    def index(self, s, fr):
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        f = lambda x: self.eval(x, fr) if x is not None else None
        return self.mkslice(f(e.lower), f(e.upper), f(e.step))

    def mkslice(self, a, b, c):
        def go(x, y, z):
            def h(t):
                if isinstance(t, Num):
                    if t.c is not None and t.c.denominator == 1 and t.isint:
                        return int(t.c)
                    raise Undecided("symbolic slice bound")
                return t
            return slice(h(x), h(y), h(z))
        return self.lift(go, a, b, c)

    def e_Starred(self, e, fr):
        raise Undecided("starred expression")

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, fr))
        return self.lift(lambda *p: mkstr(p), *parts)

    def e_FormattedValue(self, v, fr):
        x = self.eval(v.value, fr)
        spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ""
        if v.conversion == 114:
            x = self.call(self.builtins["repr"], [x], {})
        elif v.conversion == 115:
            x = self.call(self.builtins["str"], [x], {})
        return self.lift(self.fmt, x, spec)

    def fmt(self, x, spec):
        from .models import format_value
        return format_value(self, x, spec)

    def e_ListComp(self, e, fr):
        l = PList([], self.pc)
        self.comp(e.generators, lambda f: self.list_append(l, self.eval(e.elt, f)), fr)
        return l

    def e_GeneratorExp(self, e, fr):
        l = PList([], self.pc)
        self.comp(e.generators, lambda f: self.list_append(l, self.eval(e.elt, f)), fr)
        return HostIter(l.el, self.pc)

    def e_SetComp(self, e, fr):
        s = PSet(self.pc)
        self.comp(e.generators, lambda f: self.set_add(s, self.eval(e.elt, f)), fr)
        return s

    def e_DictComp(self, e, fr):
        d = PDict(self.pc)

        def put(f):
            k = self.eval(e.key, f)
            self.dict_set(d, k, self.eval(e.value, f))

        self.comp(e.generators, put, fr)
        return d

    def comp(self, gens, put, fr):
        f = Frame(fr.module, fr.func, fr, self.pc)
        f.iscomp = True
        f.excstack = fr.excstack
        self.frames.append(f)
        try:
            self._comp(gens, 0, put, f, fr)
        finally:
            self.frames.pop()

    def _comp(self, gens, i, put, f, outer):
        if i == len(gens):
            put(f)
            return
        g = gens[i]
        it = self.eval(g.iter, outer if i == 0 else f)
        try:
            for gd, v in self.iterate(it):
                pc0 = self.pc
                run, skip = M.conj(pc0, gd), M.diff(pc0, gd)
                if run == FALSE:
                    continue
                self.pc = run
                end = FALSE
                try:
                    self.assign(g.target, v, f)
                    for c in g.ifs:
                        t = self.truth(self.eval(c, f))
                        end = M.disj(end, M.diff(self.pc, t))
                        self.pc = M.conj(self.pc, t)
                        if self.pc == FALSE:
                            break
                    if self.pc != FALSE:
                        self._comp(gens, i + 1, put, f, outer)
                except Dead:
                    self.pc = FALSE
                self.pc = M.disj(M.disj(self.pc, end), skip)
        except Dead:
            self.pc = FALSE
        if self.pc == FALSE:
            raise Dead

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        while f.yields is None and f.parent is not None:
            f = f.parent
        if f.yields is None:
            raise Undecided("yield")
        self.list_append(f.yields, v)
        return None

    def e_YieldFrom(self, e, fr):
        for g, v in list(self.iterate(self.eval(e.value, fr))):
            p0 = self.pc
            self.pc = M.conj(p0, g)
            if self.pc != FALSE:
                self.list_append(fr.yields, v)
            self.pc = p0
        return None

    def e_Await(self, e, fr):
        raise Undecided("await")

    # ------------------------------------------------------------------- calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.vars:
            if e.args:
                c = self.eval(e.args[0], fr)
                return Super(c, self.eval(e.args[1], fr))
            f = fr
            while f is not None and f.func is None:
                f = f.parent
            c = f.func.cls
            ff = f
            while c is None and ff.parent is not None:
                ff = ff.parent
                c = ff.func.cls
            first = f.func.node.args.args[0].arg
            return Super(c, self.restrict(f.vars[first]))
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals") and not e.args:
            d = PDict(self.pc)
            for k, v in (fr.vars if e.func.id == "locals" else fr.globals).items():
                if v is not Unbound:
                    self.dict_set(d, k, v)
            return d
        fn = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.listof(self.eval(a.value, fr))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.dict_items(self.eval(k.value, fr)):
                    if kk in kwargs:
                        self.throw("TypeError", f"got multiple values for keyword argument '{kk}'")
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    self.throw("TypeError", f"got multiple values for keyword argument '{k.arg}'")
                kwargs[k.arg] = self.eval(k.value, fr)
        loc = self.loc
        r = self.call(fn, args, kwargs)
        self.loc = loc
        return r

    def call(self, fn, args, kwargs=None):
        kwargs = kwargs or {}
        fn = self.restrict(fn)
        if isinstance(fn, G):
            return self.lift(lambda f: self.call(f, args, kwargs), fn)
        if isinstance(fn, Func):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, Bound):
            if isinstance(fn.func, (Func, HostFn)):
                return self.call(fn.func, [fn.self] + list(args), kwargs)
            return self.call(fn.func, [fn.self] + list(args), kwargs)
        if isinstance(fn, HostFn):
            return fn.fn(self, list(args), dict(kwargs))
        if isinstance(fn, BType):
            if fn.call is None:
                raise Undecided(f"call of {fn}")
            return fn.call(self, list(args), dict(kwargs))
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, Obj):
            f = fn.cls.lookup("__call__")
            if f is None:
                self.throw("TypeError", f"'{fn.cls.name}' object is not callable")
            return self.call(Bound(fn, f), args, kwargs)
        if isinstance(fn, Ignore):
            return self.ignore_call(fn, args, kwargs)
        if isinstance(fn, StaticM):
            return self.call(fn.f, args, kwargs)
        if isinstance(fn, NotNumeric) or not isinstance(fn, Opaque):
            self.throw("TypeError", f"'{self.typename(fn)}' object is not callable")
        raise Undecided(f"call of {fn}")

    def ignore_call(self, fn, args, kwargs):
        if fn.name.startswith("logging") and fn.name.rsplit(".", 1)[-1] in ("error", "critical", "exception"):
            self.logged.append((self.pc, self.loc))
        return Ignore(fn.name + "()")

    def instantiate(self, cls, args, kwargs):
        new = cls.lookup("__hostnew__")
        if new is not None:
            o = new.fn(self, [cls] + list(args), dict(kwargs))
            if o is not NotImplemented:
                return o
        o = Obj(cls, self.pc)
        init = cls.lookup("__init__")
        if cls.issub(self.excs["BaseException"]):
            o.fields["args"] = tuple(args)
        if init is not None:
            r = self.call(Bound(o, init), args, kwargs)
        elif args or kwargs:
            if not cls.issub(self.excs["BaseException"]):
                self.throw("TypeError", f"{cls.name}() takes no arguments")
        return o

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(pos) and a.vararg is None:
            self.throw("TypeError", f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given")
        for n, v in zip(pos, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(pos):])
        extra = PDict(self.pc) if a.kwarg is not None else None
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kwargs.items():
            if k in out and k in pos and k not in posonly:
                self.throw("TypeError", f"{f.name}() got multiple values for argument '{k}'")
            if (k in pos and k not in posonly) or k in kwonly:
                out[k] = v
            elif extra is not None:
                self.dict_set(extra, k, v)
            else:
                self.throw("TypeError", f"{f.name}() got an unexpected keyword argument '{k}'")
        if extra is not None:
            out[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[n] = f.defaults[j]
                else:
                    self.throw("TypeError", f"{f.name}() missing required argument '{n}'")
        for n in kwonly:
            if n not in out:
                if n in f.kwdefaults:
                    out[n] = f.kwdefaults[n]
                else:
                    self.throw("TypeError", f"{f.name}() missing required keyword-only argument '{n}'")
        return out

    def qualname(self, f):
        return f"{f.module.name}.{f.cls.name + '.' if f.cls else ''}{f.name}"

    def call_func(self, f, args, kwargs):
        q = self.qualname(f)
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if self.depth > self.maxdepth:
            raise Undecided(f"call depth in {q}")
        if f.locals is None:
            f.locals, f.gl, f.nl, f.isgen = func_locals(f.node)
        if q[:5] != "stub:":
            self.funcs.add(q)
        fr = Frame(f.module, f, f.closure, self.pc)
        fr.locals = f.locals
        fr.globalnames = f.gl
        fr.nonlocals = f.nl
        fr.vars.update(self.bind(f, args, kwargs))
        if isinstance(f.node, ast.Lambda):
            self.depth += 1
            try:
                return self.eval(f.node.body, fr)
            finally:
                self.depth -= 1
        if f.isgen:
            fr.yields = PList([], self.pc)
        self.depth += 1
        self.frames.append(fr)
        try:
            try:
                self.block(f.node.body, fr)
                if self.pc != FALSE:
                    fr.rets.append((self.pc, None))
            except Dead:
                pass
        finally:
            self.depth -= 1
            self.frames.pop()
        out = FALSE
        for g, _ in fr.rets:
            out = M.disj(out, g)
        self.pc = out
        if out == FALSE:
            raise Dead
        if f.isgen:
            return HostIter(fr.yields.el, self.pc)
        return self.join(fr.rets)

    # -------------------------------------------------------------- attributes
    def getattr(self, o, name, default=Unbound):
        o = self.restrict(o)
        if isinstance(o, G):
            return self.lift(lambda x: self.getattr(x, name, default), o)
        if isinstance(o, Obj):
            c = o.cls.lookup(name)
            if isinstance(c, Prop):
                if c.fget is None:
                    self.throw("AttributeError", f"property '{name}' has no getter")
                return self.call(c.fget, [o], {})
            if name in o.fields:
                v = self.restrict(o.fields[name])
                if v is Unbound or (isinstance(v, G) and any(w is Unbound for _, w in v.cases)):
                    def chk(w):
                        if w is Unbound:
                            if default is not Unbound:
                                return default
                            self.throw("AttributeError", f"'{o.cls.name}' object has no attribute '{name}'")
                        return w
                    return self.lift(chk, v)
                return v
            if o.cls.has(name):
                return self.bindattr(c, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                d = PDict(self.pc)
                for k, v in o.fields.items():
                    if v is not Unbound:
                        self.dict_set(d, k, v)
                return d
            ga = o.cls.lookup("__getattr__")
            if ga is not None:
                return self.call(Bound(o, ga), [name], {})
            if default is not Unbound:
                return default
            if o.cls.lookup("__hostopen__") is not None and not name.startswith("_"):
                raise Undecided(f"attribute {name} of {o.cls.name} is not modelled")
            self.throw("AttributeError", f"'{o.cls.name}' object has no attribute '{name}'")
        if isinstance(o, Super):
            mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Prop):
                        return self.call(v.fget, [o.obj], {})
                    return self.bindattr(v, o.obj, c)
            if name == "__init__":
                return HostFn("__init__", lambda I, a, k: None)
            if name == "__str__":
                return HostFn("__str__", lambda I, a, k: "")
            self.throw("AttributeError", f"'super' object has no attribute '{name}'")
        if isinstance(o, Module):
            if name in o.vars:
                return self.bound(o.vars[name], name, False)
            sub = self.load(o.name + "." + name) if self.modpath(o.name + "." + name)[0] and o.name + "." + name in self.modules else None
            if sub is not None:
                return sub
            if default is not Unbound:
                return default
            self.throw("AttributeError", f"module '{o.name}' has no attribute '{name}'")
        if isinstance(o, ExtMod):
            if name in o.attrs:
                return o.attrs[name]
            raise Undecided(f"{o.name}.{name} is not modelled")
        if isinstance(o, Cls):
            for c in o.mro:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, StaticM):
                        return v.f
                    if isinstance(v, ClassM):
                        return Bound(o, v.f)
                    return v
            if name == "__name__":
                return o.name
            if name in ("__mro__", "__bases__"):
                raise Undecided(name)
            if default is not Unbound:
                return default
            if o.lookup("__hostopen__") is not None:
                raise Undecided(f"attribute {name} of {o.name} is not modelled")
            self.throw("AttributeError", f"type object '{o.name}' has no attribute '{name}'")
        if isinstance(o, Ignore):
            return Ignore(o.name + "." + name)
        if isinstance(o, BType):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            m = self.type_method(o.name, name)
            if m is not None:
                return m
            raise Undecided(f"{o.name}.{name}")
        if isinstance(o, (Func, HostFn)):
            if name == "__name__":
                return o.name
            if name == "__doc__":
                return None
            if isinstance(o, Func) and name in o.attrs:
                return o.attrs[name]
            raise Undecided(f"function attribute {name}")
        if isinstance(o, Bound) and name in ("__name__", "__self__", "__func__"):
            return {"__name__": getattr(o.func, "name", "?"), "__self__": o.self, "__func__": o.func}[name]
        if isinstance(o, Prop):
            if name in ("fget", "fset"):
                return getattr(o, name)
            if name == "setter":
                return HostFn("setter", lambda I, a, k: Prop(o.fget, a[0], o.fdel))
        if name == "__class__":
            return self.typeof(o)
        from .models import host_getattr
        r = host_getattr(self, o, name)
        if r is not NotImplemented:
            return r
        if default is not Unbound:
            return default
        if isinstance(o, (Opaque,)) and not isinstance(o, NotNumeric):
            raise Undecided(f"attribute {name} of {o}")
        self.throw("AttributeError", f"'{self.typename(o)}' object has no attribute '{name}'")

    def type_method(self, tname, name):
        sample = {"str": "", "dict": PDict(), "list": PList(), "set": PSet(), "tuple": ()}.get(tname)
        if sample is None:
            return None
        return HostFn(f"{tname}.{name}", lambda I, a, k: I.call(I.getattr(a[0], name), a[1:], k))

    def typeof(self, v):
        if isinstance(v, Obj):
            return v.cls
        t = self.typename(v)
        if t in self.builtins and isinstance(self.builtins[t], BType):
            return self.builtins[t]
        return BType(t)

    def bindattr(self, v, o, cls):
        if isinstance(v, (Func, HostFn)):
            return Bound(o, v)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(cls, v.f)
        return v

    def setattr(self, o, name, v):
        def go(x):
            if isinstance(x, Obj):
                c = x.cls.lookup(name)
                if isinstance(c, Prop):
                    if c.fset is None:
                        self.throw("AttributeError", f"can't set attribute '{name}'")
                    self.call(c.fset, [x, v], {})
                    return None
                sa = x.cls.lookup("__setattr__")
                if sa is not None and isinstance(sa, Func):
                    self.call(Bound(x, sa), [name, v], {})
                    return None
                self.rawset(x, name, v)
                return None
            if isinstance(x, Arr) and name == "shape":
                raise Undecided("shape assignment")
            if isinstance(x, Module):
                x.vars[name] = self.gate(TRUE, v, x.vars.get(name, Unbound))
                return None
            if isinstance(x, Cls):
                x.ns[name] = v
                return None
            if isinstance(x, Func):
                x.attrs[name] = v
                return None
            if isinstance(x, (Ignore, ExtMod)):
                return None
            if isinstance(x, Arr) and name in ("real", "imag", "T", "flat"):
                raise Undecided("array attribute assignment")
            if isinstance(x, Opaque) and not isinstance(x, NotNumeric):
                raise Undecided(f"attribute of {x}")
            self.throw("AttributeError", f"'{self.typename(x)}' object has no attribute '{name}'")

        self.lift(go, o)

    def rawset(self, o, name, v):
        o.fields[name] = self.gate(o.born, v, o.fields.get(name, Unbound))
        o.wlocs[name] = self.loc

    def delattr1(self, o, name):
        if isinstance(o, Obj) and name in o.fields:
            self.rawset(o, name, Unbound)
            return
        self.throw("AttributeError", name)

    # -------------------------------------------------------------------- items
    def getitem(self, o, k):
        return self.lift(self.getitem1, o, k)

    def getitem1(self, o, k):
        from .models import host_getitem
        return host_getitem(self, o, k)

    def setitem(self, o, k, v):
        from .models import host_setitem
        self.lift(lambda x, y: host_setitem(self, x, y, v), o, k)

    def delitem1(self, o, k):
        from .models import host_delitem
        host_delitem(self, o, k)

    # ---------------------------------------------------------------- operators
    def binop(self, op, a, b):
        if isinstance(a, Num) and isinstance(b, Num) and op in ("+", "-", "*", "/"):
            return N.binop(op, a, b)
        return self.lift(lambda x, y: self.binop1(op, x, y), a, b)

    def inplace(self, op, a, b):
        def go(x, y):
            from .models import inplace1
            r = inplace1(self, op, x, y)
            if r is NotImplemented:
                return self.binop1(op, x, y)
            return r
        return self.lift(go, a, b)

    def binop1(self, op, a, b):
        from .models import binop_leaf
        return binop_leaf(self, op, a, b)

    def unary(self, op, v):
        from .models import unary_leaf
        return self.lift(lambda x: unary_leaf(self, op, x), v)

    def arr_get(self, a, i):
        from .models import arr_index
        return arr_index(self, a, i)

    def arr_compare(self, op, x, y):
        from .models import arr_compare
        return arr_compare(self, op, x, y)

    # ------------------------------------------------------------------ driver
    def run(self, thunk):
        """Run thunk under the full guard.

        Returns (value or None, guard of normal completion, [(guard, exception)]).
        """
        saved = (self.pc, self.handlers, self.depth)
        coll = []
        self.handlers = [coll]
        pc0 = self.pc
        try:
            try:
                v = thunk()
                ok = self.pc
            except Dead:
                v, ok = None, FALSE
        finally:
            self.pc, self.handlers, self.depth = saved
        return v, ok, coll
