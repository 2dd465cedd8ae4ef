"""Abstract values of the interpreter (see interp.py)."""
import numpy as np

from .bdd import M, TRUE


class Undecided(Exception):
    """The analysis has no answer here (never reported as a violation)."""


class Dead(Exception):
    """Host-level signal: the current guard became false."""


class _Unbound:
    def __repr__(self):
        return "<unbound>"


Unbound = _Unbound()


class B:
    """Symbolic truth value (guard that is neither always true nor false)."""

    __slots__ = ("g",)

    def __init__(self, g):
        self.g = g

    def __repr__(self):
        return f"B({M.describe(self.g)})"


def outside(f):
    """Arithmetic of an oracle leaves no trace in the state of the analysis."""
    I = G.I
    if I.analysing:
        return f()
    pc = I.pc
    I.pc = 1
    try:
        return f()
    finally:
        I.pc = pc


class G:
    """Gated value: disjoint (guard, leaf) cases."""

    __slots__ = ("cases",)
    __array_ufunc__ = None
    __array_priority__ = 2000
    I = None  # interpreter, for operators used by host numpy

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return "G{" + "; ".join(f"{M.describe(g)[:60]}: {v}" for g, v in self.cases[:4]) + "}"

    def _b(self, op, a, b):
        return outside(lambda: G.I.binop(op, a, b))

    def __add__(self, o):
        return self._b("+", self, o)

    def __radd__(self, o):
        return self._b("+", o, self)

    def __sub__(self, o):
        return self._b("-", self, o)

    def __rsub__(self, o):
        return self._b("-", o, self)

    def __mul__(self, o):
        return self._b("*", self, o)

    def __rmul__(self, o):
        return self._b("*", o, self)

    def __truediv__(self, o):
        return self._b("/", self, o)

    def __rtruediv__(self, o):
        return self._b("/", o, self)

    def __pow__(self, o):
        return self._b("**", self, o)

    def __rpow__(self, o):
        return self._b("**", o, self)

    def __floordiv__(self, o):
        return self._b("//", self, o)

    def __rfloordiv__(self, o):
        return self._b("//", o, self)

    def __mod__(self, o):
        return self._b("%", self, o)

    def __rmod__(self, o):
        return self._b("%", o, self)

    def __neg__(self):
        return outside(lambda: G.I.unary("neg", self))

    def __pos__(self):
        return self

    def __abs__(self):
        return outside(lambda: G.I.unary("abs", self))

    def conjugate(self):
        return outside(lambda: G.I.unary("conj", self))

    def __bool__(self):
        raise TypeError("truth value of a gated value")


class Hole:
    """A formatted value inside a string of which only the meaning is known."""

    __slots__ = ("value", "spec")

    def __init__(self, value, spec=""):
        self.value = value
        self.spec = spec

    def __repr__(self):
        return "{" + str(self.value) + (":" + self.spec if self.spec else "") + "}"


class Piece:
    """Opaque piece of a hole (result of cutting the digits of a number)."""

    __slots__ = ("hole", "what", "length")

    def __init__(self, hole, what, length=None):
        self.hole = hole
        self.what = what
        self.length = length

    def __repr__(self):
        return f"<{self.what} of {self.hole}>"


class TStr:
    """String with holes: tuple of str | Hole | Piece."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.parts)


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, TStr):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return TStr(tuple(out))


class Ref:
    """Base of mutable heap values."""

    born = TRUE
    wloc = None


class Arr(Ref):
    __slots__ = ("data", "dtype", "born", "wloc", "base")
    __array_ufunc__ = None

    def __init__(self, data, dtype="float", born=TRUE, base=None):
        self.data = data
        self.dtype = dtype
        self.born = born
        self.wloc = None
        self.base = base

    @property
    def shape(self):
        return self.data.shape

    def __repr__(self):
        return f"Arr{self.data.shape}{self.data.tolist()}"[:300]


class PList(Ref):
    __slots__ = ("el", "born", "wloc")

    def __init__(self, el=None, born=TRUE):
        self.el = el if el is not None else []      # [(guard, value)]
        self.born = born
        self.wloc = None

    def __repr__(self):
        return "[" + ", ".join(str(v) for _, v in self.el[:8]) + (", ..." if len(self.el) > 8 else "") + "]"


class PDict(Ref):
    __slots__ = ("d", "born", "wloc", "version", "default")

    def __init__(self, born=TRUE):
        self.d = {}                                  # hkey -> [key, value, guard]
        self.born = born
        self.wloc = None
        self.version = 0
        self.default = None

    def __repr__(self):
        return "{" + ", ".join(f"{e[0]}: {e[1]}" for e in list(self.d.values())[:8]) + "}"


class PSet(Ref):
    __slots__ = ("d", "born", "wloc", "version", "frozen")

    def __init__(self, born=TRUE):
        self.d = {}                                  # hkey -> [key, guard]
        self.born = born
        self.wloc = None
        self.version = 0
        self.frozen = False

    def __repr__(self):
        return "set{" + ", ".join(str(e[0]) for e in list(self.d.values())[:8]) + "}"


class Obj(Ref):
    __slots__ = ("cls", "fields", "born", "wloc", "wlocs", "host")

    def __init__(self, cls, born=TRUE):
        self.cls = cls
        self.fields = {}
        self.born = born
        self.wloc = None
        self.wlocs = {}
        self.host = None

    def __repr__(self):
        if self.cls.hostrepr:
            return self.cls.hostrepr(self)
        return f"<{self.cls.name}>"


class Cls:
    hostrepr = None

    def __init__(self, name, bases=(), ns=None, module=None, node=None):
        self.name = name
        self.bases = list(bases)
        self.ns = ns if ns is not None else {}
        self.module = module
        self.node = node
        self.mro = self._mro()
        self.hostkey = None
        for c in self.mro[1:]:
            if c.hostkey and not self.hostkey:
                self.hostkey = c.hostkey
            if c.hostrepr and not self.hostrepr:
                self.hostrepr = c.hostrepr

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def has(self, name):
        return any(name in c.ns for c in self.mro)

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return f"<class {self.name}>"


class Func:
    def __init__(self, node, module, closure=None, name=None, defaults=(), kwdefaults=None, cls=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.cls = cls
        self.locals = None
        self.isgen = False
        self.attrs = {}

    def __repr__(self):
        return f"<function {self.name}>"


class Bound:
    __slots__ = ("self", "func")

    def __init__(self, self_, func):
        self.self = self_
        self.func = func

    def __repr__(self):
        return f"<bound {self.func}>"


class Prop:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget = fget
        self.fset = fset
        self.fdel = fdel


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class HostFn:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class BType:
    """Builtin type that can be called and used in isinstance."""

    def __init__(self, name, call=None):
        self.name = name
        self.call = call
        self.attrs = {}

    def __repr__(self):
        return f"<type {self.name}>"


class Module:
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.vars = {}
        self.tree = None
        self.done = False

    def __repr__(self):
        return f"<module {self.name}>"


class ExtMod:
    """External module with host-defined attributes."""

    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs or {}

    def __repr__(self):
        return f"<module {self.name}>"


class Ignore:
    """Object whose use has no effect on the properties (logging, plots)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


class Opaque:
    """Symbolic value of unknown kind with a name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


class NotNumeric(Opaque):
    """A value that cannot be converted to numbers."""


class Range:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class HostIter(Ref):
    __slots__ = ("items", "pos", "born", "src", "version")

    def __init__(self, items, born=TRUE, src=None, version=None):
        self.items = items                           # [(guard, value)]
        self.pos = 0
        self.born = born
        self.src = src
        self.version = version


class Super:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class BytesV:
    """Bytes of a known string."""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


def objarr(shape):
    return np.empty(shape, dtype=object)
