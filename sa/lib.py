"""Scenarios: abstract inputs, runs, comparison of abstract values, verdicts."""
import ast
from fractions import Fraction as Fraction_
import textwrap

import numpy as np

from . import num as N
from .bdd import FALSE, M, TRUE, bits_of
from .interp import Frame, Interp, ProgramError
from .num import Num
from .values import *


class Bad(Exception):
    """A definite violation found by a check."""

    def __init__(self, msg, loc=None):
        super().__init__(msg)
        self.msg = msg
        self.loc = loc


FACTORS = {"ef", "of", "ef2", "of2"}


def sym(name, **kw):
    if name in FACTORS:
        kw.setdefault("nonzero", True)                # a notation without a factor has no meaning
    return N.sym(name, **kw)


def arr(data, dtype="float"):
    a = np.array(data, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i, x in np.ndenumerate(a):
        out[i] = x if isinstance(x, (Num, G)) else N.const(x)
    return Arr(out, dtype)


def vec(name, n=3, **kw):
    return arr([sym(f"{name}{'xyzuvw'[i] if n <= 6 else i}", **kw) for i in range(n)])


def mat(name, n=3, m=3):
    return arr([[sym(f"{name}_{'xyz'[i] if n <= 3 else i}{'xyz'[j] if m <= 3 else j}") for j in range(m)] for i in range(n)])


def symmat(name):
    d = {}
    for i in range(3):
        for j in range(i, 3):
            d[i, j] = d[j, i] = sym(f"{name}_{'xyz'[i]}{'xyz'[j]}")
    return arr([[d[i, j] for j in range(3)] for i in range(3)])


# ------------------------------------------------------------- guards at samples
def atom_at(key, k):
    """Truth of an atomic predicate at sample point k (None: free)."""
    b = bits_of(key)
    return None if b is None else bool(b >> k & 1)


def sat_at(g, k):
    """Satisfiable at sample k with the free atoms existential?"""
    return bool(M.mask(g) >> k & 1)


def feasible(g):
    return M.mask(g) != 0


def flat(cases):
    out = []
    for g, w in cases:
        if isinstance(w, G):
            out += [(h, x) for h, x in ((M.conj(g, h), x) for h, x in flat(w.cases)) if h != FALSE]
        else:
            out.append((g, w))
    return out


def generic(I, v):
    """Drop the cases of gated values that no generic input reaches; one array out of
    gated arrays."""
    if isinstance(v, Arr):
        if any(isinstance(x, G) for x in v.data.reshape(-1)):
            out = np.empty(v.data.shape, dtype=object)
            for i, x in np.ndenumerate(v.data):
                out[i] = generic(I, x)
            return Arr(out, v.dtype)
        return v
    if isinstance(v, G):
        cs = [(g, w) for g, w in flat(v.cases) if feasible(g)]
        if len(cs) == 1:
            return generic(I, cs[0][1])
        if cs and all(isinstance(w, Arr) for _, w in cs) and len({w.data.shape for _, w in cs}) == 1:
            out = np.empty(cs[0][1].data.shape, dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = generic(I, G(flat([(g, w.data[i]) for g, w in cs])))
            return Arr(out, cs[0][1].dtype)
        return G(cs) if cs else v
    return v


def value_at(v, k):
    """Host value of an abstract number at sample k (free atoms false)."""
    if isinstance(v, G):
        for g, w in v.cases:
            asg = {x: bool(atom_at(M.names[x], k)) for x in M.support(g)}
            if M.restrict(g, asg) == TRUE:
                return value_at(w, k)
        return None
    if isinstance(v, (int, float)):
        return complex(v)
    if isinstance(v, Num):
        return complex(v.v[k])
    return v


# ----------------------------------------------------------------- comparison
def samples_of(g):
    """Samples at which a guard may hold (None: all)."""
    if g == TRUE:
        return None
    b = M.mask(g)
    m = np.array([bool(b >> k & 1) for k in range(N.K)])
    return None if m.all() else m


def leaf_differs(I, a, b, pc=TRUE):
    if isinstance(a, (int, Num)) and isinstance(b, (int, Num)) and not isinstance(a, bool) and not isinstance(b, bool):
        return not N.same(a, b, at=samples_of(pc), oracle=True)
    if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
        return None
    if isinstance(a, (str, TStr)) and isinstance(b, (str, TStr)):
        if isinstance(a, str) and isinstance(b, str):
            return a != b
        g = I.str_eq(a, b)
        if g == TRUE:
            return False
        if g == FALSE:
            return True
        return None
    return None


def differ(I, a, b, pc=TRUE):
    """Guard under which two abstract values differ (structural)."""
    if isinstance(a, G) or isinstance(b, G):
        ca = a.cases if isinstance(a, G) else [(TRUE, a)]
        cb = b.cases if isinstance(b, G) else [(TRUE, b)]
        out = FALSE
        for g, x in ca:
            for h, y in cb:
                k = M.conj(pc, M.conj(g, h))
                if k != FALSE:
                    out = M.disj(out, M.conj(k, differ(I, x, y, k)))
        return out
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.data.shape != b.data.shape:
            return pc
        out = FALSE
        for x, y in zip(a.data.reshape(-1), b.data.reshape(-1)):
            out = M.disj(out, differ(I, x, y, pc))
        return out
    if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
        xa = [(TRUE, x) for x in a] if isinstance(a, tuple) else a.el
        xb = [(TRUE, x) for x in b] if isinstance(b, tuple) else b.el
        xa = [(g, x) for g, x in xa if M.conj(pc, g) != FALSE]
        xb = [(g, x) for g, x in xb if M.conj(pc, g) != FALSE]
        if len(xa) != len(xb):
            if all(M.implies(pc, g) for g, _ in xa + xb):
                return pc
            raise Undecided("sequences of uncertain length")
        out = FALSE
        for (g, x), (h, y) in zip(xa, xb):
            out = M.disj(out, M.conj(pc, M.disj(M.diff(g, h), M.diff(h, g))))
            out = M.disj(out, differ(I, x, y, pc))
        return out
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        x = a.g if isinstance(a, B) else (TRUE if a else FALSE)
        y = b.g if isinstance(b, B) else (TRUE if b else FALSE)
        return M.conj(pc, M.neg(M.xnor(x, y)))
    if isinstance(a, PDict) and isinstance(b, PDict):
        out = FALSE
        for k in list(a.d) + [k for k in b.d if k not in a.d]:
            ga = a.d[k][2] if k in a.d else FALSE
            gb = b.d[k][2] if k in b.d else FALSE
            out = M.disj(out, M.conj(pc, M.disj(M.diff(ga, gb), M.diff(gb, ga))))
            both = M.conj(pc, M.conj(ga, gb))
            if both != FALSE:
                out = M.disj(out, differ(I, a.d[k][1], b.d[k][1], both))
        return out
    r = leaf_differs(I, a, b, pc)
    if r is not None:
        return pc if r else FALSE
    if a is b:
        return FALSE
    if type(a) is type(b) and not isinstance(a, (Opaque, Ignore)):
        if isinstance(a, Obj):
            raise Undecided("comparison of objects")
        return pc if a != b else FALSE
    if isinstance(a, (Opaque, Ignore)) or isinstance(b, (Opaque, Ignore)):
        raise Undecided(f"comparison of {a} and {b}")
    if isinstance(a, Arr) or isinstance(b, Arr):
        # a zero-dimensional array and a number
        x = a.data.reshape(-1)[0] if isinstance(a, Arr) and a.data.size == 1 and a.data.ndim == 0 else a
        y = b.data.reshape(-1)[0] if isinstance(b, Arr) and b.data.size == 1 and b.data.ndim == 0 else b
        if x is not a or y is not b:
            return differ(I, x, y, pc)
    return pc


# -------------------------------------------------------------------- running
class Run:
    def __init__(self, ctx, vars, ok, excs):
        self.ctx, self.vars, self.ok, self.excs = ctx, vars, ok, excs

    def __getitem__(self, n):
        v = self.vars.get(n, Unbound)
        if v is Unbound:
            raise KeyError(n)
        return v

    def get(self, n):
        return self.vars.get(n, Unbound)

    def failures(self):
        return [(g, e) for g, e in self.excs if feasible(g)]

    def exc_names(self):
        return sorted({e.cls.name for g, e in self.failures()})

    def show_failures(self):
        I = self.ctx.I
        return "; ".join(I.show_exc(e) for g, e in self.failures()[:2])

    def must_pass(self, what):
        f = self.failures()
        if f:
            g, e = f[0]
            raise Bad(f"{what}: raises {self.ctx.I.show_exc(e)}", e.wloc)
        if self.ok == FALSE:
            raise Bad(f"{what}: does not complete")

    def must_raise(self, what, *kinds):
        """Every feasible completion is one of the exceptions."""
        if feasible(self.ok):
            raise Bad(f"{what}: accepted, expected {' or '.join(kinds) or 'an exception'}")
        for g, e in self.failures():
            if kinds and not any(c.name in kinds for c in e.cls.mro):
                raise Bad(f"{what}: raises {self.ctx.I.show_exc(e)}, expected {' or '.join(kinds)}", e.wloc)


def absval(v):
    """Scenario value as an abstract value."""
    if isinstance(v, (float, Fraction_)) and not isinstance(v, bool):
        return N.const(v)
    if isinstance(v, tuple):
        return tuple(absval(x) for x in v)
    return v


class Ctx:
    """One interpreter with magnopy loaded and helpers to run scenario code."""

    def __init__(self, root="/repo/src"):
        self.I = Interp(root)
        self.mag = self.I.load("magnopy")
        self.scn = Module("stub:scenario")
        self.scn.pkg = ""
        self.scn.vars["__name__"] = "scenario"
        self.scn.vars["magnopy"] = self.mag
        self.scn.vars["np"] = self.I.import_module("numpy")
        w = self.I.import_module("wulfric")
        for n in ("Atom", "Crystal", "Lattice"):
            self.scn.vars[n] = w.vars[n]
        for k, v in self.mag.vars.items():
            if not k.startswith("_"):
                self.scn.vars.setdefault(k, v)
        self.n = 0

    def run(self, src, **env):
        self.n += 1
        tree = ast.parse(textwrap.dedent(src))
        I = self.I
        fr = Frame(self.scn)
        fr.vars = dict(self.scn.vars)
        fr.vars.update({k: absval(v) for k, v in env.items()})
        fr.globals = fr.vars

        class M2(Module):
            pass
        mod = Module("stub:scenario")
        mod.pkg = ""
        mod.vars = fr.vars
        fr.module = mod
        I.frames = [fr]
        I.pc, I.analysing = TRUE, True
        try:
            _, ok, excs = I.run(lambda: I.block(tree.body, fr))
        finally:
            I.pc, I.analysing = TRUE, False
        return Run(self, fr.vars, ok, excs)

    def same(self, a, b, what, pc=TRUE, loc=None):
        g = differ(self.I, a, b, pc)
        if g != FALSE and feasible(g):
            extra = ""
            if g != TRUE:
                extra = f" [when {M.describe(g)[:200]}]"
            raise Bad(f"{what}: got {short(a)}, expected {short(b)}{extra}", loc)


def short(v, n=260):
    s = str(v)
    return s if len(s) <= n else s[:n] + "..."


def anchor(c, path):
    """Location of a public function or attribute of magnopy."""
    try:
        cur = c.mag
        for p in path.split("."):
            if isinstance(cur, Module):
                cur = cur.vars[p]
            elif isinstance(cur, Cls):
                cur = cur.lookup(p)
            else:
                return path
        if isinstance(cur, Prop):
            cur = cur.fget
        if isinstance(cur, Func):
            return (cur.module.name, cur.node.lineno, path)
        if isinstance(cur, Cls) and cur.node is not None:
            return (cur.module.name, cur.node.lineno, path)
    except KeyError:
        pass
    return path


# --------------------------------------------------- host arithmetic on matrices
def data(a):
    return a.data if isinstance(a, Arr) else a


def A_(x):
    return Arr(np.array(x, dtype=object)) if not isinstance(x, Arr) else x


def cmat(rows):
    return arr(rows)


EYE = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def shares(a, b):
    """Two arrays share storage."""
    return isinstance(a, Arr) and isinstance(b, Arr) and np.shares_memory(a.data, b.data)
