"""Numeric value numbers.

A number of the analysed program is represented by its *random interpretation*
(Gulwani & Necula): the value of the term over a fixed set of random points of
its free symbols, together with a running rounding-error bound, a sign
abstraction and, where the term is a constant, its exact rational value.  Two
terms are equal as real/complex functions iff their fingerprints agree (up to
the error bound, with overwhelming probability); the program's branches are
never decided by a fingerprint - they are decided by constants and by the sign
abstraction only, everything else becomes an opaque predicate of a guard.
"""
import math
import operator
import random
import zlib
from fractions import Fraction

import numpy as np

K = 12
# The first five samples are general.  The others look for special treatment of special values: 5 and 6 are small and
# large numbers, from 7 on simple numbers, which coincide; every symbol is zero in one of the samples from 8 on.
SCALE = [1, 1, 1, 1, 1, 1e-5, 1e4, 1, 1, 1, 1, 1]
SIMPLE = [0.5, 1.0, 1.5, 2.0, 3.0]
SIMPLE_FROM = 7
ZERO_FROM = 8


PLAIN = {"cell"}                                      # symbols (by the start of their names) with general samples only


def general():
    """General samples only (for checks that treat special values on their own)."""
    global SIMPLE_FROM, ZERO_FROM
    SCALE[:] = [1] * K
    SIMPLE_FROM = ZERO_FROM = K


EPS = 2.3e-16
_seed = 20240917


def _rng(name):
    return random.Random(zlib.crc32(repr((name, _seed)).encode()))


class Num:
    __slots__ = ("v", "err", "sign", "c", "const", "isint", "op", "args", "npf")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, v, err, sign="?", c=None, const=False, isint=False, op=None, args=()):
        self.v = v
        self.err = err
        self.sign = sign
        self.c = c
        self.const = const
        self.isint = isint
        self.op = op
        self.args = args
        self.npf = False

    # -- display
    def __repr__(self):
        return show(self, 6)

    __str__ = __repr__

    # -- arithmetic used by host numpy on object arrays
    def __add__(self, o):
        return _bin("+", self, o)

    def __radd__(self, o):
        return _bin("+", o, self)

    def __sub__(self, o):
        return _bin("-", self, o)

    def __rsub__(self, o):
        return _bin("-", o, self)

    def __mul__(self, o):
        return _bin("*", self, o)

    def __rmul__(self, o):
        return _bin("*", o, self)

    def __truediv__(self, o):
        return _bin("/", self, o)

    def __rtruediv__(self, o):
        return _bin("/", o, self)

    def __floordiv__(self, o):
        return _bin("//", self, o)

    def __rfloordiv__(self, o):
        return _bin("//", o, self)

    def __mod__(self, o):
        return _bin("%", self, o)

    def __rmod__(self, o):
        return _bin("%", o, self)

    def __pow__(self, o):
        return _bin("**", self, o)

    def __rpow__(self, o):
        return _bin("**", o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __bool__(self):
        raise TypeError("truth value of an abstract number")

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def conjugate(self):
        return conj(self)

    @property
    def iscomplex(self):
        return self.v.dtype.kind == "c"


def show(x, depth=3):
    if not isinstance(x, Num):
        return str(x)
    if x.c is not None:
        f = x.c
        if f.denominator == 1:
            return str(f.numerator) if abs(f) < 10**9 else f"{float(f):.6g}"
        return f"{float(f):.6g}"
    if x.op == "sym":
        return x.args[0]
    if x.op is None or depth == 0:
        return f"<{x.v[0]:.4g}>"
    a = [show(y, depth - 1) for y in x.args]
    if x.op in ("+", "-", "*", "/", "**", "//", "%") and len(a) == 2:
        return f"({a[0]}{x.op}{a[1]})"
    return f"{x.op}({', '.join(a)})"


_const_cache = {}


def const(x):
    """Exact constant from int / Fraction / float / complex."""
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        x = int(x)
    try:
        r = _const_cache.get((type(x), x))
    except TypeError:
        r = None
    if r is not None:
        return r
    if isinstance(x, (int, np.integer)):
        c = Fraction(int(x))
    elif isinstance(x, Fraction):
        c = x
    elif isinstance(x, (float, np.floating)):
        x = float(x)
        c = Fraction(repr(x)) if math.isfinite(x) else None
    elif isinstance(x, complex):
        if x.imag == 0:
            return const(x.real)
        v = np.full(K, x, dtype=complex)
        return Num(v, np.abs(v) * EPS, "?", None, True, False, "const", (x,))
    else:
        raise TypeError(f"not a number: {x!r}")
    if c is None:
        v = np.full(K, x, dtype=float)
        r = Num(v, np.zeros(K), "?", None, True, False, "const", (x,))
    else:
        v = np.full(K, float(c))
        s = "0" if c == 0 else ("+" if c > 0 else "-")
        r = Num(v, np.abs(v) * EPS, s, c, True, c.denominator == 1, "const", (x,))
    _const_cache[(type(x), x)] = r
    return r


def sym(name, positive=False, integer=False, nonneg=False, lo=None, hi=None, nonzero=False):
    r = _rng(name)
    vals = []
    plain = integer or lo is not None or hi is not None or any(name.startswith(x) for x in PLAIN)
    # not all components of a vector at once
    zero = ZERO_FROM + (zlib.crc32(name[:-1].encode()) + ord(name[-1])) % (K - ZERO_FROM) if ZERO_FROM < K else -1
    for k_ in range(K):
        if integer:
            z = r.randint(1, 9) if positive else r.choice([-1, 1]) * r.randint(1, 9)
        else:
            z = r.uniform(lo if lo is not None else 0.4, hi if hi is not None else 1.9)
            if not positive and not nonneg and lo is None:
                z *= r.choice([-1, 1])
            if not plain:
                z *= SCALE[k_]
                if k_ >= SIMPLE_FROM:
                    z = r.choice(SIMPLE) * (1 if positive or nonneg else r.choice([-1, 1]))
                if k_ == zero and not positive and not nonzero:
                    z = 0.0
        vals.append(float(z))
    v = np.array(vals)
    return Num(v, np.zeros(K), "+" if positive else (">=" if nonneg else "?"), None,
               False, integer, "sym", (name,))


def csym(name):
    r = _rng(name)
    v = np.array([complex(r.uniform(-1.5, 1.5), r.uniform(-1.5, 1.5)) for _ in range(K)])
    return Num(v, np.zeros(K), "?", None, False, False, "sym", (name,))


def uninterpreted(name, args):
    """Fresh function application: equal arguments give equal results."""
    flat = []
    for a in args:
        if isinstance(a, Num):
            flat.append(fingerprint(a))
        else:
            flat.append(a)
    r = _rng((name, tuple(map(repr, flat))))
    v = np.array([r.uniform(0.4, 1.9) * r.choice([-1, 1]) for _ in range(K)])
    return Num(v, np.zeros(K), "?", None, False, False, name,
               tuple(a for a in args if isinstance(a, Num))[:4])


def fingerprint(x, digits=8):
    if x.c is not None:
        return ("c", str(x.c))
    out = []
    for i in range(K):
        z = complex(x.v[i])
        if abs(z) <= 200 * x.err[i] + 1e-300:
            z = 0j
        out.append(f"{z.real:.{digits}g}" if abs(z.imag) <= 200 * x.err[i] + 1e-12 * abs(z)
                   else f"{z.real:.{digits}g}{z.imag:+.{digits}g}j")
    return tuple(out)


def fingerprint_c(x, digits=8):
    """Fingerprint that does not distinguish exact constants from samples."""
    out = []
    for i in range(K):
        z = complex(x.v[i])
        if abs(z) <= 200 * x.err[i] + 1e-300:
            z = 0j
        out.append(f"{z.real:.{digits}g}" if abs(z.imag) <= 200 * x.err[i] + 1e-12 * abs(z)
                   else f"{z.real:.{digits}g}{z.imag:+.{digits}g}j")
    return tuple(out)


def same(a, b, rtol=1e-9, at=None, oracle=False):
    """Equal value numbers; at: only the samples (mask) that are of interest; oracle: b is what is expected,
    samples of special values at which it is not defined say nothing."""
    if a is b:
        return True
    a, b = const(a), const(b)
    if a.c is not None and b.c is not None and a.c == b.c:
        return True
    if at is not None or oracle and not np.isfinite(b.v[5:]).all():
        m = np.ones(K, dtype=bool) if at is None else at.copy()
        if oracle:
            m[5:] &= np.isfinite(b.v[5:])
        if not m.any():
            return True
        with np.errstate(all="ignore"):
            na, nb = np.isnan(a.v[m]), np.isnan(b.v[m])
            if (na != nb).any():
                return False
            m[m] = ~na
            return same_v(a.v[m], b.v[m], a.err[m], b.err[m], rtol)
    with np.errstate(all="ignore"):
        na, nb = np.isnan(a.v), np.isnan(b.v)
        if na.any() or nb.any():
            return bool((na == nb).all() and same_v(a.v[~na], b.v[~nb], a.err[~na], b.err[~nb], rtol))
        return same_v(a.v, b.v, a.err, b.err, rtol)


def same_v(av, bv, ae, be, rtol):
    with np.errstate(all="ignore"):
        inf = np.isinf(np.abs(av)) | np.isinf(np.abs(bv))
        d = np.abs(av - bv)
        tol = 300 * (ae + be) + rtol * np.maximum(np.abs(av), np.abs(bv))
        ok = np.where(inf, av == bv, d <= tol)
    return bool(ok.all())


def is_zero(a):
    a = const(a)
    if a.c is not None:
        return a.c == 0
    return bool((np.abs(a.v) <= 300 * a.err + 1e-300).all())


_NEGS = {"+": "-", "-": "+", "0": "0", ">=": "<=", "<=": ">=", "?": "?"}


def _addsign(a, b):
    if a == "0":
        return b
    if b == "0":
        return a
    if a in ("+", ">=") and b in ("+", ">="):
        return "+" if "+" in (a, b) else ">="
    if a in ("-", "<=") and b in ("-", "<="):
        return "-" if "-" in (a, b) else "<="
    return "?"


def _mulsign(a, b):
    if a == "0" or b == "0":
        return "0"
    if a == "?" or b == "?":
        return "?"
    strict = a in "+-" and b in "+-"
    s = (a in ("+", ">=")) == (b in ("+", ">="))
    return ("+" if s else "-") if strict else (">=" if s else "<=")


def neg(a):
    a = const(a)
    if a.c is not None:
        return const(-a.c)
    return Num(-a.v, a.err, _NEGS[a.sign], None, a.const, a.isint, "neg", (a,))


def _is(x, k):
    return x.c is not None and x.c == k


_HOST = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow}


def _bin(op, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        arr, left = (a, True) if isinstance(a, np.ndarray) else (b, False)
        out = np.empty(arr.shape, dtype=object)
        for i, x in np.ndenumerate(arr):
            out[i] = _HOST[op](x, b) if left else _HOST[op](a, x)
        return out
    try:
        a, b = const(a), const(b)
    except TypeError:
        return NotImplemented
    return binop(op, a, b)


def binop(op, a, b):
    a, b = const(a), const(b)
    cc = a.const and b.const
    ex = a.c is not None and b.c is not None
    with np.errstate(all="ignore"):
        if op == "+":
            if ex:
                return const(a.c + b.c)
            if _is(a, 0):
                return b
            if _is(b, 0):
                return a
            v = a.v + b.v
            return Num(v, a.err + b.err + EPS * np.abs(v), _addsign(a.sign, b.sign), None,
                       cc, a.isint and b.isint, "+", (a, b))
        if op == "-":
            if ex:
                return const(a.c - b.c)
            if _is(b, 0):
                return a
            if a is b:
                return const(0)
            v = a.v - b.v
            return Num(v, a.err + b.err + EPS * np.abs(v),
                       _addsign(a.sign, _NEGS[b.sign]), None, cc, a.isint and b.isint, "-", (a, b))
        if op == "*":
            if ex:
                return const(a.c * b.c)
            if _is(a, 1):
                return b
            if _is(b, 1):
                return a
            if _is(a, 0) or _is(b, 0):
                return const(0)
            v = a.v * b.v
            s = _mulsign(a.sign, b.sign)
            if a is b and not a.iscomplex:
                s = "+" if a.sign in "+-" else ">="
            return Num(v, np.abs(a.v) * b.err + np.abs(b.v) * a.err + EPS * np.abs(v), s,
                       None, cc, a.isint and b.isint, "*", (a, b))
        if op == "/":
            if ex and b.c != 0:
                return const(a.c / b.c)
            if _is(b, 1):
                return a
            if _is(a, 0) and not b.const:
                return const(0)
            v = a.v / b.v
            ab = np.abs(b.v)
            return Num(v, (a.err + np.abs(v) * b.err) / ab + EPS * np.abs(v),
                       _mulsign(a.sign, b.sign), None, cc, False, "/", (a, b))
        if op == "//":
            if ex and b.c != 0:
                return const(Fraction(a.c // b.c))
            v = np.floor_divide(a.v, b.v) if not (a.iscomplex or b.iscomplex) else np.full(K, np.nan)
            return Num(v, np.abs(v) * EPS, "?", None, cc, True, "//", (a, b))
        if op == "%":
            if ex and b.c != 0:
                return const(a.c % b.c)
            v = np.mod(a.v, b.v) if not (a.iscomplex or b.iscomplex) else np.full(K, np.nan)
            s = ">=" if b.sign in ("+", ">=") else "?"
            return Num(v, a.err + b.err + EPS * np.abs(v), s, None, cc, a.isint and b.isint, "%", (a, b))
        if op == "**":
            if ex and b.c.denominator == 1 and abs(b.c) <= 400 and not (a.c == 0 and b.c < 0):
                return const(a.c ** int(b.c))
            if b.c is not None and b.c.denominator == 1 and 0 <= b.c <= 8:
                n = int(b.c)
                if n == 0:
                    return const(1)
                r = a
                for _ in range(n - 1):
                    r = binop("*", r, a)
                if n % 2 == 0 and not a.iscomplex:
                    r.sign = "+" if a.sign in "+-" else ">="
                return r
            if b.c is not None and b.c.denominator == 1 and -8 <= b.c < 0:
                return binop("/", const(1), binop("**", a, const(-b.c)))
            if b.c == Fraction(1, 2):
                return sqrt(a)
            base = a.v.astype(complex) if (a.v.dtype.kind == "f" and (a.v < 0).any()) else a.v
            v = base ** b.v
            av = np.abs(v)
            rel = np.abs(b.v) * a.err / np.maximum(np.abs(a.v), 1e-300) + np.abs(np.log(np.maximum(np.abs(a.v), 1e-300))) * b.err
            return Num(v, av * rel + 4 * EPS * av, "+" if a.sign == "+" else "?", None, cc, False, "**", (a, b))
    raise ValueError(op)


def _fn(name, f, df, a, sign="?", isint=False):
    a = const(a)
    with np.errstate(all="ignore"):
        v = f(a.v)
        d = np.abs(df(a.v)) if df is not None else np.ones(K)
        d = np.where(np.isfinite(d), d, 1e6)
        return Num(v, d * a.err + 4 * EPS * np.abs(v), sign, None, a.const, isint, name, (a,))


def sqrt(a):
    a = const(a)
    if a.c is not None and a.c >= 0:
        n, d = math.isqrt(a.c.numerator), math.isqrt(a.c.denominator)
        if n * n == a.c.numerator and d * d == a.c.denominator:
            return const(Fraction(n, d))
    v = a.v
    if v.dtype.kind == "f" and (v < -300 * a.err).any():
        if a.sign in ("+", ">=", "0"):
            v = np.abs(v)
        else:
            v = v.astype(complex)
    elif v.dtype.kind == "f":
        v = np.maximum(v, 0)
    with np.errstate(all="ignore"):
        r = np.sqrt(v)
        e = np.where(np.abs(r) > 0, a.err / (2 * np.maximum(np.abs(r), 1e-300)), np.sqrt(a.err)) + EPS * np.abs(r)
    return Num(r, e, "+" if a.sign == "+" else (">=" if r.dtype.kind == "f" else "?"), None, a.const, False, "sqrt", (a,))


def absolute(a):
    a = const(a)
    if a.c is not None:
        return const(abs(a.c))
    if a.sign in ("+", ">=", "0"):
        return a
    v = np.abs(a.v)
    return Num(v, a.err, "+" if a.sign == "-" else ">=", None, a.const, a.isint, "abs", (a,))


def conj(a):
    a = const(a)
    if not a.iscomplex:
        return a
    return Num(np.conj(a.v), a.err, "?", None, a.const, False, "conj", (a,))


def real(a):
    a = const(a)
    if not a.iscomplex:
        return a
    return Num(a.v.real.copy(), a.err, "?", None, a.const, False, "real", (a,))


def imag(a):
    a = const(a)
    if not a.iscomplex:
        return const(0)
    return Num(a.v.imag.copy(), a.err, "?", None, a.const, False, "imag", (a,))


def cos(a):
    a = const(a)
    if _is(a, 0):
        return const(1)
    return _fn("cos", np.cos, np.sin, a)


def sin(a):
    a = const(a)
    if _is(a, 0):
        return const(0)
    return _fn("sin", np.sin, np.cos, a)


def tan(a):
    return _fn("tan", np.tan, lambda x: 1 / np.cos(x) ** 2, a)


def exp(a):
    a = const(a)
    if _is(a, 0):
        return const(1)
    return _fn("exp", np.exp, np.exp, a, "?" if a.iscomplex else "+")


def log(a):
    return _fn("log", np.log, lambda x: 1 / x, a)


def arccos(a):
    a = const(a)
    if a.c is not None and abs(a.c) > 1:
        return const(float("nan"))
    return _fn("arccos", lambda x: np.arccos(np.clip(x, -1, 1)), lambda x: 1 / np.sqrt(1 - x * x), a, ">=")


def arcsin(a):
    return _fn("arcsin", lambda x: np.arcsin(np.clip(x, -1, 1)), lambda x: 1 / np.sqrt(1 - x * x), a)


def arctan(a):
    return _fn("arctan", np.arctan, lambda x: 1 / (1 + x * x), a)


def arctan2(y, x):
    y, x = const(y), const(x)
    if y.iscomplex or x.iscomplex:
        return uninterpreted("arctan2", (y, x))
    v = np.arctan2(y.v, x.v)
    r = np.maximum(np.hypot(y.v, x.v), 1e-300)
    return Num(v, (y.err + x.err) / r + EPS * np.abs(v), "?", None, y.const and x.const, False, "arctan2", (y, x))


def floor(a):
    a = const(a)
    if a.c is not None:
        return const(math.floor(a.c))
    if a.isint:
        return a
    return _fn("floor", np.floor, None, a, "?", True)


def trunc(a):
    a = const(a)
    if a.c is not None:
        return const(int(a.c))
    if a.isint:
        return a
    if a.iscomplex:
        return uninterpreted("trunc", (a,))
    return _fn("trunc", np.trunc, None, a, "?", True)


def narrow(a, kind):
    """Value after storing it with fewer digits."""
    import numpy
    with numpy.errstate(all="ignore"):
        v = [complex(kind(z)) if a.iscomplex else float(kind(z.real if isinstance(z, complex) else z)) for z in a.v]
    return Num([complex(z) for z in v] if isinstance(a.v[0], complex) else v, a.err, a.sign, None, a.const, a.isint, "narrow", (a,))


def rnd(a, nd=0):
    a = const(a)
    if a.isint and nd >= 0:
        return a
    if a.c is not None:
        return const(Fraction(round(a.c, nd)) if nd else Fraction(round(a.c)))
    if a.iscomplex:
        return uninterpreted("round", (a, nd))
    return _fn(f"round{nd}", lambda x: np.round(x, nd), None, a, "?", nd == 0)


def maximum(a, b):
    a, b = const(a), const(b)
    if a.c is not None and b.c is not None:
        return a if a.c >= b.c else b
    v = np.maximum(a.v, b.v)
    s = "+" if "+" in (a.sign, b.sign) else (">=" if ">=" in (a.sign, b.sign) or "0" in (a.sign, b.sign) else "?")
    return Num(v, np.maximum(a.err, b.err), s, None, a.const and b.const, a.isint and b.isint, "max", (a, b))


def minimum(a, b):
    return neg(maximum(neg(a), neg(b)))


def tofloat(x):
    """Host number of a constant."""
    x = const(x)
    if x.c is not None:
        return float(x.c)
    if x.const:
        z = complex(x.v[0])
        return z.real if z.imag == 0 else z
    raise TypeError("not a constant")
