"""Model of the part of numpy that matters to the analysed code."""
import math
from fractions import Fraction

import numpy as np

from . import num as N
from .bdd import FALSE, M, TRUE
from .num import Num
from .values import *

RANK = {"bool": 0, "int": 1, "float": 2, "complex": 3, "str": 4, "object": 5}


# ------------------------------------------------------------------ conversion
def leaf_dtype(I, x):
    if isinstance(x, (bool, B)):
        return "bool"
    if isinstance(x, int):
        return "int"
    if isinstance(x, Num):
        if x.iscomplex:
            return "complex"
        return "int" if x.isint and x.c is None and not x.npf else "float"
    if isinstance(x, (str, TStr)):
        return "str"
    if isinstance(x, G):
        r = "bool"
        for g, v in x.cases:
            d = leaf_dtype(I, v)
            if RANK[d] > RANK[r]:
                r = d
        return r
    return "object"


class Narrow(str):
    """A number type with fewer digits than double precision."""
    to = None


NARROW = {"float32": ("float", np.float32), "single": ("float", np.float32), "f": ("float", np.float32), "f4": ("float", np.float32), "<f4": ("float", np.float32),
          "float16": ("float", np.float16), "half": ("float", np.float16), "e": ("float", np.float16), "f2": ("float", np.float16), "complex64": ("complex", np.complex64), "c8": ("complex", np.complex64)}


def narrow(n):
    d = Narrow(NARROW[n][0])
    d.to = NARROW[n][1]
    return d


def dtname(I, dt):
    if dt is None:
        return None
    if isinstance(dt, Narrow):
        return dt
    if isinstance(dt, BType):
        n = dt.name
    elif isinstance(dt, str):
        n = dt
    elif isinstance(dt, Obj) and dt.host is not None:
        n = dt.host
    else:
        raise Undecided(f"dtype {dt}")
    if n in NARROW:
        return narrow(n)
    n = {"float64": "float", "float_": "float", "double": "float", "d": "float", "<f8": "float",
         "f8": "float", "int64": "int", "int32": "int", "int_": "int", "integer": "int", "i": "int", "i8": "int",
         "complex128": "complex", "complex_": "complex", "c16": "complex", "bool_": "bool", "floating": "float",
         "str_": "str", "O": "object", "complexfloating": "complex"}.get(n, n)
    if n not in RANK:
        raise Undecided(f"dtype {n}")
    return n


def asfloat(x):
    if isinstance(x, Num) and x.isint and x.c is None and not x.npf:
        y = Num(x.v, x.err, x.sign, x.c, x.const, x.isint, x.op, x.args)
        y.npf = True
        return y
    return x


def cast(I, x, dt, strict=True):
    """Element conversion. strict: conversion of python objects (np.array)."""
    r = cast_(I, x, dt, strict)
    if isinstance(dt, Narrow) and isinstance(r, Num):
        r = N.narrow(r, dt.to)
    return r


def cast_(I, x, dt, strict=True):
    if isinstance(x, G):
        return I.lift(lambda v: cast(I, v, dt, strict), x)
    if dt == "object":
        return x
    if isinstance(x, NotNumeric):
        I.throw("ValueError", "could not convert to a number")
    if isinstance(x, (Opaque, Ignore)):
        raise Undecided(f"conversion of {x}")
    if isinstance(x, B):
        if dt == "bool":
            return x
        return G([(x.g, cast(I, True, dt)), (M.neg(x.g), cast(I, False, dt))])
    if dt in ("float", "complex"):
        if isinstance(x, Num):
            if dt == "float" and x.iscomplex:
                if strict:
                    I.throw("TypeError", "can't convert complex to float")
                return N.real(x)
            return asfloat(x) if dt == "float" else x
        if isinstance(x, (bool, int)):
            return N.const(int(x))
        if x is None:
            return N.const(float("nan"))
        if isinstance(x, (str, TStr)):
            from .models import str_to_float
            return str_to_float(I, x)
        if isinstance(x, Obj) and x.cls.has("__float__"):
            return I.call(I.builtins["float"], [x])
        I.throw("TypeError", f"float() argument must be a string or a real number, not '{I.typename(x)}'")
    if dt == "int":
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, Num):
            if x.iscomplex:
                I.throw("TypeError", "int() argument must not be complex")
            t = N.trunc(x)
            if t.c is not None:
                return int(t.c)
            if t.npf:
                t = Num(t.v, t.err, t.sign, t.c, t.const, True, t.op, t.args)
            return t
        if isinstance(x, (str, TStr)):
            return I.call(I.builtins["int"], [x])
        I.throw("TypeError", f"int() argument must be a number, not '{I.typename(x)}'")
    if dt == "bool":
        return I.mkbool(I.truth(x))
    if dt == "str":
        if isinstance(x, (str, TStr)):
            return x
        return I.call(I.builtins["str"], [x])
    raise Undecided(dt)


def mkarr(I, data, dt):
    if not isinstance(data, np.ndarray):
        d = np.empty((), dtype=object)
        d[()] = data
        data = d
    return Arr(data, dt, I.pc)


def is_seq(I, x):
    return isinstance(x, (tuple, PList, Range, Arr)) or (
        isinstance(x, Obj) and (x.cls.has("__array_interface__") or x.cls.has("__array__")))


def nest(I, x):
    """Nested host lists of the leaves; returns (nested, dtype or None)."""
    if isinstance(x, G):
        kinds = [is_seq(I, v) for _, v in x.cases]
        if any(kinds):
            if not all(kinds):
                raise Undecided("array of gated shape")
            arrs = [(g, toarr(I, v)) for g, v in x.cases if M.conj(g, I.pc) != FALSE]
            sh = {a.data.shape for _, a in arrs}
            if len(sh) > 1:
                raise Undecided("array of gated shape")
            return nest(I, joinarr(I, arrs))
        return x
    if isinstance(x, Arr):
        return x.data.tolist()
    if isinstance(x, Obj) and x.cls.has("__array_interface__"):
        ai = I.getattr(x, "__array_interface__")
        if isinstance(ai, Obj) and isinstance(ai.host, Arr):
            return nest(I, ai.host)
        raise Undecided("__array_interface__")
    if isinstance(x, Obj) and x.cls.has("__array__"):
        return nest(I, I.call(I.getattr(x, "__array__"), []))
    if isinstance(x, (tuple, PList, Range)):
        return [nest(I, y) for y in I.listof(x)]
    if isinstance(x, Obj) and x.cls.has("__len__") and x.cls.has("__getitem__"):
        raise Undecided("sequence object to array")
    return x


def shape_of(I, n):
    if not isinstance(n, list):
        return ()
    if not n:
        return (0,)
    s = shape_of(I, n[0])
    for y in n[1:]:
        if shape_of(I, y) != s:
            I.throw("ValueError", "setting an array element with a sequence. The requested array has an inhomogeneous shape")
    return (len(n),) + s


def joinarr(I, arrs):
    """Gated join of arrays of one shape (fresh array)."""
    a0 = arrs[0][1]
    out = np.empty(a0.data.shape, dtype=object)
    dt = max((a.dtype for _, a in arrs), key=lambda d: RANK[d])
    for idx in np.ndindex(*a0.data.shape):
        out[idx] = I.join([(g, a.data[idx]) for g, a in arrs])
    return mkarr(I, out, dt)


def toarr(I, x, dt=None, copy=False):
    x = I.restrict(x)
    dt = dtname(I, dt)
    if isinstance(x, Arr) and (dt is None or dt == x.dtype and isinstance(dt, Narrow) <= isinstance(x.dtype, Narrow)):
        if not copy:
            return x
        return mkarr(I, x.data.copy(), x.dtype)
    if isinstance(x, G) and any(is_seq(I, v) for _, v in x.cases):
        arrs = [(g, v) for g, v in x.cases if M.conj(g, I.pc) != FALSE]
        pc0 = I.pc
        out = []
        for g, v in arrs:
            I.pc = M.conj(pc0, g)
            try:
                out.append((I.pc, toarr(I, v, dt, copy)))
            except Dead:
                continue
        I.pc = FALSE
        for g, _ in out:
            I.pc = M.disj(I.pc, g)
        if I.pc == FALSE:
            raise Dead
        if len({a.data.shape for _, a in out}) > 1:
            raise Undecided("array of gated shape")
        return joinarr(I, out)
    if isinstance(x, (Opaque, Ignore)) and not isinstance(x, NotNumeric):
        raise Undecided(f"array of {x}")
    if isinstance(x, (PSet, PDict, HostIter, Func, Bound)) and dt in ("float", "int", "complex"):
        I.throw("TypeError", f"float() argument must be a string or a real number, not '{I.typename(x)}'")
    n = nest(I, x)
    sh = shape_of(I, n)
    src = None
    if isinstance(x, Arr):
        src = x.dtype
    data = np.empty(sh, dtype=object)
    for idx in np.ndindex(*sh):
        y = n
        for i in idx:
            y = y[i]
        data[idx] = y
    if dt is None:
        if src is not None:
            dt = src
        else:
            dt = None
            for y in data.reshape(-1):
                d = leaf_dtype(I, y)
                if dt is None or RANK[d] > RANK[dt]:
                    dt = d
            if dt is None:
                dt = "float"
            if isinstance(x, (tuple, PList)):
                # nested arrays keep their dtype
                def dts(v):
                    if isinstance(v, Arr):
                        return [v.dtype]
                    if isinstance(v, (tuple, PList)):
                        return [d for w in I.listof(v) for d in dts(w)]
                    return []
                for d in dts(x):
                    if RANK[d] > RANK[dt]:
                        dt = d
    for idx in np.ndindex(*sh):
        data[idx] = cast(I, data[idx], dt, not isinstance(x, Arr))
    return mkarr(I, data, dt)


def unwrap(I, data, dt):
    """Result of an operation: 0-d becomes a scalar."""
    if isinstance(data, np.ndarray) and data.ndim == 0:
        return data[()]
    if not isinstance(data, np.ndarray):
        return data
    return mkarr(I, data, dt)


# ------------------------------------------------------------------ elementwise
def num_of(I, x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, B):
        return G([(x.g, 1), (M.neg(x.g), 0)])
    return x


def ebin(I, op, x, y):
    """Scalar operation between array elements (numpy rules)."""
    if isinstance(x, G) or isinstance(y, G):
        return I.lift(lambda a, b: ebin(I, op, a, b), x, y)
    if isinstance(x, Num) and isinstance(y, Num):
        return N.binop(op, x, y)
    if op in ("&", "|", "^") and isinstance(x, (bool, B)) and isinstance(y, (bool, B)):
        a, b = I.truth(x), I.truth(y)
        r = M.conj(a, b) if op == "&" else (M.disj(a, b) if op == "|" else M.neg(M.xnor(a, b)))
        return I.mkbool(r)
    if isinstance(x, (bool, B)) or isinstance(y, (bool, B)):
        return ebin(I, op, num_of(I, x), num_of(I, y))
    if isinstance(x, int) and isinstance(y, int):
        if op in "+-*":
            return {"+": x + y, "-": x - y, "*": x * y}[op]
        if op == "/":
            if y == 0:
                return N.const(float("nan") if x == 0 else math.copysign(float("inf"), x))
            return N.const(Fraction(x, y))
        if op in ("//", "%"):
            if y == 0:
                return 0
            return x // y if op == "//" else x % y
        if op == "**":
            return x ** y if y >= 0 else N.const(Fraction(x) ** y)
        if op in ("&", "|", "^"):
            return {"&": x & y, "|": x | y, "^": x ^ y}[op]
    if isinstance(x, (int, Num)) and isinstance(y, (int, Num)):
        return N.binop(op, N.const(x), N.const(y))
    return I.binop(op, x, y)


def res_dtype(op, a, b):
    d = a if RANK[a] >= RANK[b] else b
    if isinstance(d, Narrow) and RANK[a] == RANK[b] and not (isinstance(a, Narrow) and isinstance(b, Narrow)):
        d = str(d)
    if op == "/" and RANK[d] < 2:
        return "float"
    if d == "bool" and op not in ("&", "|", "^"):
        return "int"
    return d


def broadcast(I, a, b):
    try:
        return np.broadcast_arrays(a, b)
    except ValueError:
        I.throw("ValueError", f"operands could not be broadcast together with shapes {a.shape} {b.shape}")


def arr_binop(I, op, a, b):
    if op == "@":
        return matmul(I, a, b)
    a, b = toarr(I, a), toarr(I, b)
    if "str" in (a.dtype, b.dtype):
        I.throw("TypeError", "ufunc did not contain a loop with signature matching types")
    x, y = broadcast(I, a.data, b.data)
    out = np.empty(x.shape, dtype=object)
    for idx in np.ndindex(*x.shape):
        out[idx] = ebin(I, op, x[idx], y[idx])
    return unwrap(I, out, res_dtype(op, a.dtype, b.dtype))


def arr_map(I, a, f, dt=None):
    out = np.empty(a.data.shape, dtype=object)
    for idx in np.ndindex(*a.data.shape):
        out[idx] = I.lift(f, a.data[idx])
    return mkarr(I, out, dt or a.dtype)


def nsum(I, xs):
    r = None
    for x in xs:
        r = x if r is None else ebin(I, "+", r, x)
    return 0 if r is None else num_of(I, r)


def matmul(I, a, b):
    a, b = toarr(I, a), toarr(I, b)
    if a.data.ndim == 0 or b.data.ndim == 0:
        I.throw("ValueError", "matmul: Input operand does not have enough dimensions")
    return dotlike(I, a, b, True)


def dotlike(I, a, b, mm):
    x, y = a.data, b.data
    dt = res_dtype("*", a.dtype, b.dtype)
    if x.ndim == 0 or y.ndim == 0:
        return arr_binop(I, "*", a, b)
    kx = x.shape[-1]
    ky = y.shape[0] if y.ndim == 1 else y.shape[-2]
    if kx != ky:
        I.throw("ValueError", f"shapes {x.shape} and {y.shape} not aligned")
    if x.ndim > 2 or y.ndim > 2:
        if not mm:
            raise Undecided("dot of high dimensional arrays")
        X = x if x.ndim > 1 else x[None, :]
        Y = y if y.ndim > 1 else y[:, None]
        bs = np.broadcast_shapes(X.shape[:-2], Y.shape[:-2])
        X = np.broadcast_to(X, bs + X.shape[-2:])
        Y = np.broadcast_to(Y, bs + Y.shape[-2:])
        out = np.empty(bs + (X.shape[-2], Y.shape[-1]), dtype=object)
        for idx in np.ndindex(*out.shape):
            u, v = X[idx[:-1]], Y[idx[:-2] + (slice(None), idx[-1])]
            out[idx] = nsum(I, [ebin(I, "*", p, q) for p, q in zip(u, v)])
        if x.ndim == 1:
            out = out[..., 0, :]
        if y.ndim == 1:
            out = out[..., 0]
        return unwrap(I, out, dt)
    X = x if x.ndim == 2 else x[None, :]
    Y = y if y.ndim == 2 else y[:, None]
    out = np.empty((X.shape[0], Y.shape[1]), dtype=object)
    for i in range(X.shape[0]):
        for j in range(Y.shape[1]):
            out[i, j] = nsum(I, [ebin(I, "*", p, q) for p, q in zip(X[i], Y[:, j])])
    if x.ndim == 1:
        out = out[0]
        if y.ndim == 1:
            return out[0]
        return unwrap(I, out, dt)
    if y.ndim == 1:
        out = out[:, 0]
    return unwrap(I, out, dt)


def arr_compare(I, op, x, y):
    if x is None or y is None:
        a = x if isinstance(x, Arr) else y
        return arr_map(I, a, lambda v: op == "!=", "bool")
    if isinstance(x, (str, TStr)) or isinstance(y, (str, TStr)):
        a = toarr(I, x)
        b = toarr(I, y)
        if a.dtype != "str" or b.dtype != "str":
            if op in ("==", "!="):
                a = x if isinstance(x, Arr) else y
                return arr_map(I, a, lambda v: op == "!=", "bool")
            I.throw("TypeError", "comparison")
    a, b = toarr(I, x), toarr(I, y)
    try:
        p, q = np.broadcast_arrays(a.data, b.data)
    except ValueError:
        if op in ("==", "!="):
            I.throw("ValueError", "operands could not be broadcast together")
        I.throw("ValueError", "operands could not be broadcast together")
    out = np.empty(p.shape, dtype=object)
    for idx in np.ndindex(*p.shape):
        out[idx] = I.compare(op, p[idx], q[idx])
    return unwrap(I, out, "bool")


# -------------------------------------------------------------------- indexing
def host_index(I, k):
    if isinstance(k, tuple):
        return tuple(host_index(I, I.restrict(x)) for x in k)
    if k is None or k is Ellipsis or isinstance(k, slice):
        return k
    if isinstance(k, bool):
        return k
    if isinstance(k, int):
        return k
    if isinstance(k, Num):
        if k.c is not None and k.c.denominator == 1:
            return int(k.c)
        if not k.isint:
            I.throw("IndexError", "only integers, slices are valid indices")
        raise Undecided("symbolic index")
    if isinstance(k, (PList, Range)):
        return host_index(I, toarr(I, k))
    if isinstance(k, Arr):
        if k.dtype == "bool":
            out = np.empty(k.data.shape, dtype=bool)
            for idx in np.ndindex(*k.data.shape):
                g = I.truth(k.data[idx])
                if M.implies(I.pc, g):
                    out[idx] = True
                elif M.conj(I.pc, g) == FALSE:
                    out[idx] = False
                else:
                    raise Undecided("uncertain mask")
            return out
        if k.dtype == "int":
            out = np.empty(k.data.shape, dtype=int)
            for idx in np.ndindex(*k.data.shape):
                v = I.restrict(k.data[idx])
                if isinstance(v, Num) and v.c is not None:
                    v = int(v.c)
                if not isinstance(v, int):
                    raise Undecided("symbolic index")
                out[idx] = v
            return out
        if k.data.size == 0:
            return np.empty(k.data.shape, dtype=int)
        I.throw("IndexError", "arrays used as indices must be of integer (or boolean) type")
    if isinstance(k, (G, B)):
        raise Undecided("gated index")
    I.throw("IndexError", "only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices")


def arr_index(I, a, k):
    if isinstance(k, tuple) and any(isinstance(I.restrict(x), G) for x in k):
        return I.lift(lambda *p: arr_index(I, a, tuple(p)), *k)
    h = host_index(I, k)
    try:
        r = a.data[h]
    except IndexError as e:
        I.throw("IndexError", str(e))
    if isinstance(r, np.ndarray) and r.ndim > 0 or (isinstance(r, np.ndarray) and isinstance(h, tuple) and Ellipsis in h):
        out = Arr(r, a.dtype, a.born, a)
        if r.base is None or not np.shares_memory(r, a.data):
            out.born, out.base = I.pc, None
        return out
    if isinstance(r, np.ndarray):
        r = r[()]
    return I.restrict(r)


def arr_setitem(I, a, k, v):
    if isinstance(k, tuple) and any(isinstance(I.restrict(x), G) for x in k):
        I.lift(lambda *p: arr_setitem(I, a, tuple(p), v), *k)
        return
    # uncertain masks become gated writes
    if isinstance(k, Arr) and k.dtype == "bool":
        try:
            h = host_index(I, k)
        except Undecided:
            if k.data.shape != a.data.shape or is_seq(I, I.restrict(v)):
                raise
            for idx in np.ndindex(*a.data.shape):
                g = I.truth(k.data[idx])
                p0 = I.pc
                I.pc = M.conj(p0, g)
                if I.pc != FALSE:
                    a.data[idx] = I.gate(a.born, cast(I, v, a.dtype), a.data[idx])
                I.pc = p0
            return
    else:
        h = host_index(I, k)
    try:
        view = a.data[h]
    except IndexError as e:
        I.throw("IndexError", str(e))
    tgt = np.empty(a.data.shape, dtype=object)
    cnt = np.arange(a.data.size).reshape(a.data.shape)[h]
    flat = np.asarray(cnt)
    if isinstance(I.restrict(v), (PSet, PDict)):
        I.throw("TypeError", "float() argument must be a string or a real number")
    val = toarr(I, v)
    if val.dtype == "complex" and a.dtype in ("float", "int"):
        if isinstance(v, Arr):
            pass            # numpy warns and discards the imaginary part
        elif val.data.ndim == 0:
            I.throw("TypeError", "can't convert complex to float")
    try:
        b = np.broadcast_to(val.data, flat.shape)
    except ValueError:
        # leading ones may be dropped
        d = val.data
        while d.ndim > flat.ndim and d.shape[0] == 1:
            d = d[0]
        try:
            b = np.broadcast_to(d, flat.shape)
        except ValueError:
            I.throw("ValueError", f"could not broadcast input array from shape {val.data.shape} into shape {flat.shape}")
    vals = [cast(I, x, a.dtype, False) for x in b.reshape(-1)]
    a.wloc = I.loc
    for pos, x in zip(flat.reshape(-1), vals):
        idx = np.unravel_index(int(pos), a.data.shape)
        a.data[idx] = I.gate(a.born, x, a.data[idx])
    note_write(I, a)


def note_write(I, a):
    while a is not None:
        a.wloc = I.loc
        a = a.base


# ---------------------------------------------------------------------- closeness
def close_guard(I, x, y, rtol=None, atol=None, what="close"):
    x, y = num_of(I, x), num_of(I, y)
    if isinstance(x, G) or isinstance(y, G):
        return I.truth(I.lift(lambda a, b: I.mkbool(close_guard(I, a, b, rtol, atol)), x, y))
    x, y = N.const(x), N.const(y)
    d = N.binop("-", x, y)
    if N.is_zero(d):
        return TRUE
    if x.const and y.const:
        r = 1e-5 if rtol is None else rtol
        a = 1e-8 if atol is None else atol
        return TRUE if bool(np.isclose(x.v[0], y.v[0], rtol=r, atol=a)) else FALSE
    if I.generic:
        near = tuple(bool(z) for z in np.isclose(x.v, y.v, rtol=1e-5 if rtol is None else rtol, atol=1e-8 if atol is None else atol))
        if not any(near):
            return FALSE
        return M.var(("near", near + tuple(f"{z:.8g}" for z in d.v), f"{N.show(x, 3)} ~ {N.show(y, 3)}"))
    s = d.v[0]
    key = tuple(f"{complex(z / s).real:.8g},{complex(z / s).imag:.6g}" for z in d.v)
    return M.var(("close", key, f"{N.show(x, 3)} ~ {N.show(y, 3)}"))


# ------------------------------------------------------------------ sample-point
def pointwise(I, mats, f, nout=1, what="f", bound=True):
    """Apply a deterministic numeric function at every sample point.

    mats: object arrays of Num/int.  f: list of host arrays -> host array(s).
    """
    def conv(m, i):
        out = np.empty(m.shape, dtype=complex)
        for idx in np.ndindex(*m.shape):
            x = m[idx]
            if isinstance(x, (G, B)):
                x = I.restrict(x)
                if isinstance(x, G):
                    raise Undecided(f"{what} of gated values")
            out[idx] = N.const(x).v[i]
        if all(not N.const(I.restrict(x)).iscomplex for x in m.reshape(-1)):
            out = out.real
        return out

    res = []
    for i in range(N.K):
        try:
            res.append(f(*[conv(m, i) for m in mats]))
        except np.linalg.LinAlgError:
            res.append(None)
    if any(r is None for r in res):
        return None
    errs = max((float(np.max(N.const(I.restrict(x)).err)) for m in mats for x in m.reshape(-1)), default=0)
    const = all(N.const(I.restrict(x)).const for m in mats for x in m.reshape(-1))

    def build(arrs):
        sh = np.shape(arrs[0])
        out = np.empty(sh, dtype=object)
        for idx in np.ndindex(*sh):
            v = np.array([np.asarray(a)[idx] for a in arrs])
            out[idx] = Num(v, (np.abs(v) + 1) * 1e-13 + 1e3 * errs, "?", None, const, False, what, ())
        return out[()] if sh == () else out

    if nout == 1:
        return build(res)
    return [build([r[j] for r in res]) for j in range(nout)]


# ----------------------------------------------------------------------- functions
def setup(I, lf, LinAlgError):
    """Attribute dict of the numpy module. lf wraps leaf functions."""
    at = {}
    BT = I.builtins

    def reg(*names):
        def deco(f):
            h = lf(names[0], f)
            for n in names:
                at[n] = h
            return f
        return deco

    ndarray = BType("ndarray")
    at["ndarray"] = ndarray
    for n in ("float64", "float_", "double"):
        at[n] = BType("float64", BT["float"].call)
    for n in ("float32", "single", "float16", "half", "complex64"):
        at[n] = BType({"single": "float32", "half": "float16"}.get(n, n), lambda I, x=0, n=n: cast(I, x, narrow(n)))
    for n in ("int64", "int32", "int_", "integer", "intp"):
        at[n] = BType("integer" if n == "integer" else "int", BT["int"].call)
    for n in ("complex128", "complex_"):
        at[n] = BType("complex", BT["complex"].call)
    at["bool_"] = BType("bool", BT["bool"].call)
    at["floating"] = BType("floating")
    at["number"] = BType("number")
    at["str_"] = BT["str"]
    at["pi"] = N.const(math.pi)
    at["e"] = N.const(math.e)
    at["nan"] = at["NaN"] = N.const(float("nan"))
    at["inf"] = N.const(float("inf"))
    at["newaxis"] = None

    def shp(I, s):
        if isinstance(s, (tuple, PList)):
            return tuple(ints(I, x) for x in I.listof(s))
        return (ints(I, s),)

    def ints(I, x):
        x = I.restrict(x)
        if isinstance(x, bool) or not isinstance(x, (int, Num)):
            if isinstance(x, (G, B)):
                raise Undecided("gated size")
            I.throw("TypeError", f"'{I.typename(x)}' object cannot be interpreted as an integer")
        if isinstance(x, Num):
            if x.c is not None and x.c.denominator == 1 and x.isint:
                return int(x.c)
            if x.isint:
                raise Undecided("symbolic size")
            I.throw("TypeError", "'float' object cannot be interpreted as an integer")
        return x

    I.np_ints = ints

    @reg("array")
    def array(I, x, dtype=None, copy=True, ndmin=0, order=None):
        a = toarr(I, x, dtype, copy is not False)
        if not isinstance(a, Arr):
            raise Undecided("array")
        if ndmin and a.data.ndim < ndmin:
            a = mkarr(I, a.data.reshape((1,) * (ndmin - a.data.ndim) + a.data.shape), a.dtype)
        return a

    @reg("asarray", "ascontiguousarray", "asanyarray")
    def asarray(I, x, dtype=None, order=None):
        return toarr(I, x, dtype, False)

    @reg("copy")
    def npcopy(I, x):
        return toarr(I, x, None, True)

    def filled(v, I, shape, dtype="float"):
        s = shp(I, shape)
        dt = dtname(I, dtype) or "float"
        out = np.empty(s, dtype=object)
        x = cast(I, v, dt)
        for idx in np.ndindex(*s):
            out[idx] = x
        return mkarr(I, out, dt)

    at["zeros"] = lf("zeros", lambda I, shape, dtype="float", order=None: filled(0, I, shape, dtype))
    at["ones"] = lf("ones", lambda I, shape, dtype="float", order=None: filled(1, I, shape, dtype))
    at["empty"] = lf("empty", lambda I, shape, dtype="float", order=None: filled(0, I, shape, dtype))

    def full(I, shape, fill_value, dtype=None):
        return filled(fill_value, I, shape, dtype or leaf_dtype(I, fill_value))

    at["full"] = lf("full", full)

    def like(v):
        def f(I, a, fill_value=None, dtype=None):
            a = toarr(I, a)
            return filled(v if fill_value is None else fill_value, I, tuple(a.data.shape), dtype or a.dtype)
        return f

    at["zeros_like"] = lf("zeros_like", lambda I, a, dtype=None: like(0)(I, a, None, dtype))
    at["ones_like"] = lf("ones_like", lambda I, a, dtype=None: like(1)(I, a, None, dtype))
    at["empty_like"] = at["zeros_like"]
    at["full_like"] = lf("full_like", lambda I, a, fill_value, dtype=None: like(0)(I, a, fill_value, dtype))

    @reg("eye", "identity")
    def eye(I, n, M_=None, k=0, dtype="float"):
        n = ints(I, n)
        m = n if M_ is None else ints(I, M_)
        dt = dtname(I, dtype) or "float"
        out = np.empty((n, m), dtype=object)
        for i in range(n):
            for j in range(m):
                out[i, j] = cast(I, 1 if j - i == k else 0, dt)
        return mkarr(I, out, dt)

    @reg("diag")
    def diag(I, v, k=0):
        a = toarr(I, v)
        if a.data.ndim == 2:
            r = np.array([a.data[i, i + k] for i in range(min(a.data.shape)) if 0 <= i + k < a.data.shape[1]] + [None], dtype=object)[:-1]
            return mkarr(I, r, a.dtype)
        if a.data.ndim != 1:
            I.throw("ValueError", "Input must be 1- or 2-d.")
        n = a.data.shape[0] + abs(k)
        out = np.empty((n, n), dtype=object)
        z = cast(I, 0, a.dtype)
        for i in range(n):
            for j in range(n):
                out[i, j] = z
        for i in range(a.data.shape[0]):
            out[(i, i + k) if k >= 0 else (i - k, i)] = a.data[i]
        return mkarr(I, out, a.dtype)

    @reg("diagonal")
    def diagonal(I, a):
        return diag(I, a)

    @reg("trace")
    def trace(I, a):
        a = toarr(I, a)
        if a.data.ndim != 2:
            raise Undecided("trace")
        return nsum(I, [a.data[i, i] for i in range(min(a.data.shape))])

    @reg("dot")
    def dot(I, a, b):
        return dotlike(I, toarr(I, a), toarr(I, b), False)

    @reg("vdot")
    def vdot(I, a, b):
        a = arr_map(I, toarr(I, a), N.conj)
        return dotlike(I, mkarr(I, a.data.reshape(-1), a.dtype), mkarr(I, toarr(I, b).data.reshape(-1), toarr(I, b).dtype), False)

    at["matmul"] = lf("matmul", lambda I, a, b: matmul(I, a, b))
    I.excs["__mm__"] = None
    del I.excs["__mm__"]

    @reg("inner")
    def inner(I, a, b):
        a, b = toarr(I, a), toarr(I, b)
        if a.data.ndim == 1 and b.data.ndim == 1:
            return dotlike(I, a, b, False)
        raise Undecided("inner")

    def vec3(I, a, axis=-1):
        if a.data.shape == (3,):
            return a
        return a

    @reg("cross")
    def cross(I, a, b):
        a, b = toarr(I, a), toarr(I, b)
        if a.data.shape[-1:] != (3,) or b.data.shape[-1:] != (3,):
            I.throw("ValueError", "incompatible dimensions for cross product")
        x, y = broadcast(I, a.data, b.data)
        out = np.empty(x.shape, dtype=object)
        for idx in np.ndindex(*x.shape[:-1]):
            for c in range(3):
                p, q = (c + 1) % 3, (c + 2) % 3
                out[idx + (c,)] = ebin(I, "-", ebin(I, "*", x[idx + (p,)], y[idx + (q,)]),
                                       ebin(I, "*", x[idx + (q,)], y[idx + (p,)]))
        return mkarr(I, out, res_dtype("*", a.dtype, b.dtype))

    @reg("outer")
    def outer(I, a, b):
        a, b = toarr(I, a), toarr(I, b)
        x, y = a.data.reshape(-1), b.data.reshape(-1)
        out = np.empty((x.size, y.size), dtype=object)
        for i in range(x.size):
            for j in range(y.size):
                out[i, j] = ebin(I, "*", x[i], y[j])
        return mkarr(I, out, res_dtype("*", a.dtype, b.dtype))

    at["multiply_outer"] = at["outer"]

    @reg("kron")
    def kron(I, a, b):
        a, b = toarr(I, a), toarr(I, b)
        x, y = a.data, b.data
        if x.ndim != 2 or y.ndim != 2:
            raise Undecided("kron")
        out = np.empty((x.shape[0] * y.shape[0], x.shape[1] * y.shape[1]), dtype=object)
        for i in range(out.shape[0]):
            for j in range(out.shape[1]):
                out[i, j] = ebin(I, "*", x[i // y.shape[0], j // y.shape[1]], y[i % y.shape[0], j % y.shape[1]])
        return mkarr(I, out, res_dtype("*", a.dtype, b.dtype))

    @reg("einsum")
    def einsum(I, spec, *ops, optimize=None):
        if not isinstance(spec, str):
            raise Undecided("einsum")
        ops = [toarr(I, o) for o in ops]
        spec = spec.replace(" ", "")
        if "." in spec:
            raise Undecided("einsum ellipsis")
        if "->" in spec:
            lhs, rhs = spec.split("->")
        else:
            lhs = spec
            from collections import Counter
            c = Counter(lhs.replace(",", ""))
            rhs = "".join(sorted(k for k, n in c.items() if n == 1))
        ins = lhs.split(",")
        if len(ins) != len(ops):
            I.throw("ValueError", "einsum: number of operands")
        dims = {}
        for s, o in zip(ins, ops):
            if len(s) != o.data.ndim:
                I.throw("ValueError", "einstein sum subscripts string does not match the operand dimensions")
            for ch, n in zip(s, o.data.shape):
                if dims.setdefault(ch, n) != n:
                    if 1 in (dims[ch], n):
                        raise Undecided("einsum broadcast")
                    I.throw("ValueError", "operands could not be broadcast together in einsum")
        summed = [ch for ch in dims if ch not in rhs]
        out = np.empty(tuple(dims[c] for c in rhs), dtype=object)
        for idx in np.ndindex(*out.shape):
            env = dict(zip(rhs, idx))
            terms = []
            for sidx in np.ndindex(*[dims[c] for c in summed]):
                env.update(zip(summed, sidx))
                t = None
                for s, o in zip(ins, ops):
                    x = o.data[tuple(env[c] for c in s)]
                    t = x if t is None else ebin(I, "*", t, x)
                terms.append(t)
            out[idx] = nsum(I, terms)
        dt = ops[0].dtype
        for o in ops[1:]:
            dt = res_dtype("*", dt, o.dtype)
        return unwrap(I, out, dt)

    def seqarrs(I, xs):
        if isinstance(xs, Arr):
            return [Arr(xs.data[i], xs.dtype, I.pc) if xs.data.ndim > 1 else mkarr(I, xs.data[i], xs.dtype) for i in range(xs.data.shape[0])]
        return [toarr(I, x) for x in I.listof(xs)]

    def maxdt(arrs):
        dt = arrs[0].dtype
        for a in arrs[1:]:
            if RANK[a.dtype] > RANK[dt]:
                dt = a.dtype
        return dt

    def castall(I, data, dt):
        out = np.empty(data.shape, dtype=object)
        for idx in np.ndindex(*data.shape):
            out[idx] = cast(I, data[idx], dt, False)
        return out

    def cat(I, arrs, axis):
        dt = maxdt(arrs)
        try:
            d = np.concatenate([a.data for a in arrs], axis=axis)
        except ValueError as e:
            I.throw("ValueError", str(e))
        return mkarr(I, castall(I, d, dt), dt)

    @reg("concatenate")
    def concatenate(I, xs, axis=0):
        arrs = seqarrs(I, xs)
        if not arrs:
            I.throw("ValueError", "need at least one array to concatenate")
        return cat(I, arrs, axis)

    @reg("stack")
    def stack(I, xs, axis=0):
        arrs = seqarrs(I, xs)
        dt = maxdt(arrs)
        try:
            d = np.stack([a.data for a in arrs], axis=axis)
        except ValueError as e:
            I.throw("ValueError", str(e))
        return mkarr(I, castall(I, d, dt), dt)

    @reg("vstack", "row_stack")
    def vstack(I, xs):
        return cat(I, [mkarr(I, np.atleast_2d(a.data), a.dtype) for a in seqarrs(I, xs)], 0)

    @reg("hstack")
    def hstack(I, xs):
        arrs = [mkarr(I, np.atleast_1d(a.data), a.dtype) for a in seqarrs(I, xs)]
        return cat(I, arrs, 0 if arrs[0].data.ndim == 1 else 1)

    @reg("column_stack")
    def column_stack(I, xs):
        return cat(I, [mkarr(I, a.data[:, None] if a.data.ndim == 1 else a.data, a.dtype) for a in seqarrs(I, xs)], 1)

    @reg("block")
    def block(I, xs):
        rows = []
        for r in I.listof(xs):
            if isinstance(r, (PList, tuple)):
                parts = [toarr(I, x) for x in I.listof(r)]
                rows.append(cat(I, parts, parts[0].data.ndim - 1))
            else:
                raise Undecided("block")
        return cat(I, rows, 0)

    @reg("append")
    def append(I, a, b, axis=None):
        a, b = toarr(I, a), toarr(I, b)
        if axis is None:
            return cat(I, [mkarr(I, a.data.reshape(-1), a.dtype), mkarr(I, b.data.reshape(-1), b.dtype)], 0)
        return cat(I, [a, b], axis)

    def shapefn(name, f):
        def g(I, a, *args, **kw):
            a = toarr(I, a)
            args = [conv(x) for x in args]
            kw = {k: conv(x) for k, x in kw.items()}
            try:
                d = f(a.data, *args, **kw)
            except ValueError as e:
                I.throw("ValueError", str(e))
            return Arr(d, a.dtype, a.born if np.shares_memory(d, a.data) else I.pc, a if np.shares_memory(d, a.data) else None)

        def conv(x):
            if isinstance(x, PList):
                return [conv(y) for y in I.listof(x)]
            if isinstance(x, tuple):
                return tuple(conv(y) for y in x)
            if isinstance(x, Num):
                return ints(I, x)
            return x
        at[name] = lf(name, g)
        return g

    I.np_shape = {}
    for nm, f in (("transpose", np.transpose), ("reshape", np.reshape), ("ravel", np.ravel), ("squeeze", np.squeeze),
                  ("expand_dims", np.expand_dims), ("roll", np.roll), ("flip", np.flip), ("tile", np.tile),
                  ("repeat", np.repeat), ("swapaxes", np.swapaxes), ("moveaxis", np.moveaxis), ("atleast_1d", np.atleast_1d),
                  ("atleast_2d", np.atleast_2d), ("broadcast_to", np.broadcast_to), ("rollaxis", np.rollaxis), ("fliplr", np.fliplr),
                  ("flipud", np.flipud), ("delete", np.delete)):
        I.np_shape[nm] = shapefn(nm, f)

    def tri(lower):
        def f(I, a, k=0):
            a = toarr(I, a)
            out = a.data.copy()
            for i in range(out.shape[0]):
                for j in range(out.shape[1]):
                    if (j - i > k) if lower else (j - i < k):
                        out[i, j] = cast(I, 0, a.dtype)
            return mkarr(I, out, a.dtype)
        return f

    at["tril"], at["triu"] = lf("tril", tri(True)), lf("triu", tri(False))

    # reductions
    def reduce(name, op, empty=None):
        def f(I, a, axis=None, dtype=None, keepdims=False, initial=None):
            a = toarr(I, a)
            dt = a.dtype if a.dtype != "bool" else "int"
            if axis is None:
                if a.data.size == 0 and empty is None:
                    I.throw("ValueError", "zero-size array to reduction operation which has no identity")
                r = op(I, list(a.data.reshape(-1)))
                if keepdims:
                    raise Undecided("keepdims")
                return r
            axs = axis if isinstance(axis, tuple) else (axis,)
            axs = tuple(ints(I, x) % a.data.ndim if -a.data.ndim <= ints(I, x) < a.data.ndim else I.throw("AxisError", "axis out of bounds") for x in axs)
            d = np.moveaxis(a.data, axs, range(len(axs)))
            rest = d.shape[len(axs):]
            d = d.reshape((-1,) + rest)
            out = np.empty(rest, dtype=object)
            for idx in np.ndindex(*rest):
                out[idx] = op(I, list(d[(slice(None),) + idx]))
            if keepdims:
                for x in sorted(axs):
                    out = np.expand_dims(out, x)
            return unwrap(I, out, dt)
        I.np_reduce[name] = f
        at[name] = lf(name, f)
        return f

    I.np_reduce = {}

    def prod(I, xs):
        r = 1
        for x in xs:
            r = ebin(I, "*", r, num_of(I, x))
        return r

    def fold(fn):
        def f(I, xs):
            r = None
            for x in xs:
                x = num_of(I, x)
                r = x if r is None else I.lift(lambda p, q: simplify_int(p, q, fn), r, x)
            return r
        return f

    def simplify_int(p, q, fn):
        if isinstance(p, int) and isinstance(q, int):
            return int(fn(p, q).c)
        return fn(p, q)

    reduce("sum", nsum, 0)
    reduce("nansum", nsum, 0)
    reduce("prod", prod, 1)
    reduce("max", fold(N.maximum))
    reduce("min", fold(N.minimum))
    at["amax"], at["amin"] = at["max"], at["min"]
    reduce("mean", lambda I, xs: ebin(I, "/", nsum(I, xs), len(xs)) if xs else N.const(float("nan")), 0)

    def allg(I, xs):
        g = TRUE
        for x in xs:
            g = M.conj(g, I.truth(x))
        return I.mkbool(g)

    def anyg(I, xs):
        g = FALSE
        for x in xs:
            g = M.disj(g, I.truth(x))
        return I.mkbool(g)

    for nm, f in (("all", allg), ("any", anyg)):
        g0 = reduce(nm, f, 0)
    I.np_dt_bool = ("all", "any")

    def ufunc1(names, f, dt=None, intdt="float"):
        def g(I, x, out=None, dtype=None, where=None):
            if isinstance(x, (int, bool, Num, B)) and not isinstance(x, bool) or isinstance(x, bool):
                return I.lift(f, num_of(I, x) if not isinstance(x, bool) else int(x))
            a = toarr(I, x)
            if a.dtype in ("str", "object"):
                if a.data.ndim == 0:
                    I.throw("TypeError", f"ufunc '{names[0]}' not supported for the input types")
                if a.dtype == "str":
                    I.throw("TypeError", f"ufunc '{names[0]}' not supported for the input types")
            d = dt or (a.dtype if RANK[a.dtype] >= 2 else intdt)
            o = np.empty(a.data.shape, dtype=object)
            for idx in np.ndindex(*a.data.shape):
                o[idx] = I.lift(f, num_of(I, a.data[idx]))
            return unwrap(I, o, d)
        h = lf(names[0], g)
        for n in names:
            at[n] = h

    for names, f in (
        (("sqrt",), N.sqrt), (("sin",), N.sin), (("cos",), N.cos), (("tan",), N.tan), (("exp",), N.exp), (("log",), N.log),
        (("arccos", "acos"), N.arccos), (("arcsin", "asin"), N.arcsin), (("arctan", "atan"), N.arctan),
        (("degrees", "rad2deg"), lambda x: N.binop("*", x, N.const(180 / math.pi))),
        (("radians", "deg2rad"), lambda x: N.binop("*", x, N.const(math.pi / 180))),
    ):
        ufunc1(names, f)

    def keepint(fn):
        def f(x):
            r = fn(x)
            return int(r.c) if isinstance(x, int) and r.c is not None else r
        return f

    ufunc1(("abs", "absolute", "fabs"), keepint(N.absolute), None, "int")
    ufunc1(("conj", "conjugate"), keepint(N.conj), None, "int")
    ufunc1(("real",), keepint(N.real), None, "int")
    ufunc1(("imag",), keepint(N.imag), None, "int")
    ufunc1(("negative",), keepint(N.neg), None, "int")
    ufunc1(("square",), keepint(lambda x: N.binop("**", N.const(x), N.const(2))), None, "int")
    ufunc1(("floor",), N.floor)
    ufunc1(("ceil",), lambda x: N.neg(N.floor(N.neg(x))))
    ufunc1(("trunc",), N.trunc)
    ufunc1(("rint",), N.rnd)

    def sign(x):
        n, z, p = I.sign_guards(N.const(x))
        return I.join([(n, N.const(-1)), (z, N.const(0)), (p, N.const(1))])

    ufunc1(("sign",), sign)

    @reg("round", "around")
    def npround(I, x, decimals=0):
        decimals = ints(I, decimals)
        if is_seq(I, x):
            return arr_map(I, toarr(I, x), lambda v: N.rnd(v, decimals))
        return N.rnd(x, decimals)

    def ufunc2(name, f, dt=None):
        def g(I, x, y, out=None, where=None):
            a, b = toarr(I, x), toarr(I, y)
            p, q = broadcast(I, a.data, b.data)
            o = np.empty(p.shape, dtype=object)
            for idx in np.ndindex(*p.shape):
                o[idx] = I.lift(f, num_of(I, p[idx]), num_of(I, q[idx]))
            return unwrap(I, o, dt or res_dtype("+", a.dtype, b.dtype))
        at[name] = lf(name, g)

    ufunc2("arctan2", N.arctan2, "float")
    at["atan2"] = at["arctan2"]
    ufunc2("maximum", N.maximum)
    ufunc2("minimum", N.minimum)
    ufunc2("hypot", lambda x, y: N.sqrt(N.binop("+", N.binop("**", N.const(x), N.const(2)), N.binop("**", N.const(y), N.const(2)))), "float")
    for nm, op in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("power", "**"),
                   ("floor_divide", "//"), ("mod", "%"), ("remainder", "%")):
        at[nm] = lf(nm, lambda I, x, y, op=op, **k: arr_binop(I, op, x, y))
    for nm, op in (("equal", "=="), ("not_equal", "!="), ("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">=")):
        at[nm] = lf(nm, lambda I, x, y, op=op: arr_compare(I, op, x, y))

    def logical(name, f):
        def g(I, x, y):
            a, b = toarr(I, x), toarr(I, y)
            p, q = broadcast(I, a.data, b.data)
            o = np.empty(p.shape, dtype=object)
            for idx in np.ndindex(*p.shape):
                o[idx] = I.mkbool(f(I.truth(p[idx]), I.truth(q[idx])))
            return unwrap(I, o, "bool")
        at[name] = lf(name, g)

    logical("logical_and", M.conj)
    logical("logical_or", M.disj)

    @reg("logical_not")
    def logical_not(I, x):
        a = toarr(I, x)
        o = np.empty(a.data.shape, dtype=object)
        for idx in np.ndindex(*a.data.shape):
            o[idx] = I.mkbool(M.neg(I.truth(a.data[idx])))
        return unwrap(I, o, "bool")

    def elem_pred(name, f):
        def g(I, x):
            a = toarr(I, x)
            if a.dtype in ("str", "object"):
                I.throw("TypeError", f"ufunc '{name}' not supported for the input types")
            o = np.empty(a.data.shape, dtype=object)
            for idx in np.ndindex(*a.data.shape):
                o[idx] = I.lift(f, num_of(I, a.data[idx]))
            return unwrap(I, o, "bool")
        at[name] = lf(name, g)

    elem_pred("isnan", lambda x: bool(np.isnan(N.const(x).v).any()))
    elem_pred("isinf", lambda x: bool(np.isinf(N.const(x).v).any()))
    elem_pred("isfinite", lambda x: bool(np.isfinite(N.const(x).v).all()))

    @reg("iscomplexobj")
    def iscomplexobj(I, x):
        return toarr(I, x).dtype == "complex"

    def tol(x):
        if x is None:
            return None
        x = N.const(x)
        return N.tofloat(x) if x.const else None

    @reg("isclose")
    def isclose(I, x, y, rtol=None, atol=None, equal_nan=False):
        a, b = toarr(I, x), toarr(I, y)
        p, q = broadcast(I, a.data, b.data)
        o = np.empty(p.shape, dtype=object)
        for idx in np.ndindex(*p.shape):
            o[idx] = I.mkbool(close_guard(I, p[idx], q[idx], tol(rtol), tol(atol)))
        return unwrap(I, o, "bool")

    @reg("allclose")
    def allclose(I, x, y, rtol=None, atol=None, equal_nan=False):
        a, b = toarr(I, x), toarr(I, y)
        p, q = broadcast(I, a.data, b.data)
        g = TRUE
        for idx in np.ndindex(*p.shape):
            g = M.conj(g, close_guard(I, p[idx], q[idx], tol(rtol), tol(atol)))
        return I.mkbool(g)

    @reg("array_equal")
    def array_equal(I, x, y):
        a, b = toarr(I, x), toarr(I, y)
        if a.data.shape != b.data.shape:
            return False
        g = TRUE
        for p, q in zip(a.data.reshape(-1), b.data.reshape(-1)):
            g = M.conj(g, I.eq(p, q))
        return I.mkbool(g)

    @reg("where")
    def where(I, c, x=Unbound, y=Unbound):
        ca = toarr(I, c)
        if x is Unbound:
            h = host_index(I, arr_map(I, ca, lambda v: I.mkbool(I.truth(v)), "bool"))
            return tuple(mkarr(I, np.array([int(i) for i in r] + [None], dtype=object)[:-1], "int") for r in np.nonzero(h))
        a, b = toarr(I, x), toarr(I, y)
        p, q, r = np.broadcast_arrays(ca.data, a.data, b.data)
        o = np.empty(p.shape, dtype=object)
        dt = a.dtype if RANK[a.dtype] >= RANK[b.dtype] else b.dtype
        for idx in np.ndindex(*p.shape):
            g = I.truth(p[idx])
            o[idx] = I.join([(g, cast(I, q[idx], dt, False)), (M.neg(g), cast(I, r[idx], dt, False))])
        return unwrap(I, o, dt)

    at["nonzero"] = lf("nonzero", lambda I, c: where(I, c))
    at["argwhere"] = lf("argwhere", lambda I, c: toarr(I, Arr(np.stack([x.data for x in where(I, c)], axis=1), "int", I.pc)))

    @reg("clip")
    def clip(I, x, lo=None, hi=None, a_min=None, a_max=None, out=None):
        lo = lo if lo is not None else a_min
        hi = hi if hi is not None else a_max
        a = toarr(I, x)

        def f(v):
            if lo is not None:
                v = I.lift(lambda q, l: q if N.const(l).c == -1 and q.op in ("cosine",) else N.maximum(q, l), v, lo)
            if hi is not None:
                v = I.lift(lambda q, h: N.minimum(q, h), v, hi)
            return v
        o = np.empty(a.data.shape, dtype=object)
        for idx in np.ndindex(*a.data.shape):
            o[idx] = f(a.data[idx])
        return unwrap(I, o, a.dtype)

    def constkeys(I, xs):
        out = []
        for x in xs:
            x = I.restrict(x)
            if isinstance(x, (int, str)):
                out.append(x)
            elif isinstance(x, Num) and x.c is not None:
                out.append(x.c)
            elif isinstance(x, Num) and x.const and not x.iscomplex:
                out.append(Fraction(float(x.v[0])))
            else:
                return None
        return out

    def argsort_keys(I, xs):
        ks = constkeys(I, xs)
        if ks is not None:
            return sorted(range(len(ks)), key=lambda i: ks[i])
        # symbolic: decided only if every comparison is decided
        import functools

        if xs and all(isinstance(x, Num) and x.op in ("eig", "eigh", "eigvals", "eigvalsh") for x in xs):
            # values of a decomposition: the order they have at every sample point
            orders = {tuple(sorted(range(len(xs)), key=lambda i: (round(complex(xs[i].v[s]).real, 9), round(complex(xs[i].v[s]).imag, 9), i))) for s in range(N.K)}
            if len(orders) == 1:
                return list(orders.pop())
            raise Undecided("order of eigenvalues")
        if I.generic and xs and all(isinstance(x, Num) and np.isrealobj(np.real_if_close(x.v)) for x in xs):
            orders = {tuple(sorted(range(len(xs)), key=lambda i: (float("%.9g" % complex(xs[i].v[s]).real) if np.ndim(xs[i].v) else complex(xs[i].v).real, i))) for s in range(N.K)}
            if len(orders) == 1:
                return list(orders.pop())

        def c(i, j):
            g = I.truth(I.compare("<", xs[i], xs[j]))
            if M.implies(I.pc, g):
                return -1
            g2 = I.truth(I.compare(">", xs[i], xs[j]))
            if M.implies(I.pc, g2):
                return 1
            if M.conj(I.pc, g) == FALSE and M.conj(I.pc, g2) == FALSE:
                return 0
            raise Undecided("order of symbolic values")
        return sorted(range(len(xs)), key=functools.cmp_to_key(c))

    I.argsort_keys = argsort_keys

    @reg("argsort")
    def argsort(I, a, axis=-1, kind=None):
        a = toarr(I, a)
        if a.data.ndim != 1:
            raise Undecided("argsort")
        r = argsort_keys(I, list(a.data))
        return mkarr(I, np.array(r + [None], dtype=object)[:-1], "int")

    @reg("sort")
    def sort(I, a, axis=-1, kind=None):
        a = toarr(I, a)
        if a.data.ndim != 1:
            raise Undecided("sort")
        r = argsort_keys(I, list(a.data))
        return mkarr(I, a.data[r] if r else a.data.copy(), a.dtype)

    def arg(which):
        def f(I, a, axis=None):
            a = toarr(I, a)
            r = argsort_keys(I, list(a.data.reshape(-1)))
            return r[-1] if which else r[0]
        return f

    at["argmax"], at["argmin"] = lf("argmax", arg(True)), lf("argmin", arg(False))

    @reg("unique")
    def unique(I, a, axis=None, return_index=False, return_counts=False, return_inverse=False):
        a = toarr(I, a)
        xs = list(a.data.reshape(-1))
        ks = constkeys(I, xs)
        if ks is None or axis is not None:
            raise Undecided("unique of symbolic values")
        order = sorted(set(ks))
        first = [ks.index(k) for k in order]
        o = mkarr(I, np.array([xs[i] for i in first] + [None], dtype=object)[:-1], a.dtype)
        res = [o]
        mk = lambda l: mkarr(I, np.array(l + [None], dtype=object)[:-1], "int")
        if return_index:
            res.append(mk(first))
        if return_inverse:
            res.append(mk([order.index(k) for k in ks]))
        if return_counts:
            res.append(mk([ks.count(k) for k in order]))
        return res[0] if len(res) == 1 else tuple(res)

    @reg("arange")
    def arange(I, a, b=None, step=1, dtype=None):
        lo, hi = (0, a) if b is None else (a, b)
        if all(isinstance(x, int) for x in (lo, hi, step)):
            return toarr(I, PList([(TRUE, i) for i in range(lo, hi, step)]), dtype)
        vals = [N.const(x) for x in (lo, hi, step)]
        if all(v.const for v in vals):
            return toarr(I, PList([(TRUE, N.const(float(z))) for z in np.arange(*[N.tofloat(v) for v in vals])]), dtype)
        raise Undecided("arange")

    @reg("linspace")
    def linspace(I, a, b, num=50, endpoint=True):
        n = ints(I, num)
        out = []
        for i in range(n):
            t = N.const(Fraction(i, (n - 1 if endpoint else n) or 1))
            out.append((TRUE, ebin(I, "+", a, ebin(I, "*", ebin(I, "-", b, a), t))))
        return toarr(I, PList(out), "float")

    @reg("indices")
    def indices(I, dims, dtype=None):
        d = np.indices(shp(I, dims))
        out = np.empty(d.shape, dtype=object)
        for idx in np.ndindex(*d.shape):
            out[idx] = int(d[idx])
        return mkarr(I, out, "int")

    @reg("ndindex")
    def ndindex(I, *dims):
        if len(dims) == 1 and isinstance(dims[0], (tuple, PList)):
            dims = I.listof(dims[0])
        return I.mklist([tuple(int(i) for i in x) for x in np.ndindex(*[ints(I, d) for d in dims])])

    @reg("meshgrid")
    def meshgrid(I, *a, indexing="xy"):
        arrs = [toarr(I, x) for x in a]
        return I.mklist([mkarr(I, np.array(d, dtype=object), x.dtype) for d, x in zip(np.meshgrid(*[x.data for x in arrs], indexing=indexing), arrs)])

    @reg("ndim")
    def ndim(I, x):
        return toarr(I, x).data.ndim

    @reg("shape")
    def shape(I, x):
        return tuple(toarr(I, x).data.shape)

    @reg("size")
    def size(I, x):
        return int(toarr(I, x).data.size)

    @reg("isscalar")
    def isscalar(I, x):
        return isinstance(x, (int, Num, str, TStr, B))

    @reg("result_type")
    def result_type(I, *a):
        raise Undecided("result_type")

    @reg("fill_diagonal")
    def fill_diagonal(I, a, v):
        for i in range(min(a.data.shape)):
            arr_setitem(I, a, (i, i), v)

    finfo = Cls("finfo", [I.objectcls], {})
    o = Obj(finfo)
    o.fields = {"eps": N.const(2.220446049250313e-16), "max": N.const(1.7976931348623157e308), "min": N.const(-1.7976931348623157e308),
                "tiny": N.const(2.2250738585072014e-308), "resolution": N.const(1e-15)}
    at["finfo"] = HostFn("finfo", lambda I, a, k: o)

    def savetxt(I, a, k):
        I.effects.append(("savetxt", I.pc, a, k, I.loc))
        return None

    at["savetxt"] = HostFn("savetxt", savetxt)

    def loadtxt(I, a, k):
        raise Undecided("loadtxt")

    at["loadtxt"] = at["genfromtxt"] = HostFn("loadtxt", loadtxt)

    # random
    def fresh(I, shape, lo=0):
        s = shp(I, shape) if shape is not None else ()
        out = np.empty(s, dtype=object)
        for idx in np.ndindex(*s):
            I.nfresh += 1
            out[idx] = N.sym(f"random{I.nfresh}", nonneg=True, lo=0.05, hi=0.95)
        return unwrap(I, out, "float")

    I.nfresh = 0
    rnd = {}
    rnd["random"] = rnd["random_sample"] = rnd["uniform_"] = lf("random", lambda I, size=None: fresh(I, size))
    rnd["rand"] = lf("rand", lambda I, *d: fresh(I, tuple(d) if d else None))

    def normal(I, size=None):
        s = shp(I, size) if size is not None else ()
        out = np.empty(s, dtype=object)
        for idx in np.ndindex(*s):
            I.nfresh += 1
            out[idx] = N.sym(f"random{I.nfresh}")
        return unwrap(I, out, "float")

    rnd["randn"] = lf("randn", lambda I, *d: normal(I, tuple(d) if d else None))
    rnd["seed"] = HostFn("seed", lambda I, a, k: None)
    gen = Cls("Generator", [I.objectcls], {})
    gen.ns["random"] = HostFn("random", lambda I, a, k: fresh(I, a[1] if len(a) > 1 else k.get("size")))
    gen.ns["normal"] = HostFn("normal", lambda I, a, k: normal(I, k.get("size")))
    gen.ns["__hostopen__"] = True
    rnd["default_rng"] = HostFn("default_rng", lambda I, a, k: Obj(gen, I.pc))
    at["random"] = ExtMod("numpy.random", rnd)

    # linalg
    la = {"LinAlgError": LinAlgError}
    lreg = lambda name: (lambda f: la.__setitem__(name, lf(name, f)) or f)

    def norm2(I, xs):
        t = None
        for x in xs:
            x = num_of(I, x)
            sq = I.lift(lambda v: (N.binop("*", N.const(v), N.conj(v)) if N.const(v).iscomplex else N.binop("**", N.const(v), N.const(2))), x)
            sq = I.lift(lambda v: N.real(v), sq)
            t = sq if t is None else ebin(I, "+", t, sq)
        return I.lift(N.sqrt, t if t is not None else 0)

    @lreg("norm")
    def norm(I, x, ord=None, axis=None, keepdims=False):
        a = toarr(I, x)
        if a.dtype in ("str", "object"):
            I.throw("TypeError", "norm of non-numeric array")
        if ord is not None:
            if isinstance(ord, (int,)) and ord == 2 and (a.data.ndim == 1 or axis is not None):
                pass
            elif ord == "fro":
                pass
            elif isinstance(ord, Num) and not ord.c and np.isinf(ord.v[0]) and a.data.ndim == 1:
                return I.np_reduce["max"](I, at["abs"].fn(I, [a], {}))
            elif isinstance(ord, int) and ord == 1 and a.data.ndim == 1:
                return I.np_reduce["sum"](I, at["abs"].fn(I, [a], {}))
            else:
                raise Undecided("norm order")
        if axis is None:
            return norm2(I, list(a.data.reshape(-1)))
        ax = ints(I, axis)
        if not -a.data.ndim <= ax < a.data.ndim:
            I.throw("AxisError", "axis out of bounds")
        d = np.moveaxis(a.data, ax, 0)
        out = np.empty(d.shape[1:], dtype=object)
        for idx in np.ndindex(*out.shape):
            out[idx] = norm2(I, list(d[(slice(None),) + idx]))
        if keepdims:
            out = np.expand_dims(out, ax)
        return unwrap(I, out, "float")

    def square(I, a, what):
        a = toarr(I, a)
        if a.data.ndim != 2 or a.data.shape[0] != a.data.shape[1]:
            I.raise_(I.mkexc(LinAlgError, f"{what}: must be square"))
        return a

    def det3(I, m):
        n = m.shape[0]
        if n == 0:
            return N.const(1)
        if n == 1:
            return m[0, 0]
        t = None
        for j in range(n):
            minor = np.delete(np.delete(m, 0, 0), j, 1)
            x = ebin(I, "*", m[0, j], det3(I, minor))
            t = x if t is None else ebin(I, "+" if j % 2 == 0 else "-", t, x)
        return t

    @lreg("det")
    def det(I, a):
        a = square(I, a, "det")
        if a.data.shape[0] <= 4:
            r = det3(I, a.data)
            return N.const(r) if isinstance(r, int) else r
        r = pointwise(I, [a.data], np.linalg.det, what="det")
        if r is None:
            raise Undecided("det")
        return r

    @lreg("inv")
    def inv(I, a):
        a = square(I, a, "inv")
        n = a.data.shape[0]
        if n <= 3:
            d = det3(I, a.data)
            dz = I.truth(I.compare("==", d, 0))
            if M.implies(I.pc, dz):
                I.raise_(I.mkexc(LinAlgError, "Singular matrix"))
            out = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    minor = np.delete(np.delete(a.data, j, 0), i, 1)
                    c = det3(I, minor)
                    if (i + j) % 2:
                        c = ebin(I, "*", -1, c)
                    out[i, j] = ebin(I, "/", c, d)
            return mkarr(I, out, "complex" if a.dtype == "complex" else "float")
        r = pointwise(I, [a.data], np.linalg.inv, what="inv")
        if r is None:
            I.raise_(I.mkexc(LinAlgError, "Singular matrix"))
        return mkarr(I, r, "complex" if a.dtype == "complex" else "float")

    @lreg("solve")
    def solve(I, a, b):
        a, b = square(I, a, "solve"), toarr(I, b)
        r = pointwise(I, [a.data, b.data], np.linalg.solve, what="solve")
        if r is None:
            I.raise_(I.mkexc(LinAlgError, "Singular matrix"))
        return mkarr(I, r, "complex" if "complex" in (a.dtype, b.dtype) else "float")

    def decomp(name, f, nout, dts, key):
        def g(I, a, **kw):
            a = square(I, a, name)
            fpt = tuple(N.fingerprint_c(N.const(I.restrict(x))) if not isinstance(I.restrict(x), G) else id(x) for x in a.data.reshape(-1))
            I.effects.append((name, I.pc, a, kw, I.loc))
            mode = I.linalg_fail.get(name, True)
            if mode == "numeric":
                # decided at the sample points; a borderline matrix counts as a failure
                ok = pointwise(I, [a.data], definite, what=name)
                ok = [complex(x).real for x in N.const(ok).v]
                if max(ok) <= 0:
                    I.raise_(I.mkexc(LinAlgError, f"{name} failed"))
                if min(ok) <= 0:
                    raise Undecided(f"{name} fails for some values and not for others")
            elif mode:
                fails = M.var((name + " fails", hash(tuple(N.fingerprint_c(N.const(I.restrict(x)), 12) if not isinstance(I.restrict(x), G) else id(x) for x in a.data.reshape(-1))), f"{name} fails"))
                if M.conj(I.pc, fails) != FALSE:
                    p0 = I.pc
                    I.pc = M.conj(p0, fails)
                    try:
                        I.raise_(I.mkexc(LinAlgError, f"{name} failed"))
                    except Dead:
                        pass
                    I.pc = M.diff(p0, fails)
                    if I.pc == FALSE:
                        raise Dead
            n = a.data.shape[0]
            r = pointwise(I, [a.data], f, nout, what=name)
            if r is None:
                shapes = key(n)
                r = []
                for q, s in enumerate(shapes):
                    o = np.empty(s, dtype=object)
                    for idx in np.ndindex(*s):
                        o[idx] = N.uninterpreted(f"{name}{q}{idx}", fpt)
                    r.append(o)
                if nout == 1:
                    r = r[0]
            if nout == 1:
                return mkarr(I, r, dts[0] if not (dts[0] == "same") else ("complex" if a.dtype == "complex" else "float"))
            return tuple(mkarr(I, x, "complex" if (d == "complex" or (d == "same" and a.dtype == "complex")) else "float") for x, d in zip(r, dts))
        la[name] = lf(name, g)

    def definite(a):
        """1 when clearly positive definite, 0 otherwise."""
        a = np.tril(a) + np.tril(a, -1).conj().T
        w = np.linalg.eigvalsh(a)
        return np.array(1.0 if w.min() > 1e-11 * max(1.0, np.abs(w).max()) else 0.0)

    def groups(w):
        out = [[0]]
        for i in range(1, len(w)):
            if abs(w[i] - w[i - 1]) <= 1e-9 * (1 + np.abs(w).max()):
                out[-1].append(i)
            else:
                out.append([i])
        return out

    def any_eigh(a):
        """Ascending eigenvalues; of the eigenvectors only what is specified: an orthonormal basis of each eigenspace."""
        w, v = np.linalg.eigh(a)
        rng = np.random.default_rng(20)
        cx = np.iscomplexobj(v)
        for g in groups(w):
            m = rng.normal(size=(len(g), len(g)))
            if cx:
                m = m + 1j * rng.normal(size=m.shape)
            v[:, g] = v[:, g] @ np.linalg.qr(m)[0]
        return w, v

    def any_eig(a):
        """Eigenvalues in no order; of the eigenvectors only what is specified: independent and of unit length."""
        if np.allclose(a, a.conj().T):
            w, v = np.linalg.eigh(a)
            rng = np.random.default_rng(21)
            v = v.astype(complex)
            for g in groups(w):
                m = np.eye(len(g)) + 0.4 * (rng.normal(size=(len(g), len(g))) + 1j * rng.normal(size=(len(g), len(g))))
                v[:, g] = v[:, g] @ m
            v = v / np.linalg.norm(v, axis=0)
            o = [(i * 3 + 1) % len(w) for i in range(len(w))] if len(w) % 3 else list(range(len(w)))[::-1]
            return w[o].astype(complex), v[:, o]
        return np.linalg.eig(a)

    I.linalg_fail = {"eigh": False, "eig": False, "eigvals": False, "eigvalsh": False}
    decomp("cholesky", np.linalg.cholesky, 1, ("same",), lambda n: [(n, n)])
    decomp("eigh", any_eigh, 2, ("float", "same"), lambda n: [(n,), (n, n)])
    decomp("eig", any_eig, 2, ("complex", "complex"), lambda n: [(n,), (n, n)])
    decomp("eigvals", np.linalg.eigvals, 1, ("complex",), lambda n: [(n,)])
    decomp("eigvalsh", np.linalg.eigvalsh, 1, ("float",), lambda n: [(n,)])

    @lreg("multi_dot")
    def multi_dot(I, xs):
        r = None
        for x in I.listof(xs):
            r = x if r is None else dotlike(I, toarr(I, r), toarr(I, x), False)
        return r

    @lreg("matrix_power")
    def matrix_power(I, a, n):
        a = toarr(I, a)
        n = ints(I, n)
        r = eye(I, a.data.shape[0])
        for _ in range(n):
            r = matmul(I, r, a)
        return r

    at["linalg"] = ExtMod("numpy.linalg", la)
    at["errstate"] = HostFn("errstate", lambda I, a, k: Ignore("errstate"))
    at["seterr"] = HostFn("seterr", lambda I, a, k: Ignore("seterr"))
    at["set_printoptions"] = HostFn("set_printoptions", lambda I, a, k: None)
    at["array2string"] = HostFn("array2string", lambda I, a, k: I.call(I.builtins["str"], a[:1]))
    at["__version__"] = "1.26.4"
    return at


# ------------------------------------------------------------------ ndarray methods
def arr_attr(I, a, name):
    from .models import lfm
    d = a.data
    if name == "shape":
        return tuple(d.shape)
    if name == "ndim":
        return d.ndim
    if name == "size":
        return int(d.size)
    if name == "T":
        return Arr(d.T, a.dtype, a.born, a)
    if name == "dtype":
        o = Obj(I.dtypecls, I.pc)
        o.host = a.dtype
        o.fields["kind"] = {"bool": "b", "int": "i", "float": "f", "complex": "c", "str": "U", "object": "O"}[a.dtype]
        o.fields["name"] = {"int": "int64", "float": "float64", "complex": "complex128"}.get(a.dtype, a.dtype)
        return o
    if name in ("real", "imag"):
        f = N.real if name == "real" else N.imag
        if a.dtype != "complex" and name == "real":
            return a
        return arr_map(I, a, f, "float" if a.dtype == "complex" else a.dtype)
    if name == "flat":
        return I.mklist(list(d.reshape(-1)))
    if name == "__array_interface__":
        o = Obj(I.objectcls, I.pc)
        o.host = a
        return o
    if name == "base":
        return a.base

    np_ = I.extmods["numpy"].attrs

    def meth(f):
        return lfm(name, f)

    if name in ("sum", "prod", "max", "min", "mean", "all", "any"):
        def red(I, *args, **kw):
            r = I.np_reduce[name](I, a, *args, **kw)
            if isinstance(r, Arr) and name in ("all", "any"):
                r.dtype = "bool"
            return r
        return meth(red)
    if name in ("ravel", "transpose", "squeeze", "swapaxes", "repeat"):
        def sh(I, *args, **kw):
            if name == "transpose" and len(args) > 1:
                args = (tuple(args),)
            return I.np_shape[name](I, a, *args, **kw)
        return meth(sh)
    if name == "reshape":
        def rs(I, *args, **kw):
            s = args[0] if len(args) == 1 else tuple(args)
            return I.np_shape["reshape"](I, a, s)
        return meth(rs)
    if name in ("copy",):
        return meth(lambda I, order=None: mkarr(I, d.copy(), a.dtype))
    if name in ("flatten",):
        return meth(lambda I, order=None: mkarr(I, d.reshape(-1).copy(), a.dtype))
    if name in ("conj", "conjugate"):
        return meth(lambda I: arr_map(I, a, lambda v: N.conj(v) if isinstance(v, Num) else v))
    if name == "astype":
        def astype(I, dt, copy=True):
            dt = dtname(I, dt)
            out = np.empty(d.shape, dtype=object)
            for idx in np.ndindex(*d.shape):
                out[idx] = cast(I, d[idx], dt, False)
            return mkarr(I, out, dt)
        return meth(astype)
    if name == "dot":
        return meth(lambda I, b: dotlike(I, a, toarr(I, b), False))
    if name == "tolist":
        def tolist(I):
            def go(x):
                if x.ndim == 0:
                    return x[()]
                return I.mklist([go(np.asarray(y, dtype=object) if not isinstance(y, np.ndarray) else y) if x.ndim > 1 else y for y in x])
            return go(d)
        return meth(tolist)
    if name == "item":
        def item(I, *idx):
            if not idx:
                if d.size != 1:
                    I.throw("ValueError", "can only convert an array of size 1 to a Python scalar")
                return d.reshape(-1)[0]
            return arr_index(I, a, tuple(idx) if len(idx) > 1 else idx[0])
        return meth(item)
    if name == "fill":
        def fill(I, v):
            for idx in np.ndindex(*d.shape):
                d[idx] = I.gate(a.born, cast(I, v, a.dtype), d[idx])
        return meth(fill)
    if name == "sort":
        def srt(I, axis=-1):
            r = I.argsort_keys(I, list(d))
            vals = [d[i] for i in r]
            for i, v in enumerate(vals):
                d[i] = I.gate(a.born, v, d[i])
        return meth(srt)
    if name in ("argsort", "argmax", "argmin", "trace", "diagonal", "nonzero", "clip", "round", "cumsum"):
        if name in np_:
            return HostFn(name, lambda I, args, kw: np_[name].fn(I, [a] + args, kw))
    if name in ("__len__",):
        return meth(lambda I: I.length(a))
    if name in ("__repr__", "__str__"):
        return meth(lambda I: repr(a))
    if name == "__iter__":
        return meth(lambda I: HostIter(list(I.iterate(a)), I.pc))
    if name == "setflags":
        return meth(lambda I, **k: None)
    return NotImplemented
