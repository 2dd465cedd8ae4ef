"""Models of builtins, strings, containers, files and external libraries."""
import math
import os
import re
from fractions import Fraction

import numpy as np

from . import npmodel as P
from . import num as N
from .bdd import FALSE, M, TRUE
from .npmodel import arr_attr, arr_binop, arr_compare, arr_index, arr_setitem, cast, is_seq, toarr
from .num import Num
from .values import *

STUBS = os.path.join(os.path.dirname(__file__), "stubs")


def lf(name, f):
    """Host function whose arguments are lifted to leaves."""
    def call(I, args, kw):
        ks = list(kw)
        n = len(args)

        def go(*vals):
            try:
                return f(I, *vals[:n], **dict(zip(ks, vals[n:])))
            except TypeError as e:
                if "argument" in str(e) and ("positional" in str(e) or "keyword" in str(e) or "required" in str(e)) and e.__traceback__.tb_next is None:
                    raise Undecided(f"{name}: {e}")
                raise
        return I.lift(go, *args, *[kw[k] for k in ks])
    return HostFn(name, call)


lfm = lf


# ---------------------------------------------------------------------- strings
def sparts(s):
    return s.parts if isinstance(s, TStr) else ((s,) if s else ())


def flat(s):
    out = []
    for p in sparts(s):
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def unflat(items):
    return mkstr(items)


def hole_width(h):
    if isinstance(h, Hole) and h.spec:
        m = re.match(r"^(?:.?[<>^=])?[-+ ]?0?(\d+)", h.spec)
        return bool(m) and not h.spec.startswith(".")
    return False


def is_num_hole(h):
    return isinstance(h, Hole) and isinstance(h.value, (Num, int, G))


def str_split(I, s, sep=None, maxsplit=-1):
    if isinstance(s, str):
        return I.mklist(s.split(sep, maxsplit))
    items = flat(s)
    out, cur = [], []
    n = 0
    if sep is None:
        i = 0
        while i < len(items):
            c = items[i]
            if isinstance(c, str) and c.isspace():
                if cur:
                    out.append(cur)
                    cur = []
                    n += 1
                i += 1
                if 0 <= maxsplit <= n:
                    while i < len(items) and isinstance(items[i], str) and items[i].isspace():
                        i += 1
                    cur = items[i:]
                    while cur and isinstance(cur[-1], str) and cur[-1].isspace():
                        cur.pop()
                    break
                continue
            if not isinstance(c, str) and hole_width(c) and cur and not isinstance(cur[-1], str):
                out.append(cur)
                cur = []
                n += 1
            cur.append(c)
            i += 1
        if cur:
            out.append(cur)
    else:
        if sep.strip("0123456789.+-e") == "" and any(is_num_hole(h) for h in items):
            cut = []
            for h in items:
                if not is_num_hole(h):
                    cut.append(h)
                    continue
                m = re.search(r"\.([1-9]\d*)f$", h.spec)
                if sep != "." or not m:
                    raise Undecided("splitting the digits of a number")
                cut += [Piece(h, "integer part"), ".", Piece(h, "decimals", int(m.group(1)))]
            items = cut
        i = 0
        k = len(sep)
        while i < len(items):
            if all(i + j < len(items) and items[i + j] == sep[j] for j in range(k)) and not 0 <= maxsplit <= n:
                out.append(cur)
                cur = []
                n += 1
                i += k
                continue
            cur.append(items[i])
            i += 1
        out.append(cur)
    return I.mklist([unflat(x) for x in out])


def str_strip(s, chars=None, left=True, right=True):
    if isinstance(s, str):
        return s.strip(chars) if left and right else (s.lstrip(chars) if left else s.rstrip(chars))
    items = flat(s)
    t = (lambda c: isinstance(c, str) and (c.isspace() if chars is None else c in chars))
    while left and items and t(items[0]):
        items.pop(0)
    while right and items and t(items[-1]):
        items.pop()
    if chars is not None and items and any(not isinstance(x, str) for x in (items[0], items[-1])):
        if re.search(r"[0-9.+\-e]", chars):
            raise Undecided("strip of digits")
    return unflat(items)


def str_startswith(I, s, pre):
    if isinstance(pre, tuple):
        g = FALSE
        for p in pre:
            g = M.disj(g, I.truth(str_startswith(I, s, p)))
        return I.mkbool(g)
    if isinstance(s, str):
        return s.startswith(pre)
    items = flat(s)
    for k, ch in enumerate(pre):
        if k >= len(items):
            return False
        c = items[k]
        if isinstance(c, str):
            if c != ch:
                return False
            continue
        rest = pre[k:]
        if is_num_hole(c):
            if not re.match(r"^ *[-+]?[0-9.]*$", rest):
                return False
            if rest == "-" and isinstance(c.value, Num) and not hole_width(c):
                return I.mkbool(I.sign_guards(c.value)[0])
        raise Undecided("prefix of a formatted value")
    return True


def str_map(s, f):
    return mkstr([f(p) if isinstance(p, str) else p for p in sparts(s)])


def str_replace(I, s, a, b, cnt=-1):
    if isinstance(s, str) and isinstance(b, str):
        return s.replace(a, b, cnt)
    parts = I.listof(str_split(I, s, a)) if a else None
    if parts is None:
        raise Undecided("replace")
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(b)
        out.append(p)
    return mkstr(out)


def str_to_float(I, s):
    if isinstance(s, str):
        try:
            x = float(s)
        except ValueError:
            I.throw("ValueError", f"could not convert string to float: {s!r}")
        try:
            return N.const(Fraction(s.strip().replace("_", "")))
        except (ValueError, ZeroDivisionError):
            return N.const(x)
    t = str_strip(s)
    if isinstance(t, str):
        return str_to_float(I, t)
    ps = t.parts
    if len(ps) == 1 and isinstance(ps[0], Hole):
        v = ps[0].value
        if isinstance(v, (int, Num)):
            if isinstance(v, Num) and v.iscomplex:
                I.throw("ValueError", "could not convert string to float")
            return cast(I, v, "float")
        raise Undecided("float of a formatted value")
    if any(isinstance(p, str) and re.search(r"[^0-9.eE+\- _]", p) for p in ps):
        I.throw("ValueError", f"could not convert string to float: {t!r}")
    if len(ps) == 2 and ps[0] in ("-", "+") and is_num_hole(ps[1]):
        v = ps[1].value
        return I.unary("neg", v) if ps[0] == "-" else v
    raise Undecided(f"float({t!r})")


def str_to_int(I, s, base=10):
    if isinstance(s, str):
        try:
            return int(s, base)
        except ValueError:
            I.throw("ValueError", f"invalid literal for int() with base 10: {s!r}")
    t = str_strip(s)
    if isinstance(t, str):
        return str_to_int(I, t)
    ps = t.parts
    if len(ps) == 1 and isinstance(ps[0], Hole):
        v, sp = ps[0].value, ps[0].spec
        if isinstance(v, int) and not re.search(r"[feg]", sp):
            return v
        if isinstance(v, Num):
            if v.isint and v.c is None and not re.search(r"[feg]", sp):
                return v
            if re.search(r"\.\d+f$", sp) and not sp.endswith(".0f") or sp == "":
                I.throw("ValueError", "invalid literal for int()")
        raise Undecided("int of a formatted value")
    if any(isinstance(p, str) and re.search(r"[^0-9+\- _]", p) for p in ps):
        I.throw("ValueError", f"invalid literal for int(): {t!r}")
    if len(ps) == 2 and ps[0] == "-" and is_num_hole(ps[1]):
        return I.unary("neg", ps[1].value)
    raise Undecided(f"int({t!r})")


def to_str(I, x):
    return format_value(I, x, "")


def to_repr(I, x):
    if isinstance(x, G):
        return I.lift(lambda v: to_repr(I, v), x)
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, TStr):
        return mkstr(["'", x, "'"])
    return to_str(I, x)


def format_value(I, x, spec=""):
    if isinstance(spec, TStr):
        raise Undecided("symbolic format")
    if isinstance(x, G):
        return I.lift(lambda v: format_value(I, v, spec), x)
    if isinstance(x, B):
        return G([(x.g, format_value(I, True, spec)), (M.neg(x.g), format_value(I, False, spec))])
    if isinstance(x, str) or isinstance(x, (bool, int)):
        try:
            return format(x, spec)
        except ValueError as e:
            I.throw("ValueError", str(e))
    if isinstance(x, TStr):
        if spec and re.search(r"[a-rt-zA-Z]$", spec):
            I.throw("ValueError", f"Unknown format code for object of type 'str'")
        return x
    if isinstance(x, Num):
        if x.const:
            try:
                return format(N.tofloat(x), spec)
            except ValueError as e:
                I.throw("ValueError", str(e))
        try:
            format(1 if (x.isint and x.c is None and not x.npf) else (1.5 + 1j if x.iscomplex else 1.5), spec)
        except ValueError as e:
            I.throw("ValueError", str(e))
        return TStr((Hole(x, spec),))
    if x is None:
        if spec:
            I.throw("TypeError", "unsupported format string passed to NoneType.__format__")
        return "None"
    if isinstance(x, Obj):
        f = x.cls.lookup("__format__")
        if f is not None:
            return I.call(Bound(x, f), [spec], {})
        if spec:
            I.throw("TypeError", f"unsupported format string passed to {x.cls.name}.__format__")
        f = x.cls.lookup("__str__") or x.cls.lookup("__repr__")
        if f is not None:
            return I.call(Bound(x, f), [], {})
        if x.cls.issub(I.excs["BaseException"]):
            a = x.fields.get("args", ())
            return to_str(I, a[0]) if len(a) == 1 else (to_str(I, a) if a else "")
        return f"<{x.cls.name} object>"
    if spec and not isinstance(x, (Opaque, Ignore)):
        I.throw("TypeError", f"unsupported format string passed to {I.typename(x)}.__format__")
    if isinstance(x, tuple):
        return seq_str(I, x, "(", ",)" if len(x) == 1 else ")")
    if isinstance(x, PList):
        d = I.definite(x.el)
        return seq_str(I, d, "[", "]") if d is not None else TStr((Hole(x, ""),))
    if isinstance(x, (Cls, BType)):
        return f"<class '{x.name}'>"
    return TStr((Hole(x, ""),))


def seq_str(I, xs, a, b):
    parts = [a]
    for i, y in enumerate(xs):
        if i:
            parts.append(", ")
        parts.append(to_repr(I, y))
    parts.append(b)
    return I.lift(lambda *p: mkstr(p), *parts)


def str_format(I, s, args, kw):
    import string
    if not isinstance(s, str):
        raise Undecided("format of a symbolic string")
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        m = re.match(r"^(\w*)(.*)$", field)
        name, rest = m.group(1), m.group(2)
        if name == "":
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            if name not in kw:
                I.throw("KeyError", name)
            v = kw[name]
        for a, b in re.findall(r"\.(\w+)|\[(\w+)\]", rest):
            v = I.getattr(v, a) if a else I.getitem(v, int(b) if b.isdigit() else b)
        if "{" in spec:
            spec = str_format(I, spec, args[auto:], kw)
            auto += 1
        if conv == "r":
            v = to_repr(I, v)
        out.append(format_value(I, v, spec))
    return I.lift(lambda *p: mkstr(p), *out)


def str_percent(I, s, args):
    if not isinstance(s, str):
        raise Undecided("% of a symbolic string")
    vals = list(args) if isinstance(args, tuple) else [args]
    out = []
    pos = 0
    for m in re.finditer(r"%([-+ 0#]*)(\d+)?(\.\d+)?([sdifgeEGr%])", s):
        out.append(s[pos:m.start()])
        pos = m.end()
        fl, w, pr, c = m.groups()
        if c == "%":
            out.append("%")
            continue
        if not vals:
            I.throw("TypeError", "not enough arguments for format string")
        v = vals.pop(0)
        if c in "sr":
            t = to_str(I, v) if c == "s" else to_repr(I, v)
            out.append(I.lift(lambda q: format_value(I, q, ("<" if "-" in fl else ">") + w if w else ""), t))
        else:
            if isinstance(v, (str, TStr)) or v is None:
                I.throw("TypeError", f"%{c} format: a real number is required")
            sp = ("<" if "-" in fl else "") + ("+" if "+" in fl else "") + ("0" if "0" in fl else "") + (w or "") + (pr or "") + ("d" if c in "di" else c)
            if c in "di":
                v = I.call(I.builtins["int"], [v])
            out.append(format_value(I, v, sp))
    out.append(s[pos:])
    return I.lift(lambda *p: mkstr(p), *out)


_STR_NATIVE = ("upper lower capitalize title isdigit isalpha isnumeric isalnum isspace islower isupper count find rfind index "
               "rindex partition rpartition zfill ljust rjust center isdecimal isidentifier casefold swapcase expandtabs "
               "removeprefix removesuffix encode splitlines").split()


def str_method(I, s, name):
    if name == "split":
        return lf(name, lambda I, sep=None, maxsplit=-1: str_split(I, s, sep, maxsplit))
    if name == "rsplit":
        def rs(I, sep=None, maxsplit=-1):
            if isinstance(s, str):
                return I.mklist(s.rsplit(sep, maxsplit))
            if maxsplit == -1:
                return str_split(I, s, sep)
            raise Undecided("rsplit")
        return lf(name, rs)
    if name in ("strip", "lstrip", "rstrip"):
        return lf(name, lambda I, chars=None: str_strip(s, chars, name != "rstrip", name != "lstrip"))
    if name == "startswith":
        return lf(name, lambda I, p: str_startswith(I, s, p))
    if name == "endswith":
        def ew(I, p):
            if isinstance(s, str):
                return s.endswith(p)
            items = flat(s)[::-1]
            for k, ch in enumerate((p if isinstance(p, str) else "")[::-1]):
                if k >= len(items):
                    return False
                if isinstance(items[k], str):
                    if items[k] != ch:
                        return False
                    continue
                if is_num_hole(items[k]) and not ch.isdigit() and ch not in ". ":
                    return False
                raise Undecided("suffix")
            return True
        return lf(name, ew)
    if name in ("lower", "upper") and isinstance(s, TStr):
        return lf(name, lambda I: str_map(s, lambda p: getattr(p, name)()))
    if name == "replace":
        return lf(name, lambda I, a, b, c=-1: str_replace(I, s, a, b, c))
    if name == "join":
        def join(I, args, kw):
            seq = I.restrict(args[0])
            if isinstance(seq, G):
                return I.lift(lambda x: join(I, [x], {}), seq)
            if isinstance(seq, TStr) and s == "":
                return seq
            its = list(I.iterate(seq))
            d = I.definite(its)
            if d is None:
                return TStr((Piece(None, "text joined from an uncertain list"),))
            parts = []
            for i, x in enumerate(d):
                if i:
                    parts.append(s)
                y = I.restrict(x)
                for z in ([w for _, w in y.cases] if isinstance(y, G) else [y]):
                    if not isinstance(z, (str, TStr)):
                        I.throw("TypeError", f"sequence item {i}: expected str instance, {I.typename(z)} found")
                parts.append(y)
            return I.lift(lambda *p: mkstr(p), *parts)
        return HostFn(name, join)
    if name == "format":
        return HostFn(name, lambda I, a, k: str_format(I, s, a, k))
    if name == "splitlines":
        def sl(I, keepends=False):
            r = str_split(I, s, "\n")
            els = [v for _, v in r.el]
            if els and els[-1] == "":
                els.pop()
            if keepends:
                els = [mkstr([e, "\n"]) for e in els]
            return I.mklist(els)
        return lf(name, sl)
    if name == "translate":
        def tr(I, table):
            m = {}
            if not isinstance(table, PDict):
                raise Undecided("translate without a dictionary")
            for k, v, g in table.d.values():
                if M.conj(I.pc, g) == FALSE:
                    continue
                v = I.restrict(v)
                if not M.implies(I.pc, g) or not isinstance(k, int) or not (v is None or isinstance(v, (str, int))):
                    raise Undecided("translate with an uncertain table")
                m[k] = v
            def one(p):
                return p.translate(m)
            if isinstance(s, TStr) and any(chr(k).isalnum() or chr(k) in "+-." for k in m):
                raise Undecided("translation of characters of numbers")
            return str_map(s, one) if isinstance(s, TStr) else s.translate(m)
        return lf(name, tr)
    if name == "encode":
        return lf(name, lambda I, *a, **k: BytesV(s))
    if name in _STR_NATIVE:
        def nat(I, *a):
            if isinstance(s, str):
                try:
                    r = getattr(s, name)(*a)
                except ValueError as e:
                    I.throw("ValueError", str(e))
                except TypeError as e:
                    I.throw("TypeError", str(e))
                return I.mklist(r) if isinstance(r, list) else r
            if name in ("isdigit", "isalpha", "isnumeric", "isalnum", "isdecimal") and len(s.parts) == 1 and is_num_hole(s.parts[0]):
                h = s.parts[0]
                if name == "isalpha":
                    return False
                if re.search(r"\.[1-9]\d*f", h.spec) or (h.spec == "" and I.typename(h.value) == "float"):
                    return False
                if name != "isalnum" and isinstance(h.value, Num):
                    return I.mkbool(M.neg(I.sign_guards(h.value)[0]))
            if name == "isspace":
                return False
            if name == "count" and len(a) == 1 and isinstance(a[0], str) and re.match(r"^[0-9.+\-e]+$", a[0]):
                from .interp import text_number
                return text_number(s, lambda t: t.count(a[0]), "count of " + a[0], ">=")
            if name == "count" and a and isinstance(a[0], str) and not re.match(r"^[0-9.+\-e]+$", a[0]):
                return sum(p.count(a[0]) for p in s.parts if isinstance(p, str))
            if name in ("find", "index", "partition") and a and isinstance(a[0], str) and not re.match(r"^[0-9.+\-e]+$", a[0]):
                if name == "partition":
                    r = I.listof(str_split(I, s, a[0], 1))
                    return (r[0], a[0], r[1]) if len(r) == 2 else (r[0], "", "")
                if not any(isinstance(p, str) and a[0] in p for p in s.parts):
                    if name == "find":
                        return -1
                    I.throw("ValueError", "substring not found")
            raise Undecided(f"str.{name} of a string with holes")
        return lf(name, nat)
    if name in ("__len__",):
        return lf(name, lambda I: I.length(s))
    return NotImplemented


# --------------------------------------------------------------------- containers
def dict_method(I, d, name):
    def views(kind):
        out = []
        for e in d.d.values():
            if M.conj(I.pc, e[2]) == FALSE:
                continue
            v = e[0] if kind == "keys" else (I.restrict(e[1]) if kind == "values" else (e[0], I.restrict(e[1])))
            out.append((TRUE if M.implies(I.pc, e[2]) else e[2], v))
        return out

    if name in ("keys", "values", "items"):
        def f(I):
            it = View(views(name), I.pc)
            it.src, it.version = d, d.version
            if name == "keys":
                it.keysof = d
            return it
        return lf(name, f)
    if name == "get":
        return lf(name, lambda I, k, default=None: I.dict_get(d, k, lambda: default))
    if name == "setdefault":
        def sd(I, k, default=None):
            def miss():
                I.dict_set(d, k, default)
                return default
            return I.dict_get(d, k, miss)
        return lf(name, sd)
    if name == "pop":
        def pop(I, k, *dflt):
            g = I.dict_has(d, k)

            def has():
                v = I.restrict(d.d[I.hkey(k)][1])
                I.dict_del(d, k)
                return v

            def miss():
                if dflt:
                    return dflt[0]
                I.throw("KeyError", k)
            return I.case([(g, has), (M.neg(g), miss)])
        return lf(name, pop)
    if name == "update":
        def upd(I, *a, **k):
            if a:
                if isinstance(a[0], PDict):
                    for e in list(a[0].d.values()):
                        p0 = I.pc
                        I.pc = M.conj(p0, e[2])
                        if I.pc != FALSE:
                            I.dict_set(d, e[0], e[1])
                        I.pc = p0
                else:
                    for kv in I.listof(a[0]):
                        x, y = I.unpack(kv, 2)
                        I.dict_set(d, x, y)
            for x, y in k.items():
                I.dict_set(d, x, y)
        return lf(name, upd)
    if name == "copy":
        def cp(I):
            r = PDict(I.pc)
            for h, e in d.d.items():
                r.d[h] = list(e)
            return r
        return lf(name, cp)
    if name == "clear":
        def cl(I):
            for h in list(d.d):
                e = d.d[h]
                e[2] = M.diff(e[2], I.pc)
                if e[2] == FALSE or M.conj(e[2], d.born) == FALSE:
                    del d.d[h]
            d.version += 1
            d.wloc = I.loc
        return lf(name, cl)
    if name == "popitem":
        def pi(I):
            raise Undecided("popitem")
        return lf(name, pi)
    if name == "__iter__":
        def it(I):
            h = HostIter(views("keys"), I.pc, d, d.version)
            return h
        return lf(name, it)
    if name == "__len__":
        return lf(name, lambda I: I.length(d))
    if name == "__contains__":
        return lf(name, lambda I, k: I.mkbool(I.dict_has(d, k)))
    if name == "__getitem__":
        return lf(name, lambda I, k: host_getitem(I, d, k))
    if name == "__setitem__":
        return HostFn(name, lambda I, a, k: host_setitem(I, d, a[0], a[1]))
    if name == "__delitem__":
        return lf(name, lambda I, k: host_delitem(I, d, k))
    if name == "fromkeys":
        return NotImplemented
    return NotImplemented


class View(HostIter):
    """dict view: can be iterated any number of times."""
    keysof = None


def set_method(I, s, name):
    def elems(x):
        """[(guard, key)] of an iterable."""
        if isinstance(x, PSet):
            return [(e[1], e[0]) for e in x.d.values()]
        return list(I.iterate(x))

    def build(pairs):
        r = PSet(I.pc)
        p0 = I.pc
        for g, k in pairs:
            I.pc = M.conj(p0, g)
            if I.pc != FALSE:
                I.set_add(r, k)
        I.pc = p0
        return r

    if name == "add":
        return lf(name, lambda I, k: I.set_add(s, k))
    if name in ("remove", "discard"):
        def rm(I, k):
            g = I.dict_has(s, k)

            def has():
                I.dict_del(s, k)

            def miss():
                if name == "remove":
                    I.throw("KeyError", k)
            I.case([(g, has), (M.neg(g), miss)])
        return lf(name, rm)
    if name == "update":
        def up(I, *xs):
            for x in xs:
                p0 = I.pc
                for g, k in elems(x):
                    I.pc = M.conj(p0, g)
                    if I.pc != FALSE:
                        I.set_add(s, k)
                I.pc = p0
        return lf(name, up)
    if name in ("union",):
        return lf(name, lambda I, *xs: build([(e[1], e[0]) for e in s.d.values()] + [p for x in xs for p in elems(x)]))
    if name in ("intersection", "difference"):
        def op(I, *xs):
            out = []
            for e in s.d.values():
                g = e[1]
                for x in xs:
                    c = I.contains(e[0], x if isinstance(x, (PSet, PDict, PList, tuple)) else I.mklist(I.listof(x)))
                    g = M.conj(g, c if name == "intersection" else M.neg(c))
                out.append((g, e[0]))
            return build(out)
        return lf(name, op)
    if name == "symmetric_difference":
        def sd(I, x):
            if not isinstance(x, PSet):
                x = build(elems(x))
            out = [(M.diff(e[1], I.dict_has(x, e[0])), e[0]) for e in s.d.values()]
            out += [(M.diff(e[1], I.dict_has(s, e[0])), e[0]) for e in x.d.values()]
            return build(out)
        return lf(name, sd)
    if name in ("issubset", "issuperset", "isdisjoint"):
        def iss(I, x):
            if name == "issuperset":
                g = TRUE
                for h, k in elems(x):
                    g = M.conj(g, M.disj(M.neg(h), I.dict_has(s, k)))
                return I.mkbool(g)
            if isinstance(x, HostIter):
                x = I.mklist(I.listof(x))
            g = TRUE
            for e in s.d.values():
                c = I.contains(e[0], x)
                g = M.conj(g, M.disj(M.neg(e[1]), c if name == "issubset" else M.neg(c)))
            return I.mkbool(g)
        return lf(name, iss)
    if name == "copy":
        return lf(name, lambda I: build([(e[1], e[0]) for e in s.d.values()]))
    if name == "clear":
        def cl(I):
            for e in list(s.d.values()):
                p0 = I.pc
                I.pc = M.conj(p0, e[1])
                if I.pc != FALSE:
                    I.dict_del(s, e[0])
                I.pc = p0
        return lf(name, cl)
    if name == "pop":
        def pop(I):
            els = I.definite([(e[1], e[0]) for e in s.d.values()])
            if els is None or len(els) > 1:
                raise Undecided("set.pop")
            if not els:
                I.throw("KeyError", "pop from an empty set")
            I.dict_del(s, els[0])
            return els[0]
        return lf(name, pop)
    if name == "__iter__":
        return lf(name, lambda I: HostIter([(e[1], e[0]) for e in s.d.values()], I.pc, s, s.version))
    if name == "__len__":
        return lf(name, lambda I: I.length(s))
    return NotImplemented


def list_compact(I, l):
    """Drop elements that are certainly absent for this list."""
    l.el = [(g, v) for g, v in l.el if M.conj(g, l.born) != FALSE]


def list_method(I, l, name):
    def norm():
        d = I.definite(l.el)
        if d is None:
            raise Undecided("list of uncertain length")
        return d

    def replace(new):
        """New content under the current guard."""
        l.wloc = I.loc
        if I.pc == TRUE or M.diff(l.born, I.pc) == FALSE:
            l.el = [(TRUE, v) for v in new]
        else:
            np_ = M.neg(I.pc)
            old = [(M.conj(g, np_), v) for g, v in l.el]
            l.el = [(g, v) for g, v in old if g != FALSE] + [(I.pc, v) for v in new]

    if name == "append":
        def app(I, a, k):
            if len(a) != 1:
                I.throw("TypeError", "list.append() takes exactly one argument")
            I.list_append(l, a[0])
        return HostFn(name, app)
    if name == "extend":
        def ext(I, a, k):
            for g, v in list(I.iterate(a[0])):
                p0 = I.pc
                I.pc = M.conj(p0, g)
                if I.pc != FALSE:
                    I.list_append(l, v)
                I.pc = p0
        return HostFn(name, ext)
    if name == "insert":
        def ins(I, i, v):
            d = list(norm())
            d.insert(I.np_ints(I, i), v)
            replace(d)
        return lf(name, ins)
    if name == "pop":
        def pop(I, i=-1):
            d = list(norm())
            i = I.np_ints(I, i)
            if not -len(d) <= i < len(d):
                I.throw("IndexError", "pop from empty list" if not d else "pop index out of range")
            v = d.pop(i)
            replace(d)
            return v
        return lf(name, pop)
    if name == "remove":
        def rm(I, x):
            d = list(norm())
            for i, y in enumerate(d):
                g = TRUE if y is x else I.eq(y, x)
                if M.implies(I.pc, g):
                    del d[i]
                    replace(d)
                    return None
                if M.conj(I.pc, g) != FALSE:
                    raise Undecided("list.remove")
            I.throw("ValueError", "list.remove(x): x not in list")
        return lf(name, rm)
    if name == "index":
        def idx(I, x, *a):
            d = norm()
            rest = TRUE
            cases = []
            for i, y in enumerate(d):
                g = TRUE if y is x else I.eq(y, x)
                k = M.conj(rest, g)
                if M.conj(I.pc, k) != FALSE:
                    cases.append((k, lambda i=i: i))
                rest = M.diff(rest, g)
                if M.conj(I.pc, rest) == FALSE:
                    break
            if M.conj(I.pc, rest) != FALSE:
                cases.append((rest, lambda: I.throw("ValueError", f"{x} is not in list")))
            return I.case(cases)
        return lf(name, idx)
    if name == "count":
        def cnt(I, x):
            gs = []
            for g, y in l.el:
                e = M.conj(g, TRUE if y is x else I.eq(y, x))
                gs.append((e, 0))
            return I.length(PList(gs))
        return lf(name, cnt)
    if name == "sort":
        def srt(I, key=None, reverse=False):
            replace(sort_items(I, norm(), key, reverse))
        return lf(name, srt)
    if name == "reverse":
        return lf(name, lambda I: replace(list(norm())[::-1]))
    if name == "copy":
        return lf(name, lambda I: PList(list(l.el), I.pc))
    if name == "clear":
        return lf(name, lambda I: replace([]))
    if name == "__iter__":
        return lf(name, lambda I: HostIter(list(l.el), I.pc))
    if name == "__len__":
        return lf(name, lambda I: I.length(l))
    return NotImplemented


def sort_items(I, items, key=None, reverse=False):
    ks = [I.call(key, [x], {}) if key is not None else x for x in items]
    order = I.argsort_keys(I, [I.restrict(k) for k in ks])
    if I.truth(reverse) == TRUE:
        order = sorted_rev(order, ks, I)
    return [items[i] for i in order]


def sorted_rev(order, ks, I):
    # stable reverse: groups of equal keys keep their order
    groups = []
    for i in order:
        if groups and M.implies(I.pc, I.eq(ks[groups[-1][0]], ks[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    return [i for g in reversed(groups) for i in g]


def tuple_method(I, t, name):
    if name in ("index", "count"):
        return list_method(I, I.mklist(list(t)), name)
    if name == "__len__":
        return lf(name, lambda I: len(t))
    if name == "__iter__":
        return lf(name, lambda I: HostIter([(TRUE, x) for x in t], I.pc))
    return NotImplemented


def host_next(I, it, *default):
    it = I.restrict(it)
    if isinstance(it, Obj):
        f = it.cls.lookup("__next__")
        if f is None:
            I.throw("TypeError", f"'{it.cls.name}' object is not an iterator")
        return I.call(Bound(it, f), [], {})
    if not isinstance(it, HostIter):
        I.throw("TypeError", f"'{I.typename(it)}' object is not an iterator")

    def at(pos):
        if it.src is not None and it.src.version != it.version:
            I.throw("RuntimeError", "dictionary changed size during iteration")
        while pos < len(it.items) and M.conj(I.pc, it.items[pos][0]) == FALSE:
            pos += 1
        if pos >= len(it.items):
            if default:
                return default[0]
            I.throw("StopIteration", "")
        g, v = it.items[pos]
        if not M.implies(I.pc, g):
            raise Undecided("next of an uncertain iterator")
        it.pos = I.gate(it.born, pos + 1, it.pos)
        return I.restrict(v)
    return I.lift(at, it.pos)


# ------------------------------------------------------------------- attributes
def host_getattr(I, o, name):
    if isinstance(o, (str, TStr)):
        return str_method(I, o, name)
    if isinstance(o, PDict):
        return dict_method(I, o, name)
    if isinstance(o, PList):
        return list_method(I, o, name)
    if isinstance(o, PSet):
        return set_method(I, o, name)
    if isinstance(o, tuple):
        return tuple_method(I, o, name)
    if isinstance(o, Arr):
        return arr_attr(I, o, name)
    if isinstance(o, HostIter):
        if name == "__next__":
            return HostFn(name, lambda I, a, k: host_next(I, o))
        if name == "__iter__":
            return HostFn(name, lambda I, a, k: o)
        return NotImplemented
    if isinstance(o, (int, Num, B)):
        if name == "real":
            return N.real(o) if isinstance(o, Num) else o
        if name == "imag":
            return N.imag(o) if isinstance(o, Num) else 0
        if name in ("conjugate", "conj"):
            return HostFn(name, lambda I, a, k: N.conj(o) if isinstance(o, Num) else o)
        if name == "is_integer":
            def isint(I, a, k):
                if isinstance(o, int):
                    return True
                if o.c is not None:
                    return o.c.denominator == 1
                if o.isint:
                    return True
                return I.mkbool(M.var(("isinteger", N.fingerprint(o), N.show(o))))
            return HostFn(name, isint)
        # results of numpy reductions carry array methods
        if name in ("shape", "ndim", "size", "dtype", "all", "any", "sum", "copy", "item", "astype", "max", "min", "T", "round", "tolist", "flatten"):
            if isinstance(o, Num) or name in ("all", "any", "sum", "item", "copy"):
                if name == "item" or name == "copy" or name == "tolist":
                    return HostFn(name, lambda I, a, k: o)
                if name in ("all", "any"):
                    return HostFn(name, lambda I, a, k: I.mkbool(I.truth(o)))
                if name == "round":
                    return HostFn(name, lambda I, a, k: N.rnd(o, *(a or [0])))
                return arr_attr(I, P.mkarr(I, o, P.leaf_dtype(I, o)), name)
        return NotImplemented
    if isinstance(o, BytesV):
        if name == "decode":
            return HostFn(name, lambda I, a, k: o.s)
        return NotImplemented
    if isinstance(o, slice):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        return NotImplemented
    if isinstance(o, Range):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        return NotImplemented
    return NotImplemented


def toindex(I, k):
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, Num):
        if k.isint and k.c is not None and not isinstance(k, bool):
            # constant Num counts as float unless it came from integer arithmetic
            return int(k.c)
        if k.isint:
            raise Undecided("symbolic index")
        return None
    return k


def host_getitem(I, o, k):
    if isinstance(o, PDict):
        def miss():
            if o.default is not None:
                v = I.call(o.default, [])
                I.dict_set(o, k, v)
                return v
            I.throw("KeyError", k)
        return I.dict_get(o, k, miss)
    if isinstance(o, (tuple, PList, str, Range)):
        if isinstance(o, PList):
            items = I.definite(o.el)
            if items is None:
                if isinstance(k, int) and k >= 0:
                    # elements before the first uncertain one keep their position
                    pre = []
                    for g, v in o.el:
                        if M.implies(I.pc, g):
                            pre.append(v)
                        elif M.conj(I.pc, g) == FALSE:
                            continue
                        else:
                            break
                    if k < len(pre):
                        return I.restrict(pre[k])
                if isinstance(k, int) and k == -1:
                    # last present element
                    rest = TRUE
                    cases = []
                    for g, v in reversed(o.el):
                        h = M.conj(rest, g)
                        if M.conj(I.pc, h) != FALSE:
                            cases.append((h, lambda v=v: I.restrict(v)))
                        rest = M.diff(rest, g)
                        if M.conj(I.pc, rest) == FALSE:
                            break
                    if M.conj(I.pc, rest) != FALSE:
                        cases.append((rest, lambda: I.throw("IndexError", "list index out of range")))
                    return I.case(cases)
                raise Undecided("index into a list of uncertain length")
        elif isinstance(o, Range):
            items = list(range(o.start, o.stop, o.step))
        else:
            items = o
        if isinstance(k, slice):
            r = items[k]
            if isinstance(o, PList):
                return I.mklist(r)
            if isinstance(o, Range):
                rr = range(o.start, o.stop, o.step)[k]
                return Range(rr.start, rr.stop, rr.step)
            return r
        i = toindex(I, k)
        if not isinstance(i, int):
            if isinstance(k, (Arr,)) and k.data.ndim == 0 and k.dtype == "int":
                return host_getitem(I, o, k.data[()])
            I.throw("TypeError", f"{I.typename(o)} indices must be integers or slices, not {I.typename(k)}")
        if not -len(items) <= i < len(items):
            I.throw("IndexError", f"{I.typename(o)} index out of range")
        return I.restrict(items[i])
    if isinstance(o, Arr):
        return arr_index(I, o, k)
    if isinstance(o, Obj):
        f = o.cls.lookup("__getitem__")
        if f is not None:
            return I.call(Bound(o, f), [k], {})
        I.throw("TypeError", f"'{o.cls.name}' object is not subscriptable")
    if isinstance(o, TStr):
        items = flat(o)
        if isinstance(k, int) or (isinstance(k, slice) and k.step in (None, 1)):
            holes = [i for i, x in enumerate(items) if not isinstance(x, str)]
            if isinstance(k, int):
                if 0 <= k < holes[0]:
                    return items[k]
                if k < 0 and -k <= len(items) - 1 - holes[-1]:
                    return items[k]
                if k == 0 and is_num_hole(items[0]):
                    return TStr((Piece(items[0], "first character", 1),))
            else:
                a, b = k.start, k.stop
                if (a is None or 0 <= a <= holes[0]) and b is None:
                    return unflat(items[a or 0:])
                if (a is None or 0 <= a <= holes[0]) and b is not None and 0 <= b <= holes[0]:
                    return unflat(items[a or 0:b])
                if b is not None and b < 0 and -b <= len(items) - 1 - holes[-1] and (a is None or 0 <= a <= holes[0]):
                    return unflat(items[a or 0:b])
        raise Undecided("index into a string with holes")
    if isinstance(o, (BType, Cls)):
        return o                                     # generic alias
    if isinstance(o, Ignore):
        return Ignore(o.name + "[]")
    if isinstance(o, Opaque) and not isinstance(o, NotNumeric):
        raise Undecided(f"item of {o}")
    if isinstance(o, Num) and k == ():
        return o
    I.throw("TypeError", f"'{I.typename(o)}' object is not subscriptable")


def host_setitem(I, o, k, v):
    if isinstance(o, PDict):
        I.dict_set(o, k, v)
        return None
    if isinstance(o, PList):
        items = I.definite(o.el)
        if items is None:
            if k == -1 and isinstance(k, int):
                rest = TRUE
                p0 = I.pc
                for n in range(len(o.el) - 1, -1, -1):
                    g, w = o.el[n]
                    h = M.conj(p0, M.conj(rest, g))
                    if h != FALSE:
                        I.pc = h
                        o.el[n] = (g, I.gate(o.born, v, w))
                    rest = M.diff(rest, g)
                I.pc = p0
                return None
            raise Undecided("assignment into a list of uncertain length")
        pos = [n for n, (g, _) in enumerate(o.el) if M.implies(I.pc, g)]
        if isinstance(k, slice):
            idx = list(range(len(items)))[k]
            new = I.listof(v)
            if len(new) == len(idx):
                for i, x in zip(idx, new):
                    g, w = o.el[pos[i]]
                    o.el[pos[i]] = (g, I.gate(o.born, x, w))
                return None
            full = list(items)
            full[k] = new
            if I.pc == TRUE or M.diff(o.born, I.pc) == FALSE:
                o.el = [(TRUE, x) for x in full]
                return None
            raise Undecided("slice assignment")
        i = toindex(I, k)
        if not isinstance(i, int):
            I.throw("TypeError", "list indices must be integers or slices")
        if not -len(items) <= i < len(items):
            I.throw("IndexError", "list assignment index out of range")
        n = pos[i]
        g, w = o.el[n]
        o.el[n] = (g, I.gate(o.born, v, w))
        o.wloc = I.loc
        return None
    if isinstance(o, Arr):
        arr_setitem(I, o, k, v)
        return None
    if isinstance(o, Obj):
        f = o.cls.lookup("__setitem__")
        if f is not None:
            I.call(Bound(o, f), [k, v], {})
            return None
        I.throw("TypeError", f"'{o.cls.name}' object does not support item assignment")
    if isinstance(o, Ignore):
        return None
    if isinstance(o, Opaque) and not isinstance(o, NotNumeric):
        raise Undecided(f"item of {o}")
    I.throw("TypeError", f"'{I.typename(o)}' object does not support item assignment")


def host_delitem(I, o, k):
    if isinstance(o, PDict):
        g = I.dict_has(o, k)

        def has():
            I.dict_del(o, k)

        def miss():
            I.throw("KeyError", k)
        I.case([(g, has), (M.neg(g), miss)])
        return None
    if isinstance(o, PList):
        items = I.definite(o.el)
        if items is None:
            raise Undecided("deletion from a list of uncertain length")
        d = list(items)
        try:
            del d[k]
        except IndexError:
            I.throw("IndexError", "list assignment index out of range")
        if I.pc == TRUE or M.diff(o.born, I.pc) == FALSE:
            o.el = [(TRUE, v) for v in d]
        else:
            np_ = M.neg(I.pc)
            old = [(M.conj(g, np_), v) for g, v in o.el]
            o.el = [(g, v) for g, v in old if g != FALSE] + [(I.pc, v) for v in d]
        return None
    if isinstance(o, Obj):
        f = o.cls.lookup("__delitem__")
        if f is not None:
            I.call(Bound(o, f), [k], {})
            return None
    I.throw("TypeError", f"'{I.typename(o)}' object doesn't support item deletion")


# --------------------------------------------------------------------- operators
_DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "@": "matmul",
           "&": "and", "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift"}


def binop_leaf(I, op, a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int or (isinstance(a, int) and isinstance(b, int)):
        a, b = int(a) if isinstance(a, bool) and op not in "&|^" else a, int(b) if isinstance(b, bool) and op not in "&|^" else b
        if op in ("/", "//", "%") and b == 0:
            I.throw("ZeroDivisionError", "division by zero")
        if op == "/":
            return N.const(Fraction(a, b))
        if op == "@":
            I.throw("TypeError", "unsupported operand type(s) for @")
        if op == "**":
            if b < 0:
                if a == 0:
                    I.throw("ZeroDivisionError", "0 cannot be raised to a negative power")
                return N.const(Fraction(a) ** b)
            return a ** b
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b,
                "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
    if isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
        return array_op(I, op, a, b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        return obj_op(I, op, a, b)
    if isinstance(a, B) or isinstance(b, B):
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)) and op in ("&", "|", "^"):
            return P.ebin(I, op, a, b)
        a = P.num_of(I, a) if isinstance(a, B) else a
        b = P.num_of(I, b) if isinstance(b, B) else b
        return I.binop(op, a, b)
    na, nb = isinstance(a, (int, Num)), isinstance(b, (int, Num))
    if na and nb:
        if op == "@":
            I.throw("TypeError", "unsupported operand type(s) for @")
        if op in ("/", "//", "%"):
            z = N.const(b)
            if z.c is not None and z.c == 0:
                if isinstance(b, int) and isinstance(a, (int, Num)) and N.const(a).const:
                    I.throw("ZeroDivisionError", "division by zero")
                if N.const(a).const and N.const(a).c is not None:
                    I.throw("ZeroDivisionError", "float division by zero")
        if op in ("&", "|", "^", "<<", ">>"):
            if I.typename(a) == "float" or I.typename(b) == "float":
                I.throw("TypeError", f"unsupported operand type(s) for {op}")
            raise Undecided("bit operation on symbolic integers")
        return N.binop(op, N.const(int(a) if isinstance(a, bool) else a), N.const(int(b) if isinstance(b, bool) else b))
    sa, sb = isinstance(a, (str, TStr)), isinstance(b, (str, TStr))
    if op == "+":
        if sa and sb:
            return mkstr([a, b])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, PList) and isinstance(b, PList):
            return PList(list(a.el) + list(b.el), I.pc)
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) or (isinstance(y, Num) and y.isint and y.c is None):
                if isinstance(y, Num):
                    if isinstance(x, (str, TStr, tuple, PList)):
                        raise Undecided("repetition by a symbolic count")
                    continue
                if isinstance(x, (str, TStr)):
                    return mkstr([x] * y)
                if isinstance(x, tuple):
                    return x * y
                if isinstance(x, PList):
                    return PList(list(x.el) * y, I.pc)
    if op == "%" and sa:
        return str_percent(I, a, b)
    if isinstance(a, PSet) and isinstance(b, PSet):
        m = {"&": "intersection", "|": "union", "-": "difference", "^": "symmetric_difference"}.get(op)
        if m:
            return I.call(set_method(I, a, m), [b], {})
    if isinstance(a, View) and isinstance(b, (View, PSet)) and op in "&|-^":
        s = I.call(I.builtins["set"], [a])
        return binop_leaf(I, op, s, I.call(I.builtins["set"], [b]))
    if isinstance(a, PDict) and isinstance(b, PDict) and op == "|":
        r = I.call(dict_method(I, a, "copy"), [])
        I.call(dict_method(I, r, "update"), [b])
        return r
    if isinstance(a, (BType, Cls)) and op == "|":
        return (a, b)
    # a numpy scalar turns sequences into arrays
    if (isinstance(a, (PList, tuple)) and isinstance(b, Num)) or (isinstance(b, (PList, tuple)) and isinstance(a, Num)):
        if op in ("+", "-", "*", "/", "**", "//", "%"):
            return array_op(I, op, a, b)
    if isinstance(a, Ignore) or isinstance(b, Ignore):
        return Ignore("op")
    for x in (a, b):
        if isinstance(x, Opaque) and not isinstance(x, NotNumeric):
            raise Undecided(f"operation on {x}")
    I.throw("TypeError", f"unsupported operand type(s) for {op}: '{I.typename(a)}' and '{I.typename(b)}'")


def array_op(I, op, a, b):
    for x, y, refl in ((a, b, False), (b, a, True)):
        if isinstance(y, Obj) and not (y.cls.has("__array_interface__") or y.cls.has("__array__")):
            f = y.cls.lookup(("__" if (y is a) else "__r") + _DUNDER[op] + "__")
            if f is not None:
                return I.call(Bound(y, f), [x], {})
            I.throw("TypeError", f"unsupported operand type(s) for {op}")
    if isinstance(a, Obj):
        f = a.cls.lookup("__" + _DUNDER[op] + "__")
        if f is not None:
            r = I.call(Bound(a, f), [b], {})
            if r is not NotImplemented:
                return r
    for x in (a, b):
        if x is None or isinstance(x, (PSet, PDict, NotNumeric, str, TStr, Func)):
            I.throw("TypeError", f"unsupported operand type(s) for {op}: '{I.typename(a)}' and '{I.typename(b)}'")
        if isinstance(x, (Opaque, Ignore)):
            raise Undecided(f"operation on {x}")
    return arr_binop(I, op, a, b)


def obj_op(I, op, a, b):
    d = _DUNDER[op]
    if isinstance(a, Obj):
        f = a.cls.lookup(f"__{d}__")
        if f is not None:
            r = I.call(Bound(a, f), [b], {})
            if r is not NotImplemented:
                return r
    if isinstance(b, Obj):
        f = b.cls.lookup(f"__r{d}__")
        if f is not None:
            r = I.call(Bound(b, f), [a], {})
            if r is not NotImplemented:
                return r
    if isinstance(a, Ignore) or isinstance(b, Ignore):
        return Ignore("op")
    I.throw("TypeError", f"unsupported operand type(s) for {op}: '{I.typename(a)}' and '{I.typename(b)}'")


def inplace1(I, op, a, b):
    if isinstance(a, Arr):
        if isinstance(b, Obj) and not (b.cls.has("__array_interface__")):
            return NotImplemented
        r = array_op(I, op, a, b)
        ra = toarr(I, r)
        if P.RANK[ra.dtype] > P.RANK[a.dtype] and not (a.dtype == "object"):
            I.throw("TypeError", f"Cannot cast ufunc output from dtype('{ra.dtype}') to dtype('{a.dtype}')")
        if ra.data.shape != a.data.shape:
            try:
                np.broadcast_to(ra.data, a.data.shape)
            except ValueError:
                I.throw("ValueError", "non-broadcastable output operand")
        arr_setitem(I, a, Ellipsis, ra)
        return a
    if isinstance(a, PList) and op == "+":
        I.call(list_method(I, a, "extend"), [b], {})
        return a
    if isinstance(a, PSet) and op == "|":
        I.call(set_method(I, a, "update"), [b], {})
        return a
    if isinstance(a, PSet) and op == "-":
        for x in I.listof(b):
            I.call(set_method(I, a, "discard"), [x], {})
        return a
    if isinstance(a, PDict) and op == "|":
        I.call(dict_method(I, a, "update"), [b], {})
        return a
    if isinstance(a, Obj):
        f = a.cls.lookup(f"__i{_DUNDER[op]}__")
        if f is not None:
            return I.call(Bound(a, f), [b], {})
    return NotImplemented


def unary_leaf(I, op, x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, B):
        if op == "invert":
            return I.mkbool(M.neg(x.g))
        return I.unary(op, P.num_of(I, x))
    if isinstance(x, int):
        return {"neg": -x, "pos": x, "abs": abs(x), "invert": ~x, "conj": x}[op]
    if isinstance(x, Num):
        if op == "invert":
            raise Undecided("~ of a symbolic integer")
        return {"neg": N.neg, "pos": lambda v: v, "abs": N.absolute, "conj": N.conj}[op](x)
    if isinstance(x, Arr):
        if op == "invert":
            return P.arr_map(I, x, lambda v: I.mkbool(M.neg(I.truth(v))), "bool")
        if op == "neg" and x.dtype == "bool":
            I.throw("TypeError", "The numpy boolean negative is not supported")
        return P.arr_map(I, x, lambda v: unary_leaf(I, op, v))
    if isinstance(x, Obj):
        f = x.cls.lookup({"neg": "__neg__", "pos": "__pos__", "abs": "__abs__", "invert": "__invert__"}[op])
        if f is not None:
            return I.call(Bound(x, f), [], {})
    if isinstance(x, Ignore):
        return x
    if isinstance(x, Opaque) and not isinstance(x, NotNumeric):
        raise Undecided(f"operation on {x}")
    I.throw("TypeError", f"bad operand type for unary operator: '{I.typename(x)}'")


# ------------------------------------------------------------------------ deepcopy
def deepcopy(I, v, memo=None, shallow=False):
    memo = {} if memo is None else memo

    def go(x, top=False):
        if isinstance(x, G):
            return G([(g, go(w)) for g, w in x.cases])
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Ref) or isinstance(x, (HostIter,)):
            return x
        if shallow and not top:
            return x
        if id(x) in memo:
            return memo[id(x)]
        if isinstance(x, Arr):
            r = Arr(x.data.copy(), x.dtype, I.pc)
            memo[id(x)] = r
            if x.dtype == "object" and not shallow:
                for idx in np.ndindex(*r.data.shape):
                    r.data[idx] = go(r.data[idx])
            return r
        if isinstance(x, PList):
            r = PList([], I.pc)
            memo[id(x)] = r
            r.el = [(g, go(y)) for g, y in x.el]
            return r
        if isinstance(x, PDict):
            r = PDict(I.pc)
            memo[id(x)] = r
            r.default = x.default
            for h, e in x.d.items():
                k = go(e[0])
                r.d[I.hkey(k)] = [k, go(e[1]), e[2]]
            return r
        if isinstance(x, PSet):
            r = PSet(I.pc)
            memo[id(x)] = r
            for h, e in x.d.items():
                k = go(e[0])
                r.d[I.hkey(k)] = [k, e[1]]
            return r
        if isinstance(x, Obj):
            f = x.cls.lookup("__deepcopy__" if not shallow else "__copy__")
            if f is not None:
                r = I.call(Bound(x, f), [PDict()] if not shallow else [], {})
                memo[id(x)] = r
                return r
            r = Obj(x.cls, I.pc)
            memo[id(x)] = r
            r.host = x.host
            for k, y in x.fields.items():
                r.fields[k] = go(y)
            return r
        return x

    return go(v, True)


# --------------------------------------------------------------------------- setup
EXC_TREE = """
BaseException:
Exception: BaseException
KeyboardInterrupt: BaseException
SystemExit: BaseException
GeneratorExit: BaseException
StopIteration: Exception
ArithmeticError: Exception
ZeroDivisionError: ArithmeticError
OverflowError: ArithmeticError
FloatingPointError: ArithmeticError
AssertionError: Exception
AttributeError: Exception
BufferError: Exception
EOFError: Exception
ImportError: Exception
ModuleNotFoundError: ImportError
LookupError: Exception
IndexError: LookupError
KeyError: LookupError
MemoryError: Exception
NameError: Exception
UnboundLocalError: NameError
OSError: Exception
FileNotFoundError: OSError
FileExistsError: OSError
IsADirectoryError: OSError
PermissionError: OSError
ReferenceError: Exception
RuntimeError: Exception
NotImplementedError: RuntimeError
RecursionError: RuntimeError
SyntaxError: Exception
SystemError: Exception
TypeError: Exception
ValueError: Exception
UnicodeError: ValueError
UnicodeDecodeError: UnicodeError
Warning: Exception
UserWarning: Warning
DeprecationWarning: Warning
RuntimeWarning: Warning
FutureWarning: Warning
"""


def setup(I):
    objc = Cls("object", [], {})
    I.objectcls = objc
    I.dtypecls = Cls("dtype", [objc], {})
    I.excs = {}
    for line in EXC_TREE.strip().splitlines():
        n, _, b = line.partition(":")
        b = b.strip()
        I.excs[n] = Cls(n, [I.excs[b]] if b else [objc], {})
    I.excs["AxisError"] = Cls("AxisError", [I.excs["ValueError"], I.excs["IndexError"]], {})
    I.excs["IOError"] = I.excs["EnvironmentError"] = I.excs["OSError"]

    def exc_init(I, a, k):
        a[0].fields["args"] = tuple(a[1:])
        return None

    I.excs["BaseException"].ns["__init__"] = HostFn("__init__", exc_init)

    bt = {}
    I.builtins = bt
    I.extmods = {}
    for n, c in I.excs.items():
        if n not in ("AxisError",):
            bt[n] = c
    bt["True"], bt["False"], bt["None"] = True, False, None
    bt["NotImplemented"] = NotImplemented
    bt["Ellipsis"] = Ellipsis
    bt["__debug__"] = True

    def reg(name):
        def deco(f):
            bt[name] = lf(name, f)
            return f
        return deco

    def typ(name, f):
        bt[name] = BType(name, lf(name, f).fn)

    # --- types
    def tfloat(I, x=0):
        if isinstance(x, (bool, int)):
            return N.const(int(x))
        if isinstance(x, B):
            return I.lift(lambda v: N.const(v), P.num_of(I, x))
        if isinstance(x, Num):
            if x.iscomplex:
                I.throw("TypeError", "can't convert complex to float")
            return P.asfloat(x)
        if isinstance(x, (str, TStr)):
            return str_to_float(I, x)
        if isinstance(x, BytesV):
            return str_to_float(I, x.s)
        if isinstance(x, Arr):
            if x.data.size == 1:
                return I.lift(lambda v: tfloat(I, v), x.data.reshape(-1)[0])
            I.throw("TypeError", "only length-1 arrays can be converted to Python scalars")
        if isinstance(x, Obj) and x.cls.has("__float__"):
            return I.call(I.getattr(x, "__float__"), [])
        if isinstance(x, (Opaque, Ignore)) and not isinstance(x, NotNumeric):
            raise Undecided(f"float({x})")
        if isinstance(x, NotNumeric):
            I.throw("ValueError", "could not convert string to float")
        I.throw("TypeError", f"float() argument must be a string or a real number, not '{I.typename(x)}'")

    def tint(I, x=0, base=10):
        if isinstance(x, (bool, int)):
            return int(x)
        if isinstance(x, B):
            return P.num_of(I, x)
        if isinstance(x, Num):
            if x.iscomplex:
                I.throw("TypeError", "can't convert complex to int")
            return cast(I, x, "int")
        if isinstance(x, (str, TStr)):
            return str_to_int(I, x, base)
        if isinstance(x, Arr) and x.data.size == 1:
            return I.lift(lambda v: tint(I, v), x.data.reshape(-1)[0])
        if isinstance(x, (Opaque, Ignore)) and not isinstance(x, NotNumeric):
            raise Undecided(f"int({x})")
        if isinstance(x, NotNumeric):
            I.throw("ValueError", "invalid literal for int()")
        I.throw("TypeError", f"int() argument must be a string or a real number, not '{I.typename(x)}'")

    def tcomplex(I, re=0, im=0):
        return N.binop("+", N.const(re), N.binop("*", N.const(im), N.const(1j)))

    typ("float", tfloat)
    typ("int", tint)
    typ("complex", tcomplex)
    typ("bool", lambda I, x=False: I.mkbool(I.truth(x)))
    typ("str", lambda I, x="", encoding=None, errors=None: to_str(I, x))
    bt["bytes"] = BType("bytes")

    def tlist(I, a, k):
        if not a:
            return PList([], I.pc)
        its = list(I.iterate(a[0]))
        return PList([(TRUE if M.implies(I.pc, g) else g, v) for g, v in its if M.conj(I.pc, g) != FALSE], I.pc)

    bt["list"] = BType("list", tlist)

    def ttuple(I, a, k):
        if not a:
            return ()
        x = I.restrict(a[0])
        if isinstance(x, G):
            return I.lift(lambda v: tuple(I.listof(v)), x)
        return tuple(I.listof(x))

    bt["tuple"] = BType("tuple", ttuple)

    def tdict(I, a, k):
        d = PDict(I.pc)
        if a:
            I.call(dict_method(I, d, "update"), [a[0]])
        for x, y in k.items():
            I.dict_set(d, x, y)
        return d

    bt["dict"] = BType("dict", tdict)
    bt["dict"].attrs["fromkeys"] = lf("fromkeys", lambda I, ks, v=None: _fromkeys(I, ks, v))

    def _maketrans(I, x, y=None, z=None):
        d = PDict(I.pc)
        if isinstance(x, PDict):
            for k, v, g in list(x.d.values()):
                if M.conj(I.pc, g) == FALSE:
                    continue
                if isinstance(k, str):
                    if len(k) != 1:
                        I.throw("ValueError", "string keys in translate table must be of length 1")
                    k = ord(k)
                I.dict_set(d, k, v)
            return d
        if not (isinstance(x, str) and isinstance(y, str) and (z is None or isinstance(z, str))):
            raise Undecided("maketrans")
        try:
            t = str.maketrans(x, y) if z is None else str.maketrans(x, y, z)
        except ValueError as e:
            I.throw("ValueError", str(e))
        for k, v in t.items():
            I.dict_set(d, k, v)
        return d

    bt["str"].attrs["maketrans"] = lf("maketrans", _maketrans)

    def _fromkeys(I, ks, v):
        d = PDict(I.pc)
        for x in I.listof(ks):
            I.dict_set(d, x, v)
        return d

    def tset(frozen):
        def f(I, a, k):
            s = PSet(I.pc)
            s.frozen = frozen
            if a:
                p0 = I.pc
                for g, x in list(I.iterate(a[0])):
                    I.pc = M.conj(p0, g)
                    if I.pc != FALSE:
                        I.set_add(s, x)
                I.pc = p0
            return s
        return f

    bt["set"] = BType("set", tset(False))
    bt["frozenset"] = BType("frozenset", tset(True))
    bt["object"] = BType("object", lambda I, a, k: Obj(objc, I.pc))
    bt["type"] = BType("type", lf("type", lambda I, x, *a: I.typeof(x)).fn)
    bt["slice"] = BType("slice", lf("slice", lambda I, *a: I.mkslice(*((None, a[0], None) if len(a) == 1 else tuple(a) + (None,) * (3 - len(a))))).fn)

    def trange(I, *a):
        a = [I.np_ints(I, x) for x in a]
        r = range(*a)
        return Range(r.start, r.stop, r.step)

    bt["range"] = BType("range", lf("range", trange).fn)
    bt["property"] = BType("property", lambda I, a, k: Prop(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset")))
    bt["staticmethod"] = HostFn("staticmethod", lambda I, a, k: StaticM(a[0]))
    bt["classmethod"] = HostFn("classmethod", lambda I, a, k: ClassM(a[0]))

    # --- functions
    bt["len"] = HostFn("len", lambda I, a, k: I.length(a[0]))
    bt["print"] = HostFn("print", lambda I, a, k: I.stdout.append((I.pc, tuple(a))))
    bt["input"] = HostFn("input", lambda I, a, k: Opaque("input"))

    @reg("isinstance")
    def isinst(I, x, t):
        return I.isinstance_leaf(x, t)

    @reg("issubclass")
    def issub(I, c, t):
        ts = t if isinstance(t, tuple) else (t,)
        if not isinstance(c, (Cls, BType)):
            I.throw("TypeError", "issubclass() arg 1 must be a class")
        return any((isinstance(c, Cls) and isinstance(u, Cls) and c.issub(u)) or c is u for u in ts)

    @reg("callable")
    def callable_(I, x):
        return isinstance(x, (Func, Bound, HostFn, Cls, BType)) or (isinstance(x, Obj) and x.cls.has("__call__"))

    @reg("abs")
    def abs_(I, x):
        return unary_leaf(I, "abs", x)

    @reg("round")
    def round_(I, x, nd=None):
        if isinstance(x, int):
            return x if nd is None or nd >= 0 else round(x, nd)
        if isinstance(x, Num):
            r = N.rnd(x, 0 if nd is None else I.np_ints(I, nd))
            if nd is None:
                return int(r.c) if r.c is not None else r
            return r
        if isinstance(x, Arr):
            return I.call(I.extmods["numpy"].attrs["round"], [x, nd or 0])
        I.throw("TypeError", f"type {I.typename(x)} doesn't define __round__ method")

    def minmax(name, fn, op):
        def f(I, a, k):
            key = k.get("key")
            items = I.listof(a[0]) if len(a) == 1 else list(a)
            if not items:
                if "default" in k:
                    return k["default"]
                I.throw("ValueError", f"{name}() arg is an empty sequence")
            if key is None and all(isinstance(I.restrict(x), (int, Num, G)) for x in items):
                r = items[0]
                for x in items[1:]:
                    r = I.lift(lambda p, q: (max(p, q) if name == "max" else min(p, q)) if isinstance(p, int) and isinstance(q, int) else fn(p, q), r, x)
                return r
            ks = [I.call(key, [x], {}) if key is not None else x for x in items]
            order = I.argsort_keys(I, ks)
            if name == "min":
                return items[order[0]]
            best = order[-1]
            for i in range(len(items)):
                if M.implies(I.pc, I.eq(ks[i], ks[best])):
                    return items[i]
            return items[best]
        bt[name] = HostFn(name, f)

    minmax("max", N.maximum, ">")
    minmax("min", N.minimum, "<")

    def sum_(I, a, k):
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for g, x in list(I.iterate(a[0])):
            y = r
            if M.implies(I.pc, g):
                r = I.binop("+", y, x)
            else:
                r = I.case([(g, lambda: I.binop("+", y, x)), (M.neg(g), lambda: y)])
        return r

    bt["sum"] = HostFn("sum", sum_)

    def anyall(isany):
        def f(I, a, k):
            g = FALSE if isany else TRUE
            for h, x in list(I.iterate(a[0])):
                t = I.truth(x)
                g = M.disj(g, M.conj(h, t)) if isany else M.conj(g, M.disj(M.neg(h), t))
            return I.mkbool(g)
        return f

    bt["any"] = HostFn("any", anyall(True))
    bt["all"] = HostFn("all", anyall(False))

    def zip_(I, a, k):
        if not a:
            return HostIter([], I.pc)
        strict = k.get("strict")
        raw = [list(I.iterate(x)) for x in a]
        ls = [I.definite(x) for x in raw]
        if any(l is None for l in ls):
            # uncertain only at the end: an item is present together with all before it
            for r in raw:
                if any(M.diff(M.conj(I.pc, y[0]), x[0]) != FALSE for x, y in zip(r, r[1:])):
                    raise Undecided("zip of sequences of uncertain length")
            if strict:
                raise Undecided("strict zip of sequences of uncertain length")
            out = []
            for t in zip(*raw):
                g = TRUE
                for h, _ in t:
                    g = M.conj(g, h)
                if M.conj(I.pc, g) != FALSE:
                    out.append((g, tuple(x for _, x in t)))
            return HostIter(out, I.pc)
        if strict is True and len({len(l) for l in ls}) > 1:
            I.throw("ValueError", "zip() arguments have different lengths")
        return HostIter([(TRUE, t) for t in zip(*ls)], I.pc)

    bt["zip"] = HostFn("zip", zip_)

    def enum_(I, a, k):
        st = a[1] if len(a) > 1 else k.get("start", 0)
        out = []
        cnt = st
        for g, v in list(I.iterate(a[0])):
            if M.implies(I.pc, g):
                out.append((TRUE, (cnt, v)))
                cnt = I.binop("+", cnt, 1)
            elif M.conj(I.pc, g) != FALSE:
                out.append((g, (cnt, v)))
                c0 = cnt
                cnt = I.case([(g, lambda: I.binop("+", c0, 1)), (M.neg(g), lambda: c0)])
        return HostIter(out, I.pc)

    bt["enumerate"] = HostFn("enumerate", enum_)

    def map_(I, a, k):
        if len(a) == 2:
            out = []
            p0 = I.pc
            for g, v in list(I.iterate(a[1])):
                if M.implies(I.pc, g):
                    out.append((TRUE, I.call(a[0], [v], {})))
                else:
                    p = I.pc
                    I.pc = M.conj(p, g)
                    if I.pc != FALSE:
                        out.append((g, I.call(a[0], [v], {})))
                    I.pc = p
            return HostIter(out, I.pc)
        return HostIter([(TRUE, I.call(a[0], list(t), {})) for t in zip(*[I.listof(x) for x in a[1:]])], I.pc)

    bt["map"] = HostFn("map", map_)

    def filter_(I, a, k):
        out = []
        for g, v in list(I.iterate(a[1])):
            t = I.truth(v if a[0] is None else I.call(a[0], [v], {}))
            h = M.conj(g, t)
            if M.conj(I.pc, h) != FALSE:
                out.append((TRUE if M.implies(I.pc, h) else h, v))
        return HostIter(out, I.pc)

    bt["filter"] = HostFn("filter", filter_)
    bt["reversed"] = lf("reversed", lambda I, x: HostIter([(TRUE, v) for v in reversed(I.listof(x))], I.pc))

    def sorted_(I, a, k):
        return I.mklist(sort_items(I, I.listof(a[0]), k.get("key"), k.get("reverse", False)))

    bt["sorted"] = HostFn("sorted", sorted_)

    def iter_(I, x):
        if isinstance(x, HostIter) and not isinstance(x, View):
            return x
        if isinstance(x, Obj):
            f = x.cls.lookup("__iter__")
            if f is None:
                I.throw("TypeError", f"'{x.cls.name}' object is not iterable")
            return I.call(Bound(x, f), [])
        if isinstance(x, PDict):
            return I.call(dict_method(I, x, "__iter__"), [])
        return HostIter(list(I.iterate(x)), I.pc)

    bt["iter"] = lf("iter", iter_)
    bt["next"] = lf("next", host_next)
    bt["repr"] = lf("repr", to_repr)
    bt["format"] = lf("format", format_value)
    bt["id"] = lf("id", lambda I, x: id(x))
    bt["hash"] = lf("hash", lambda I, x: Opaque("hash"))
    bt["ord"] = lf("ord", lambda I, x: ord(x))
    bt["chr"] = lf("chr", lambda I, x: chr(x))
    bt["divmod"] = lf("divmod", lambda I, a, b: (I.binop("//", a, b), I.binop("%", a, b)))
    bt["pow"] = lf("pow", lambda I, a, b: I.binop("**", a, b))
    bt["exit"] = bt["quit"] = lf("exit", lambda I, *a: I.throw("SystemExit", ""))

    def getattr_(I, o, n, *d):
        if not isinstance(n, str):
            raise Undecided("getattr with a symbolic name")
        if not d:
            return I.getattr(o, n)
        base = I.handlers
        coll = []
        I.handlers = base + [coll]
        try:
            try:
                v = [(I.pc, I.getattr(o, n))]
                v = [(I.pc, v[0][1])]
            except Dead:
                v = []
        finally:
            I.handlers = base
        ae = FALSE
        for g, e in coll:
            if e.cls.issub(I.excs["AttributeError"]):
                ae = M.disj(ae, g)
            else:
                I.handlers[-1].append((g, e))
        if ae != FALSE:
            v.append((ae, d[0]))
        I.pc = FALSE
        for g, _ in v:
            I.pc = M.disj(I.pc, g)
        if I.pc == FALSE:
            raise Dead
        return I.join(v)

    bt["getattr"] = lf("getattr", getattr_)
    MISS = Opaque("missing")

    def hasattr_(I, o, n):
        r = getattr_(I, o, n, MISS)
        return I.lift(lambda v: v is not MISS, r)

    bt["hasattr"] = lf("hasattr", hasattr_)

    def setattr_(I, a, k):
        I.lift(lambda n: I.setattr(a[0], n, a[2]), a[1])

    bt["setattr"] = HostFn("setattr", setattr_)
    bt["delattr"] = lf("delattr", lambda I, o, n: I.delattr1(o, n))
    bt["vars"] = lf("vars", lambda I, o: I.getattr(o, "__dict__"))

    def dir_(I, o):
        raise Undecided("dir")

    bt["dir"] = lf("dir", dir_)

    # --- files
    filec = Cls("TextIOWrapper", [objc], {})
    I.filecls = filec

    def open_(I, name, mode="r", encoding=None, **kw):
        f = Obj(filec, I.pc)
        key = I.hkey(name)
        f.fields["name"] = name
        f.fields["mode"] = mode
        f.fields["pos"] = 0
        f.fields["closed"] = False
        f.host = key
        I.opened.append((f, I.pc, I.loc))
        if not isinstance(mode, str):
            raise Undecided("open mode")
        if "r" in mode:
            if key not in I.fs:
                I.throw("FileNotFoundError", f"No such file: {name}")
        elif "w" in mode:
            I.fs[key] = PList([], TRUE)
            I.fs_names[key] = name
        elif "a" in mode:
            I.fs.setdefault(key, PList([], TRUE))
            I.fs_names[key] = name
            f.fields["pos"] = 10 ** 9
        elif "x" in mode:
            if key in I.fs:
                I.throw("FileExistsError", f"File exists: {name}")
            I.fs[key] = PList([], TRUE)
            I.fs_names[key] = name
        I.effects.append(("open", I.pc, name, mode, I.loc))
        return f

    I.opened = []
    I.fs_names = {}
    bt["open"] = lf("open", open_)

    def content(I, f):
        c = I.fs[f.host]
        d = I.definite(c.el)
        if d is None:
            raise Undecided("file with uncertain content")
        return I.lift(lambda *p: mkstr(p), *d) if d else ""

    def lines_of(I, f):
        d = I.definite(I.fs[f.host].el)
        if d and all(isinstance(x, G) for x in d):
            # one piece per line, each a choice of complete lines
            if all(isinstance(w, str) and w.endswith("\n") and w.count("\n") == 1 for x in d for _, w in x.cases):
                return tuple(d)
        s = content(I, f)

        def sp(t):
            ls = I.listof(str_split(I, t, "\n"))
            out = [mkstr([x, "\n"]) for x in ls[:-1]]
            if ls[-1] != "":
                out.append(ls[-1])
            return tuple(out)
        return I.lift(sp, s)

    def fmeth(name):
        def deco(fn):
            filec.ns[name] = HostFn(name, lambda I, a, k: fn(I, *a, **k))
        return deco

    @fmeth("read")
    def f_read(I, f, n=-1):
        f.fields["pos"] = I.gate(f.born, 10 ** 9, f.fields["pos"])
        return content(I, f)

    @fmeth("readlines")
    def f_readlines(I, f):
        ls = lines_of(I, f)
        out = I.lift(lambda p, t: I.mklist(list(t[p:])), f.fields["pos"], ls)
        f.fields["pos"] = I.gate(f.born, 10 ** 9, f.fields["pos"])
        return out

    @fmeth("seek")
    def f_seek(I, f, n, whence=0):
        if n != 0 or whence not in (0, 2):
            raise Undecided("seek")
        f.fields["pos"] = I.gate(f.born, 0 if whence == 0 else 10 ** 9, f.fields["pos"])
        return 0

    @fmeth("readline")
    def f_readline(I, f):
        ls = lines_of(I, f)

        def rd(p, t):
            if p < len(t):
                f.fields["pos"] = I.gate(f.born, p + 1, f.fields["pos"])
                return t[p]
            return ""
        return I.lift(rd, f.fields["pos"], ls)

    @fmeth("write")
    def f_write(I, f, s):
        if isinstance(f.fields["mode"], str) and "r" in f.fields["mode"]:
            if "+" in f.fields["mode"]:
                raise Undecided("overwriting a part of a file")
            I.throw("UnsupportedOperation", "not writable")
        def wr(x):
            if not isinstance(x, (str, TStr)):
                I.throw("TypeError", f"write() argument must be str, not {I.typename(x)}")
            I.list_append(I.fs[f.host], x)
        I.lift(wr, s)
        return 0

    @fmeth("writelines")
    def f_writelines(I, f, ls):
        for g, x in list(I.iterate(ls)):
            p0 = I.pc
            I.pc = M.conj(p0, g)
            if I.pc != FALSE:
                f_write(I, f, x)
            I.pc = p0

    @fmeth("close")
    def f_close(I, f):
        I.rawset(f, "closed", True)

    @fmeth("flush")
    def f_flush(I, f):
        return None

    @fmeth("__enter__")
    def f_enter(I, f):
        return f

    @fmeth("__exit__")
    def f_exit(I, f, *a):
        I.rawset(f, "closed", True)

    def f_iter(I, a, k):
        t = I.restrict(lines_of(I, a[0]))
        if isinstance(t, G):
            raise Undecided("file with gated content")
        return I.mklist(list(t[a[0].fields["pos"]:]))

    filec.ns["__hostiter__"] = HostFn("iter", f_iter)
    filec.ns["__hostopen__"] = True

    # --- external modules
    LinAlgError = Cls("LinAlgError", [I.excs["ValueError"]], {})
    I.excs["LinAlgError"] = LinAlgError
    npat = P.setup(I, lf, LinAlgError)
    em = I.extmods
    em["numpy"] = ExtMod("numpy", npat)
    em["numpy.linalg"] = npat["linalg"]
    em["numpy.random"] = npat["random"]
    for n in ("logging", "warnings", "tqdm", "termcolor"):
        em[n] = Ignore(n)
    ty = {n: BType(n) for n in ("Iterable", "Sequence", "Mapping", "Callable", "Sized", "Number", "Real", "Integral", "Complex")}
    for n in ("Any", "Union", "Optional", "Tuple", "List", "Dict", "TypeVar", "Self", "Set", "Generator", "Iterator", "Literal", "NamedTuple"):
        ty[n] = Ignore(n)
    em["typing"] = ExtMod("typing", ty)
    em["collections.abc"] = ExtMod("collections.abc", ty)
    em["numbers"] = ExtMod("numbers", ty)

    def defaultdict(I, a, k):
        d = PDict(I.pc)
        d.default = a[0] if a else None
        return d

    em["collections"] = ExtMod("collections", {"abc": em["collections.abc"], "OrderedDict": bt["dict"],
                                               "defaultdict": HostFn("defaultdict", defaultdict)})
    em["__future__"] = ExtMod("__future__", {"annotations": True})
    em["copy"] = ExtMod("copy", {"deepcopy": lf("deepcopy", lambda I, x, memo=None: deepcopy(I, x)),
                                 "copy": lf("copy", lambda I, x: deepcopy(I, x, None, True))})
    mt = {"pi": N.const(math.pi), "e": N.const(math.e), "inf": N.const(float("inf")), "nan": N.const(float("nan"))}

    def domain(f, lo=None):
        def g(I, x):
            if not isinstance(x, (int, Num)):
                I.throw("TypeError", "must be real number")
            return f(N.const(x))
        return g

    def msqrt(I, x):
        if not isinstance(x, (int, Num)):
            I.throw("TypeError", "must be real number")
        z = N.const(x)
        if z.c is not None and z.c < 0:
            I.throw("ValueError", "math domain error")
        return N.sqrt(z)

    mt["sqrt"] = lf("sqrt", msqrt)
    for n, f in (("sin", N.sin), ("cos", N.cos), ("tan", N.tan), ("exp", N.exp), ("log", N.log), ("acos", N.arccos), ("asin", N.arcsin),
                 ("atan", N.arctan), ("fabs", N.absolute)):
        mt[n] = lf(n, domain(f))
    mt["radians"] = npat["radians"]
    mt["degrees"] = npat["degrees"]
    mt["atan2"] = lf("atan2", lambda I, y, x: N.arctan2(y, x))
    mt["floor"] = lf("floor", lambda I, x: cast(I, N.floor(x), "int"))
    mt["ceil"] = lf("ceil", lambda I, x: cast(I, N.neg(N.floor(N.neg(x))), "int"))
    mt["isclose"] = lf("isclose", lambda I, a, b, rel_tol=None, abs_tol=None: I.mkbool(P.close_guard(I, a, b)))
    mt["prod"] = lf("prod", lambda I, x: npat["prod"].fn(I, [x], {}))
    mt["hypot"] = npat["hypot"]
    em["math"] = ExtMod("math", mt)
    em["re"] = ExtMod("re", {})
    pth = {}

    def jn(I, *a):
        for i, x in enumerate(a):
            if i and isinstance(x, str) and x.startswith("/"):
                a = a[i:]
        a = [x for i, x in enumerate(a) if x != "" or i and i == len(a) - 1]
        out = []
        for i, x in enumerate(a):
            if i and not (isinstance(out[-1], str) and out[-1].endswith("/")):
                out.append("/")
            out.append(x)
        return mkstr(out)

    pth["join"] = lf("join", jn)
    pth["abspath"] = pth["normpath"] = pth["expanduser"] = pth["realpath"] = lf("abspath", lambda I, x: x)

    def split(I, x):
        if isinstance(x, str):
            return os.path.split(x)
        raise Undecided("os.path.split")

    pth["split"] = lf("split", split)

    def native(fn):
        def g(I, x):
            if isinstance(x, str):
                return fn(x)
            if not isinstance(x, TStr):
                I.throw("TypeError", f"expected str, bytes or os.PathLike object, not {I.typename(x)}")
            if fn is os.path.splitext and isinstance(x.parts[-1], str):
                a, b = os.path.splitext(x.parts[-1])
                return (mkstr(list(x.parts[:-1]) + [a]), b)
            raise Undecided("path operation")
        return g

    for n in ("basename", "dirname", "splitext"):
        pth[n] = lf(n, native(getattr(os.path, n)))
    def isdir(I, x):
        """Directories that hold a known file or were created exist; of others nothing is known."""
        if not isinstance(x, str):
            return M.var(("isdir", repr(x), "isdir"))
        x = x.rstrip("/")
        if x in ("", ".") or any(isinstance(n, str) and n.startswith(x + "/") for n in I.fs_names.values()):
            return TRUE
        return M.disj(M.var(("isdir", repr(x), "isdir")), I.dirs.get(x, FALSE))

    def mkdir(I, x, mode=511, exist_ok=False):
        g = isdir(I, x)
        if exist_ok is not True:
            if exist_ok is not False:
                g = M.diff(g, I.truth(exist_ok))
            I.case([(g, lambda: I.throw("FileExistsError", f"[Errno 17] File exists: {x!r}")), (M.neg(g), lambda: None)])
        if isinstance(x, str):
            d = x.rstrip("/")
            while d:
                I.dirs[d] = M.disj(I.dirs.get(d, FALSE), I.pc)
                d = os.path.dirname(d) if os.path.dirname(d) != d else ""
        I.effects.append(("makedirs", I.pc, x, I.loc))

    I.dirs = {}
    pth["isfile"] = lf("exists", lambda I, x: I.hkey(x) in I.fs or I.mkbool(M.var(("exists", repr(x), "exists"))))
    pth["exists"] = lf("exists", lambda I, x: I.hkey(x) in I.fs or I.mkbool(M.disj(M.var(("exists", repr(x), "exists")), isdir(I, x))))
    pth["isdir"] = lf("isdir", lambda I, x: I.mkbool(isdir(I, x)))
    em["os.path"] = ExtMod("os.path", pth)
    osm = {"path": em["os.path"], "sep": "/", "linesep": "\n", "name": "posix"}
    osm["makedirs"] = lf("makedirs", mkdir)
    osm["mkdir"] = lf("mkdir", lambda I, x, mode=511: mkdir(I, x))
    for n in ("remove", "system", "getcwd", "environ", "get_terminal_size"):
        osm[n] = Ignore("os." + n)
    em["os"] = ExtMod("os", osm)
    em["sys"] = ExtMod("sys", {"argv": Opaque("sys.argv"), "stdout": Ignore("stdout"), "stderr": Ignore("stderr"), "exit": bt["exit"],
                               "platform": "linux", "version_info": (3, 12), "version": "3.12", "maxsize": 2 ** 63 - 1, "modules": Ignore("sys.modules"),
                               "tracebacklimit": 0})
    em["datetime"] = Ignore("datetime")
    em["calendar"] = Ignore("calendar")
    em["time"] = Ignore("time")
    em["itertools"] = ExtMod("itertools", {
        "product": lf("product", lambda I, *a, repeat=1: I.mklist(_product([I.listof(x) for x in a] * repeat))),
        "chain": lf("chain", lambda I, *a: HostIter([p for x in a for p in list(I.iterate(x))], I.pc)),
        "combinations": lf("combinations", lambda I, x, n: I.mklist(_comb(I.listof(x), n))),
        "permutations": lf("permutations", lambda I, x, n=None: I.mklist(_perm(I.listof(x), n))),
    })
    em["functools"] = ExtMod("functools", {"reduce": lf("reduce", _reduce), "partial": HostFn("partial", _partial),
                                           "wraps": HostFn("wraps", lambda I, a, k: HostFn("id", lambda I, b, q: b[0])),
                                           "cached_property": HostFn("cached_property", lambda I, a, k: Prop(a[0])),
                                           "lru_cache": HostFn("lru_cache", lambda I, a, k: a[0] if a and isinstance(a[0], Func) else HostFn("id", lambda I, b, q: b[0]))})
    em["operator"] = ExtMod("operator", {n: lf(n, lambda I, a, b, op=op: I.binop(op, a, b)) for n, op in
                                         (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("matmul", "@"))})
    em["operator"].attrs["itemgetter"] = lf("itemgetter", lambda I, *ks: lf("ig", lambda I, o: I.getitem(o, ks[0]) if len(ks) == 1 else tuple(I.getitem(o, q) for q in ks)))
    em["operator"].attrs["attrgetter"] = lf("attrgetter", lambda I, n: lf("ag", lambda I, o: I.getattr(o, n)))
    em["contextlib"] = Ignore("contextlib")
    em["traceback"] = Ignore("traceback")
    em["subprocess"] = Ignore("subprocess")
    em["platform"] = Ignore("platform")
    # external libraries with interpreted stubs
    I.stub_modules = {}
    for f in os.listdir(STUBS):
        if f.endswith(".py"):
            I.stub_modules[f[:-3]] = os.path.join(STUBS, f)


def _product(ls):
    import itertools
    return [tuple(x) for x in itertools.product(*ls)]


def _comb(l, n):
    import itertools
    return [tuple(x) for x in itertools.combinations(l, n)]


def _perm(l, n):
    import itertools
    return [tuple(x) for x in itertools.permutations(l, n)]


def _reduce(I, f, xs, *init):
    items = I.listof(xs)
    if init:
        r = init[0]
    else:
        if not items:
            I.throw("TypeError", "reduce() of empty iterable with no initial value")
        r = items.pop(0)
    for x in items:
        r = I.call(f, [r, x], {})
    return r


def _partial(I, a, k):
    f, pre = a[0], a[1:]
    return HostFn("partial", lambda I, b, q: I.call(f, list(pre) + list(b), {**k, **q}))
