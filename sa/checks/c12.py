"""Value-numbering analysis of every setter and of the constructor of
MatrixParameter on symbolic matrices: after assigning one part the gated matrix
must be the term 'old matrix with exactly that part replaced'.  Sequences of two
assignments in every order and all keyword combinations of the constructor are
enumerated."""
import itertools

from ..lib import *

HALF, THIRD = N.const(Fraction_(1, 2)), N.const(Fraction_(1, 3))


def parts(m):
    S, A = (m + m.T) * HALF, (m - m.T) * HALF
    iso = (m[0, 0] + m[1, 1] + m[2, 2]) * THIRD
    I3 = arr(EYE).data * iso
    return I3, S - I3, A


def dm(d):
    z = N.const(0)
    return np.array([[z, d[2], -d[1]], [-d[2], z, d[0]], [d[1], -d[0], z]], dtype=object)


def apply(m, what, v):
    I3, S, A = parts(m)
    if what == "iso":
        return arr(EYE).data * v + S + A
    if what == "dmi":
        return I3 + S + dm(v)
    if what == "aniso":
        return I3 + v + A
    if what == "matrix":
        return v.copy()
    i, j = "xyz".index(what[0]), "xyz".index(what[1])
    m = m.copy()
    m[i, j] = N.const(v)
    return m


def aniso(n):
    a = symmat(n).data
    a[2, 2] = -a[0, 0] - a[1, 1]
    return a


def check(rep):
    c = rep.ctx()
    P = ["iso", "dmi", "aniso"]
    comps = [a + b for a in "xyz" for b in "xyz"]

    def val(what, tag):
        if what == "dmi":
            return arr([sym(f"D{tag}{k}") for k in "xyz"])
        if what == "aniso":
            return Arr(aniso("a" + tag))
        if what == "matrix":
            return mat("m" + tag)
        return sym("v" + tag + what)

    def small(v):
        f = N.const(Fraction_(1, 10**10))
        return Arr(np.array([x * f for x in v.data.reshape(-1)], dtype=object).reshape(v.data.shape)) if isinstance(v, Arr) else v * f

    def raw(v):
        return v.data if isinstance(v, Arr) else v

    bases = [("a general matrix", mat("J")), ("a zero matrix", arr([[0] * 3] * 3)), ("a symmetric matrix", symmat("Q")),
             ("an isotropic matrix", arr(np.array(EYE) * np.array([sym("p")] * 9).reshape(3, 3))), ("a matrix of very small numbers", small(mat("J")))]
    for bn, J in bases:
        for w in P + comps + ["matrix"]:
            with rep.ob(f"set {w} on {bn}"):
                v = small(val(w, "1")) if "small" in bn else val(w, "1")
                r = c.run(f"p = MatrixParameter(matrix=J)\np.{w} = v\nm = p.matrix\nq = p.{w}", J=Arr(J.data.copy()), v=v)
                loc = anchor(c, f"MatrixParameter.{w}")
                r.must_pass(f"setting {w}")
                c.same(r["m"], Arr(apply(J.data, w, raw(v))), f"matrix after setting {w}", loc=loc)
                c.same(r["q"], v, f"{w} after setting it", loc=loc)
        for w in P:
            with rep.ob(f"set {w} to zero on {bn}"):
                v = {"iso": N.const(0.0), "dmi": arr([0, 0, 0]), "aniso": arr([[0] * 3] * 3)}[w]
                r = c.run(f"p = MatrixParameter(matrix=J)\np.{w} = v\nm = p.matrix", J=Arr(J.data.copy()), v=v)
                r.must_pass(f"setting {w} to zero")
                c.same(r["m"], Arr(apply(J.data, w, raw(v))), f"matrix after setting {w} to zero", loc=anchor(c, f"MatrixParameter.{w}"))
    J = bases[0][1]
    for w, text in (("dmi", "(v[0], v[1], v[2])"), ("dmi", "[1, 2, 3]"), ("iso", "2"), ("xy", "2"), ("aniso", "[[1, 2, 3], [2, -3, 4], [3, 4, 2]]")):
        with rep.ob(f"set {w} from {text}"):
            v = val(w, "1")
            r = c.run(f"p = MatrixParameter(matrix=J)\nv = np.array(v) if False else v\nu = {text}\np.{w} = u\nm = p.matrix", J=Arr(J.data.copy()), v=v)
            r.must_pass(f"setting {w} from {text}")
            if "v[" not in text:
                v = arr(eval(text)) if text[0] == "[" else N.const(eval(text))
            c.same(r["m"], Arr(apply(J.data, w, raw(v))), f"matrix after setting {w}", loc=anchor(c, f"MatrixParameter.{w}"))
    seqs = list(itertools.permutations(P + ["xy"], 2)) + list(itertools.permutations(P, 3))
    if rep.thorough:
        seqs += list(itertools.permutations(P + comps, 2)) + [s for s in itertools.permutations(P + ["xx", "yx", "zz"], 3)]
    for s in seqs:
        with rep.ob("assignments in order " + ", ".join(s)):
            vs = {f"v{i}": val(w, str(i)) for i, w in enumerate(s)}
            src = "p = MatrixParameter(matrix=J)\n" + "\n".join(f"p.{w} = v{i}" for i, w in enumerate(s)) + "\nm = p.matrix"
            r = c.run(src, J=Arr(J.data.copy()), **vs)
            r.must_pass("assignments")
            m = J.data
            for i, w in enumerate(s):
                m = apply(m, w, raw(vs[f"v{i}"]))
            c.same(r["m"], Arr(m), "matrix after setting " + ", ".join(s), loc=anchor(c, "MatrixParameter"))
    for k in range(0, 5):
        for kw in itertools.combinations(["matrix", "iso", "aniso", "dmi"], k):
            with rep.ob("constructor with " + (", ".join(kw) or "no arguments")):
                vs = {w: val(w, "c") for w in kw}
                r = c.run("p = MatrixParameter(" + ", ".join(f"{w}={w}_" for w in kw) + ")\nm = p.matrix", **{w + "_": v for w, v in vs.items()})
                r.must_pass("constructor")
                m = raw(vs["matrix"]) if "matrix" in kw else arr([[0] * 3] * 3).data
                for w in ("iso", "dmi", "aniso"):
                    if w in kw:
                        m = apply(m, w, raw(vs[w]))
                c.same(r["m"], Arr(m), "matrix of a new parameter", loc=anchor(c, "MatrixParameter.__init__"))
    zeros = {"iso": N.const(0.0), "dmi": arr([0, 0, 0]), "aniso": arr([[0] * 3] * 3)}
    for kw in [k for n in (1, 2, 3) for k in itertools.combinations(P, n)]:
        for z in kw:
            with rep.ob("constructor with a matrix and " + ", ".join(kw) + f", {z} is zero"):
                vs = {"matrix": J, **{w: zeros[w] if w == z else val(w, "c") for w in kw}}
                r = c.run("p = MatrixParameter(" + ", ".join(f"{w}={w}_" for w in vs) + ")\nm = p.matrix", **{w + "_": v for w, v in vs.items()})
                r.must_pass("constructor")
                m = J.data
                for w in ("iso", "dmi", "aniso"):
                    if w in kw:
                        m = apply(m, w, raw(vs[w]))
                c.same(r["m"], Arr(m), "matrix of a new parameter", loc=anchor(c, "MatrixParameter.__init__"))
    with rep.ob("positional order of the constructor"):
        r = c.run("p = MatrixParameter(J, i, a, d)\nm = p.matrix", J=Arr(J.data.copy()), i=val("iso", "q"), a=val("aniso", "q"), d=val("dmi", "q"))
        r.must_pass("constructor")
        m = apply(apply(apply(J.data, "iso", val("iso", "q")), "dmi", raw(val("dmi", "q"))), "aniso", raw(val("aniso", "q")))
        c.same(r["m"], Arr(m), "matrix of a new parameter", loc=anchor(c, "MatrixParameter.__init__"))
    with rep.ob("parameters do not share their matrices"):
        r = c.run("p = MatrixParameter()\nq = MatrixParameter()\np.xx = v\nm = q.matrix", v=sym("v"))
        r.must_pass("two parameters")
        c.same(r["m"], arr([[0] * 3] * 3), "a second new parameter after changing the first", loc=anchor(c, "MatrixParameter.__init__"))
    rep.minimum = 80
