"""Value-numbering and alias analysis of the operators of MatrixParameter on
symbolic operands: the matrix of the result is the term of the same operation on
the matrices, the operands keep their matrices, the result is another object
that shares no storage with an operand, unsupported operands end in TypeError."""
from ..lib import *


def check(rep):
    c = rep.ctx()
    J, Q, s = mat("J"), mat("Q"), sym("s")
    j, q = J.data, Q.data

    def ew(f, a, b=None):
        out = np.empty((3, 3), dtype=object)
        for i in range(3):
            for k in range(3):
                out[i, k] = f(a[i, k], b[i, k] if isinstance(b, np.ndarray) else b) if b is not None else f(a[i, k])
        return out

    def mm(a, b):
        return np.array([[sum((a[i, n] * b[n, k] for n in range(3)), N.const(0)) for k in range(3)] for i in range(3)], dtype=object)

    v = vec("w")
    cases = [
        ("p + q", j + q), ("p - q", j - q), ("q - p", q - j), ("p * s", j * s), ("s * p", j * s), ("p / s", ew(lambda x, y: x / y, j, s)),
        ("p // s", ew(lambda x, y: x // y, j, s)), ("p % s", ew(lambda x, y: x % y, j, s)),
        ("-p", ew(lambda x: -x, j)), ("+p", j), ("abs(p)", ew(abs, j)), ("p.T", j.T),
        ("p * 2", j * N.const(2)), ("2 * p", j * N.const(2)), ("p / 2", j * N.const(Fraction_(1, 2))), ("p * -1.5", j * N.const(-1.5)),
        ("p * 0", arr([[0] * 3] * 3).data), ("p * 1", j), ("p / 1", j), ("p + p", j * N.const(2)), ("p - p", arr([[0] * 3] * 3).data),
        ("p * m", ew(lambda x, y: x * y, j, q)), ("m * p", ew(lambda x, y: x * y, j, q)), ("p / m", ew(lambda x, y: x / y, j, q)),
        ("p + q * s", j + q * s), ("sum([p, q], MatrixParameter())", j + q),
    ]
    for e, want in cases:
        with rep.ob(f"{e}"):
            r = c.run(f"p = MatrixParameter(matrix=J)\nq = MatrixParameter(matrix=Q)\nr = {e}\n"
                      "ism = isinstance(r, MatrixParameter)\nrm = r.matrix if ism else r\npm = p.matrix\nqm = q.matrix\nsame = r is p or r is q",
                      J=Arr(j.copy()), Q=Arr(q.copy()), s=s, m=Arr(q.copy()))
            loc = anchor(c, "MatrixParameter.__" + {"+ ": "add", "- ": "sub", "* ": "mul", "/ ": "truediv"}.get(e[2:4], "add") + "__") if e[0] == "p" else anchor(c, "MatrixParameter")
            r.must_pass(e)
            if r["ism"] is not True and e != "m * p":
                raise Bad(f"{e} is not a MatrixParameter", loc)
            c.same(r["rm"], Arr(want), f"matrix of {e}", loc=loc)
            c.same(r["pm"], J, f"first operand after {e}", loc=loc)
            c.same(r["qm"], Q, f"second operand after {e}", loc=loc)
            if r["same"] is True:
                raise Bad(f"{e} returns one of its operands", loc)
            if shares(r["rm"], r["pm"]) or shares(r["rm"], r["qm"]):
                raise Bad(f"the result of {e} shares its matrix with an operand", loc)
            if e == "m * p":
                continue
            r2 = c.run("r.xx = 7\nr.zy = 8\npm = p.matrix\nqm = q.matrix", r=r["r"], p=r["p"], q=r["q"])
            r2.must_pass("changing the result")
            c.same(r2["pm"], J, f"first operand of {e} after changing the result", loc=loc)
            c.same(r2["qm"], Q, f"second operand of {e} after changing the result", loc=loc)
    prods = [("p @ m", mm(j, q)), ("m @ p", mm(q, j)),
             ("p @ w", np.array([sum((j[i, k] * v.data[k] for k in range(3)), N.const(0)) for i in range(3)], dtype=object)),
             ("[w[0], w[1], w[2]] @ p", np.array([sum((v.data[i] * j[i, k] for i in range(3)), N.const(0)) for k in range(3)], dtype=object)),
             ("[[m[i, k] for k in range(3)] for i in range(3)] @ p", mm(q, j)),
             ("p @ [w[0], w[1], w[2]]", np.array([sum((j[i, k] * v.data[k] for k in range(3)), N.const(0)) for i in range(3)], dtype=object)),
             ("w @ p", np.array([sum((v.data[i] * j[i, k] for i in range(3)), N.const(0)) for k in range(3)], dtype=object))]
    for e, want in prods:
        with rep.ob(e):
            r = c.run(f"p = MatrixParameter(matrix=J)\nr = {e}\npm = p.matrix", J=Arr(j.copy()), m=Arr(q.copy()), w=Arr(v.data.copy()))
            r.must_pass(e)
            c.same(r["r"], Arr(want), e, loc=anchor(c, "MatrixParameter.__matmul__" if e[0] == "p" else "MatrixParameter.__rmatmul__"))
            c.same(r["pm"], J, f"operand after {e}")
    for e in ("p + 1", "p - 1", "p + m", "p - m", "p * 'a'", "'a' * p", "p / 'a'", "p @ 'a'", "'a' @ p", "p // 'a'", "p % None", "p + None", "p * None", "p @ 2"):
        with rep.ob(f"{e} is refused"):
            r = c.run(f"p = MatrixParameter(matrix=J)\nr = {e}", J=Arr(j.copy()), m=Arr(q.copy()))
            if e in ("p + m", "p - m") and c.mag.vars["MatrixParameter"].lookup("__array_interface__") is None:
                continue
            r.must_raise(e, "TypeError")
            r = c.run(f"p = MatrixParameter(matrix=J)\ntry:\n    r = {e}\nexcept TypeError:\n    pass\nm2 = p.matrix", J=Arr(j.copy()), m=Arr(q.copy()))
            c.same(r["m2"], J, f"operand after the refused {e}")
    # comparison
    eqs = [("p == p", True), ("p == MatrixParameter(matrix=J)", True), ("p == m", "q"), ("p == q", "q"), ("p != MatrixParameter(matrix=J)", False), ("p != p", False)]
    for e, want in eqs:
        with rep.ob(e):
            r = c.run(f"p = MatrixParameter(matrix=J)\nq = MatrixParameter(matrix=Q)\nr = bool({e})", J=Arr(j.copy()), Q=Arr(q.copy()), m=Arr(q.copy()))
            r.must_pass(e)
            g = c.I.truth(r["r"])
            loc = anchor(c, "MatrixParameter.__eq__")
            if want is True and g != TRUE:
                raise Bad(f"{e} is not always true", loc)
            if want is False and feasible(g):
                raise Bad(f"{e} is not always false", loc)
            if want == "q":
                if feasible(g):
                    raise Bad(f"{e} is true for different matrices", loc)
                # it must depend on every entry
                for i, k, f in ((i, k, f) for i in range(3) for k in range(3) for f in (1, Fraction_(1, 10**6))):
                        m2 = j.copy()
                        m2[i, k] = j[i, k] + sym("other", nonzero=True) * N.const(f)
                        r = c.run(f"p = MatrixParameter(matrix=J)\nq = MatrixParameter(matrix=Q)\nr = bool({e})", J=Arr(j.copy()), Q=Arr(m2), m=Arr(m2.copy()))
                        r.must_pass(e)
                        if feasible(c.I.truth(r["r"])):
                            raise Bad(f"{e} ignores the component {'xyz'[i]}{'xyz'[k]}", loc)
    for e in ("p == 'a'", "p == [1, 2]"):
        with rep.ob(f"{e} is refused"):
            r = c.run(f"p = MatrixParameter(matrix=J)\nr = {e}", J=Arr(j.copy()))
            r.must_raise(e, "ValueError", "TypeError")
    rep.minimum = 40
