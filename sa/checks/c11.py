"""Value-numbering analysis of every accessor of MatrixParameter on a fully
symbolic 3x3 matrix (9 independent symbols) and on the special shapes
(symmetric, antisymmetric, diagonal, isotropic, zero) that a branch could single
out: the gated value of each accessor must be the term that the decomposition
prescribes, so it holds for every matrix.  Rule: iso = tr/3, aniso = sym - iso,
asymm = (M - M^T)/2, dmi vector and matrix describe the same part, the parts
add up to M, every named component reads its entry, reading changes nothing."""
from ..lib import *


def shapes():
    yield "general matrix", mat("J")
    yield "symmetric matrix", symmat("Q")
    d = [sym("Dx"), sym("Dy"), sym("Dz")]
    z = N.const(0)
    yield "antisymmetric matrix", arr([[z, d[2], -d[1]], [-d[2], z, d[0]], [d[1], -d[0], z]])
    yield "diagonal matrix", arr([[sym("p"), 0, 0], [0, sym("q"), 0], [0, 0, sym("r")]])
    yield "isotropic matrix", arr([[sym("p"), 0, 0], [0, sym("p"), 0], [0, 0, sym("p")]])
    yield "zero matrix", arr([[0] * 3] * 3)
    yield "traceless matrix", arr([[sym("p"), sym("a"), sym("b")], [sym("c"), sym("q"), sym("d")],
                                   [sym("e"), sym("f"), -sym("p") - sym("q")]])
    yield "positive matrix", arr([[sym(f"m{i}{j}", positive=True) for j in range(3)] for i in range(3)])


def check(rep):
    c = rep.ctx()
    half = N.const(Fraction_(1, 2))
    third = N.const(Fraction_(1, 3))
    eye = arr(EYE).data
    for name, J in shapes():
        M_ = J.data
        S = (M_ + M_.T) * half
        A = (M_ - M_.T) * half
        iso = (M_[0, 0] + M_[1, 1] + M_[2, 2]) * third
        an = S - eye * iso
        dmi = [A[1, 2], A[2, 0], A[0, 1]]
        mod = N.sqrt(dmi[0] ** 2 + dmi[1] ** 2 + dmi[2] ** 2)
        zero = N.const(0)
        exp = {
            "matrix": M_, "symm_matrix": S, "asymm_matrix": A, "A": A, "iso": iso, "I": iso,
            "iso_matrix": eye * iso, "aniso": an, "S": an,
            "aniso_diagonal": np.array([an[0, 0], an[1, 1], an[2, 2]], dtype=object),
            "aniso_diagonal_matrix": np.array([[an[i, i] if i == j else zero for j in range(3)] for i in range(3)], dtype=object),
            "dmi": np.array(dmi, dtype=object),
            "dmi_matrix": np.array([[zero, dmi[2], -dmi[1]], [-dmi[2], zero, dmi[0]], [dmi[1], -dmi[0], zero]], dtype=object),
            "dmi_module": mod,
        }
        if not N.is_zero(iso):
            exp["rel_dmi"] = mod / N.absolute(iso)
        for i in range(3):
            for j in range(3):
                exp["xyz"[i] + "xyz"[j]] = M_[i, j]
        for how, make in (("constructor", "p = MatrixParameter(matrix=J)"), ("setter", "p = MatrixParameter()\np.matrix = J"),
                          ("nested lists", "p = MatrixParameter(matrix=[[J[i][j] for j in range(3)] for i in range(3)])")):
            if how != "constructor" and name != "general matrix":
                continue
            for attr, want in exp.items():
                with rep.ob(f"{attr} of a {name} ({how})"):
                    r = c.run(f"{make}\nv = p.{attr}\nafter = p.matrix", J=Arr(J.data.copy()))
                    loc = anchor(c, f"MatrixParameter.{attr}")
                    r.must_pass(f"reading MatrixParameter.{attr}")
                    got = r["v"]
                    if isinstance(want, np.ndarray):
                        want = Arr(want)
                    c.same(got, want, f"MatrixParameter.{attr}", loc=loc)
                    c.same(r["after"], J, f"matrix after reading MatrixParameter.{attr}", loc=loc)
            with rep.ob(f"the parts of a {name} add up ({how})"):
                r = c.run(f"{make}\nv = p.iso_matrix + p.aniso + p.dmi_matrix\nw = p.symm_matrix + p.asymm_matrix", J=Arr(J.data.copy()))
                r.must_pass("summing the parts")
                c.same(r["v"], J, "iso_matrix + aniso + dmi_matrix")
                c.same(r["w"], J, "symm_matrix + asymm_matrix")
    with rep.ob("array conversion"):
        # np.array(parameter) goes through __array_interface__ of the matrix
        cls = c.mag.vars["MatrixParameter"]
        if cls.lookup("__array_interface__") is None and cls.lookup("__array__") is None:
            raise Bad("MatrixParameter does not expose the array interface of its matrix", anchor(c, "MatrixParameter"))
    rep.minimum = 200
