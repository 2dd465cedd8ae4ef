"""Abstract interpretation of every setter that takes a vector or matrix, over values of every wrong
shape and kind: ValueError on all paths and the previous content unchanged; for accepted values (lists,
tuples, arrays, integers) the stored array has the value number of the argument, is not aliased to it,
and the cone axis is the argument divided by its length."""
from ..ham import *

VEC_BAD = ["[1, 2]", "[1, 2, 3, 4]", "[[1, 2, 3]]", "[[1], [2], [3]]", "[]", "5", "'abc'", "['a', 'b', 'c']", "[[1, 2], [3, 4]]", "np.zeros((3, 3))", "np.zeros((3, 1))", "np.zeros((1, 3))", "np.zeros((2, 3))",
           "np.zeros(4)", "[1, 2, [3]]", "[1, 2, 'x']", "{1: 2}", "np.zeros((3, 3, 3))", "[[1, 2, 3], [4, 5, 6], [7, 8, 9]]"]
MAT_BAD = ["[1, 2, 3]", "[[1, 2, 3], [4, 5, 6]]", "[[1, 2], [3, 4], [5, 6]]", "5", "'abc'", "np.zeros(9)", "np.zeros((3, 3, 3))", "np.zeros((4, 4))", "np.zeros((3, 4))", "np.zeros((1, 3, 3))", "np.zeros((2, 3))",
           "[[1, 2, 3], [4, 5, 6], [7, 8]]", "[[1, 2, 3], [4, 5, 6], [7, 8, 'x']]", "[]", "None", "np.zeros((3, 1))", "[[1, 2, 3]]", "[[1], [2], [3]]"]
ISO_BAD = ["[1, 2, 3]", "'abc'", "None", "np.zeros((3, 3))", "[[1, 2, 3], [4, 5, 6], [7, 8, 9]]", "[1, 2]", "np.zeros(3)", "(1, 2, 3)"]


def check(rep):
    c = rep.ctx()
    ef, of = sym("ef"), sym("of")
    Jm, v3 = mat("J"), vec("w")
    r = build(c, [Bond("A", "B", (1, 0, 0), mat("J1"), "x")], "A", (True, False, ef, of))
    H = r["H"]
    c.run("H.spiral_vector = [0.25, 0.5, 0]\nH.cone_axis = [0, 0, 1]", H=H).must_pass("spiral vector and cone axis")
    e = c.run("E = Energy(H)\nE.magnetic_field = h\nE2 = Energy(H)\nH0 = SpinHamiltonian(cell=H.cell)", H=H, h=vec("h"))
    e.must_pass("energy")
    p = c.run("p = MatrixParameter(matrix=J)\np0 = MatrixParameter()", J=Arr(Jm.data.copy()))
    targets = [("p.matrix", p["p"], MAT_BAD, "MatrixParameter.matrix", "p.matrix"), ("p.aniso", p["p"], MAT_BAD, "MatrixParameter.aniso", "p.matrix"), ("p.dmi", p["p"], VEC_BAD + ["None"], "MatrixParameter.dmi", "p.matrix"),
               ("p.iso", p["p"], ISO_BAD, "MatrixParameter.iso", "p.matrix"),
               ("H.spiral_vector", H, VEC_BAD + ["None"], "SpinHamiltonian.spiral_vector", "H.spiral_vector"), ("H.cone_axis", H, VEC_BAD + ["[0, 0, 0]", "np.zeros(3)"], "SpinHamiltonian.cone_axis", "H.cone_axis"),
               ("E.magnetic_field", e["E"], VEC_BAD, "Energy.magnetic_field", "E.magnetic_field")]
    for t, obj, bads, where, rd in targets:
        loc = anchor(c, where)
        n = t[0]
        for b in bads:
            with rep.ob(f"{t} = {b} is rejected"):
                q = c.run(f"v0 = np.array({rd})", **{n: obj})
                q.must_pass("reading")
                x = c.run(f"{t} = {b}", **{n: obj})
                x.must_raise(f"{t} = {b}", "ValueError")
                q2 = c.run(f"v1 = np.array({rd})", **{n: obj})
                q2.must_pass("reading")
                c.same(q2["v1"], q["v0"], f"{rd} after the rejected {t} = {b}", loc=loc)
    # rejected when nothing was set before
    for t, obj, rd in (("H.spiral_vector", e["H0"], "H.spiral_vector"), ("H.cone_axis", e["H0"], "H.cone_axis"), ("E.magnetic_field", e["E2"], "E.magnetic_field")):
        for b in ("[1, 2]", "'abc'", "[[1, 2, 3]]"):
            with rep.ob(f"{t} = {b} is rejected when nothing is set"):
                c.run(f"{t} = {b}", **{t[0]: obj}).must_raise(f"{t} = {b}", "ValueError")
                q = c.run(f"v = {rd}", **{t[0]: obj})
                q.must_pass("reading")
                c.same(q["v"], None, f"{rd} after the rejected first value")
    for b in ("matrix=[1, 2, 3]", "matrix='a'", "dmi=[1, 2]", "dmi=[[1, 2, 3]]", "aniso=[1, 2, 3]", "aniso=[[1, 2], [3, 4]]", "iso='a'", "iso=[1, 2, 3]"):
        with rep.ob(f"MatrixParameter({b}) is rejected"):
            c.run(f"p = MatrixParameter({b})").must_raise(f"MatrixParameter({b})", "ValueError")
    # accepted values
    V = v3.data
    norm = N.sqrt(sum((x * x for x in V), N.const(0)))
    unit = Arr(np.array([x / norm for x in V], dtype=object))
    forms_v = {"array": "a", "list": "list(a)", "tuple": "tuple(a)", "list of numbers": "[a[0], a[1], a[2]]"}
    forms_m = {"array": "a", "list of rows": "[a[0], a[1], a[2]]", "list of lists": "[[a[i, j] for j in range(3)] for i in range(3)]", "tuple of tuples": "tuple(tuple(a[i, j] for j in range(3)) for i in range(3))"}
    acc = [("H.spiral_vector", H, v3, v3, forms_v, "SpinHamiltonian.spiral_vector"), ("H.cone_axis", H, v3, unit, forms_v, "SpinHamiltonian.cone_axis"), ("E.magnetic_field", e["E"], v3, v3, forms_v, "Energy.magnetic_field"),
           ("H.spiral_vector", e["H0"], v3, v3, forms_v, "SpinHamiltonian.spiral_vector"), ("H.cone_axis", e["H0"], v3, unit, forms_v, "SpinHamiltonian.cone_axis"), ("E.magnetic_field", e["E2"], v3, v3, forms_v, "Energy.magnetic_field"),
           ("p.matrix", p["p"], mat("Q"), mat("Q"), forms_m, "MatrixParameter.matrix")]
    for t, obj, val, want, forms, where in acc:
        loc = anchor(c, where)
        for fn, f in forms.items():
            with rep.ob(f"{t} accepts {fn}{' first' if obj in (e['H0'], e['E2']) else ''}"):
                a = Arr(val.data.copy())
                q = c.run(f"x = {f}\n{t} = x\nv = {t}", a=a, **{t[0]: obj})
                q.must_pass(f"{t} = {fn}")
                c.same(q["v"], want, f"{t} after setting", loc=loc)
                if shares(q["v"], a):
                    raise Bad(f"{t} is stored without a copy of the caller's array", loc)
                q2 = c.run(f"a[0] = 55\nv = {t}", a=a, **{t[0]: obj})
                q2.must_pass("changing the caller's array")
                c.same(q2["v"], want, f"{t} after the caller changed its array", loc=loc)
                c.same(Arr(val.data), Arr(val.data), "argument")
        with rep.ob(f"{t} does not change its argument"):
            a = Arr(val.data.copy())
            c.run(f"{t} = a", a=a, **{t[0]: obj}).must_pass(t)
            c.same(a, val, f"argument of {t}", loc=loc)
    # exact directions of the axis
    for ax, u in (("[0, 0, 5]", [0, 0, 1]), ("[0, -2, 0]", [0, -1, 0]), ("[3, 4, 0]", [Fraction_(3, 5), Fraction_(4, 5), 0]), ("(0, 0, -1)", [0, 0, -1]), ("[1, 2, 2]", [Fraction_(1, 3), Fraction_(2, 3), Fraction_(2, 3)]), ("[0.001, 0, 0]", [1, 0, 0]), ("[0, -1000, 0]", [0, -1, 0])):
        with rep.ob(f"cone axis {ax}"):
            q = c.run(f"H.cone_axis = {ax}\nv = H.cone_axis", H=H)
            q.must_pass("cone axis")
            c.same(q["v"], arr(u), f"cone axis {ax}", loc=anchor(c, "SpinHamiltonian.cone_axis"))
    for sv in ("[0, 0, 0]", "[1, 2, 3]", "(0.5, -0.5, 0)"):
        with rep.ob(f"spiral vector {sv}"):
            q = c.run(f"H.spiral_vector = {sv}\nv = H.spiral_vector\nw = np.array({sv}, dtype=float)", H=H)
            q.must_pass("spiral vector")
            c.same(q["v"], q["w"], f"spiral vector {sv}", loc=anchor(c, "SpinHamiltonian.spiral_vector"))
    with rep.ob("magnetic field can be taken away"):
        q = c.run("E.magnetic_field = [1, 2, 3]\nE.magnetic_field = None\nv = E.magnetic_field", E=e["E"])
        q.must_pass("no field")
        c.same(q["v"], None, "magnetic field", loc=anchor(c, "Energy.magnetic_field"))
    # spins and g-factors of the energy object
    for t in ("spins", "g_factors"):
        for b in ("[1]", "[1, 2, 3]", "5", "['a', 'b']", "[1, 'b']", "None"):
            with rep.ob(f"E.{t} = {b} is rejected"):
                q = c.run(f"v0 = list(E.{t})", E=e["E"])
                c.run(f"E.{t} = {b}", E=e["E"]).must_raise(f"E.{t} = {b}", "ValueError")
                q2 = c.run(f"v0 = list(E.{t})", E=e["E"])
                c.same(q2["v0"], q["v0"], f"E.{t} after the rejected {b}", loc=anchor(c, f"Energy.{t}"))
        with rep.ob(f"E.{t} is set"):
            q = c.run(f"l = [x, y]\nE.{t} = l\nl[0] = 5\nv = list(E.{t})", E=e["E"], x=sym("x"), y=sym("y"))
            q.must_pass(f"E.{t}")
            c.same(q["v"], PList([(TRUE, sym("x")), (TRUE, sym("y"))]), f"E.{t}", loc=anchor(c, f"Energy.{t}"))
    rep.minimum = 120
