"""Value numbering of Energy.antiferro and Energy.spiral with symbolic axis, spiral vector, spins and
field: the result must be the same term as the classical energy of the rotated configuration averaged over
the cells (averages of the rotation matrices evaluated in closed form)."""
from ..en import *


def check(rep):
    c = rep.ctx()
    ef, of = sym("ef"), sym("of")
    S = {a: sym("S" + a, positive=True) for a in "ABC"}
    g = {a: sym("g" + a, positive=True) for a in "ABC"}
    full = universe(patterns=[(0, 0, 0), (1, 0, 0), (0, -1, 0), (1, -1, 0), (0, 1, 1), (-1, 0, 1)])
    three = [Bond("A", "C", (0, 0, 1), mat("J1"), "1"), Bond("C", "B", (0, -1, 1), mat("J2"), "2"), Bond("B", "B", (2, 0, 0), mat("J3"), "3"), Bond("B", "A", (0, 0, 0), mat("J4"), "4")]
    dirs = {a: [sym(f"e{a}{x}") for x in "xyz"] for a in "ABC"}
    hv, nv, qv = vec("h"), vec("n"), vec("q")
    cell = mat("cell")
    idx3 = {"A": 3, "B": 1, "C": 2}
    specs = [(dc, sn, ef, of) for dc in (True, False) for sn in (True, False)] + [(True, False, Fraction_(1, 2), 1), (False, True, -1, -1)]
    systems = [("many classes", full, "AB", "AB", None, "AB"), ("three atoms", three, "C", "ABC", idx3, "BCA"), ("one spin", [Bond("A", "A", (0, 0, 1), mat("J1"), "1")], "A", "A", None, "A"), ("only on-site", [], "AB", "AB", None, "AB")]
    axes = [("symbolic", nv), ("along z", arr([0, 0, 1])), ("along -x", arr([-2, 0, 0])), ("along y, not normalised", arr([0, 3, 0]))]
    for name, bonds, on, atoms, index, order in systems:
        for nt in specs:
            for field in (False, True):
                if not rep.thorough and name == "many classes" and nt not in (specs[1], specs[2]):
                    continue
                for an, ax in axes if rep.thorough or (name == "three atoms" and nt == specs[1]) else axes[:1]:
                    with rep.ob(f"spiral: {name}, {tuple(map(str, nt))}, axis {an}{', field' if field else ''}"):
                        loc = anchor(c, "Energy.spiral")
                        r = build(c, bonds, on, nt, atoms=atoms, index=index)
                        ts = terms(observe(c, r["H"]), nt, S)
                        # the pair and its mirror are both in the energy: symmetrise
                        want = energy("spiral", ts, dirs, list(ax.data), list(qv.data), rows(cell))
                        if field:
                            want = want + zeeman("spiral", c, order, dirs, S, g, list(hv.data), list(ax.data))
                        q = c.run("E = Energy(H)\n" + ("E.magnetic_field = h\n" if field else "") + "v = E.spiral(s, n, q)\nw = E.spiral([list(x) for x in s], list(n), tuple(q))\nu = E.spiral(s * 2, n * 7, q)", H=r["H"],
                                  h=Arr(hv.data.copy()), s=arr([dirs[a] for a in order]), n=Arr(ax.data.copy()), q=Arr(qv.data.copy()))
                        q.must_pass("spiral energy")
                        c.same(q["v"], want, "spiral energy", loc=loc)
                        c.same(q["w"], want, "spiral energy of lists", loc=loc)
                        c.same(q["u"], want, "spiral energy of scaled directions", loc=loc)
                        if len(order) == 1:
                            q = c.run("v = E.spiral(s[0], n, q)", E=q["E"], s=arr([dirs[a] for a in order]), n=Arr(ax.data.copy()), q=Arr(qv.data.copy()))
                            q.must_pass("one spin given as a vector")
                            c.same(q["v"], want, "energy of one spin given as a vector", loc=loc)
    # antiferro: 2q is a reciprocal lattice vector, cell with exactly known products
    cells = [("cubic", arr([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), 1), ("sheared", arr([[1, 0, 0], [1, 1, 0], [0, -1, 1]]), 1)]
    exact = [Bond("A", "B", (0, 0, 0), mat("J0"), "0"), Bond("A", "B", (1, 0, 0), mat("J1"), "1"), Bond("B", "A", (1, -1, 0), mat("J2"), "2"), Bond("A", "A", (0, 0, 1), mat("J3"), "3"), Bond("B", "B", (1, 1, 1), mat("J4"), "4"), Bond("A", "A", (2, 0, 1), mat("J5"), "5")]
    import itertools
    stretched = ("stretched", arr([[Fraction_(3, 2), 0, 0], [0, 1, 0], [0, 0, Fraction_(3, 4)]]), (1.5, 1, 0.75))
    for cn, cl, length in cells + [stretched]:
        for q3 in itertools.product((0, 1), repeat=3) if length == 1 else ((-1, 0, 0), (0, -3, 1), (1, 0, -1), (5, 1, -1)):
            for nt in specs[:4] if length == 1 else specs[1:3]:
                for field in (False, True):
                    for an, ax in axes if rep.thorough or (nt == specs[1] and q3 in ((1, 0, 1), (0, 1, 0))) else axes[:1]:
                        with rep.ob(f"antiferro: {cn}, q = pi*{q3}, {nt[:2]}, axis {an}{', field' if field else ''}"):
                            loc = anchor(c, "Energy.antiferro")
                            q_ = arr([N.const(math.pi * x / (1 if length == 1 else length[k])) for k, x in enumerate(q3)])
                            r = build(c, exact, "AB", nt, env={"cell": cl})
                            ts = terms(observe(c, r["H"]), nt, S)
                            want = energy("antiferro", ts, dirs, list(ax.data), list(q_.data), rows(cl))
                            if field:
                                want = want + zeeman("antiferro", c, "AB", dirs, S, g, list(hv.data), list(ax.data))
                            q = c.run("E = Energy(H)\n" + ("E.magnetic_field = h\n" if field else "") + "v = E.antiferro(s, n, q)\nu = E.antiferro(s * 2, n * 7, q)\nw = E.antiferro([list(x) for x in s], list(n), tuple(q))", H=r["H"],
                                      h=Arr(hv.data.copy()), s=arr([dirs[a] for a in "AB"]), n=Arr(ax.data.copy()), q=q_)
                            q.must_pass("antiferromagnetic energy")
                            for x in "vuw":
                                c.same(q[x], want, "antiferromagnetic energy", loc=loc)
    with rep.ob("antiferro: one spin given as a vector"):
        nt = (True, False, ef, of)
        r = build(c, [Bond("A", "A", (0, 0, 1), mat("J1"), "1")], "A", nt, atoms="A", env={"cell": cells[0][1]})
        ts = terms(observe(c, r["H"]), nt, S)
        q_ = arr([0, 0, N.const(math.pi)])
        want = energy("antiferro", ts, dirs, list(nv.data), list(q_.data), rows(cells[0][1]))
        q = c.run("E = Energy(H)\nv = E.antiferro(s, n, q)", H=r["H"], s=arr(dirs["A"]), n=Arr(nv.data.copy()), q=q_)
        q.must_pass("antiferromagnetic energy of one spin")
        c.same(q["v"], want, "antiferromagnetic energy of one spin", loc=anchor(c, "Energy.antiferro"))
    # zero spiral vector: all three agree
    with rep.ob("q = 0: the three energies of collinear states agree"):
        nt = (True, False, ef, of)
        r = build(c, three, "C", nt, atoms="ABC", index=idx3)
        # spins along the axis
        q = c.run("E = Energy(H)\nE.magnetic_field = h\ns = np.array([n, n * 2, -1 * n])\na = E.ferro(s)\nb = E.antiferro(s, n, q)\nd = E.spiral(s, n, q)", H=r["H"], h=Arr(hv.data.copy()), n=Arr(nv.data.copy()), q=Arr(qv.data.copy()))
        q.must_pass("energies")
        c.same(q["b"], q["a"], "antiferromagnetic energy of spins along the axis", loc=anchor(c, "Energy.antiferro"))
        c.same(q["d"], q["a"], "spiral energy of spins along the axis", loc=anchor(c, "Energy.spiral"))
    rep.minimum = 100
