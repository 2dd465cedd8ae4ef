"""Value numbering of Energy.ferro on Hamiltonians with bonds of every class, in every notation, with
symbolic spins, directions, factors and field: the abstract result must be the same term as the sum over
the stored terms of the original Hamiltonian."""
from ..en import *


def check(rep):
    c = rep.ctx()
    ef, of = sym("ef"), sym("of")
    S = {a: sym("S" + a, positive=True) for a in "ABC"}
    g = {a: sym("g" + a, positive=True) for a in "ABC"}
    full = universe()
    few = [b for b in full if b.tag in ("AB(0,0,0)", "AB(+,0,0)", "AA(0,0,+)", "BA(0,+,-)", "AA(0,0,0)", "AB(-,+,0)")]
    three = [Bond("A", "C", (0, 0, 1), mat("J1"), "1"), Bond("C", "B", (0, -1, 1), mat("J2"), "2"), Bond("B", "B", (2, 0, 0), mat("J3"), "3"), Bond("B", "A", (0, 0, 0), mat("J4"), "4")]
    dirs = {a: [sym(f"e{a}{x}") for x in "xyz"] for a in "ABC"}
    hv = vec("h")
    specs = [(dc, sn, ef, of) for dc in (True, False) for sn in (True, False)] + [(True, False, Fraction_(1, 2), 1), (True, True, -1, -1), (False, False, -1, 2), (True, True, Fraction_(-1, 2), -1)]
    idx3 = {"A": 3, "B": 1, "C": 2}
    systems = [("all classes", full, "AB", "AB", None, "AB"), ("few bonds", few, "A", "AB", None, "AB"), ("three atoms", three, "C", "ABC", idx3, "BCA"), ("no on-site", few, "", "AB", None, "AB"), ("only on-site", [], "AB", "AB", None, "AB"),
               ("one spin", [Bond("A", "A", (0, 0, 1), mat("J1"), "1")], "A", "A", None, "A"), ("atom without terms", three[2:3], "C", "ABC", idx3, "BC")]
    for name, bonds, on, atoms, index, order in systems:
        for nt in specs:
            if name == "all classes" and nt[2] is not ef:
                continue
            for field in (False, True):
                with rep.ob(f"{name}, notation {tuple(map(str, nt))}{', field' if field else ''}"):
                    loc = anchor(c, "Energy.ferro")
                    r = build(c, bonds, on, nt, atoms=atoms, index=index)
                    st = observe(c, r["H"])
                    ts = terms(st, nt, S)
                    want = energy("ferro", ts, dirs)
                    if field:
                        want = want + zeeman("ferro", c, order, dirs, S, g, list(hv.data))
                    sp = arr([dirs[a] for a in order])
                    q = c.run("E = Energy(H)\n" + ("E.magnetic_field = h\n" if field else "") + "v = E.ferro(s)\nw = E.ferro([list(x) for x in s])\nu = E.ferro(s * 3)", H=r["H"], h=Arr(hv.data.copy()), s=sp)
                    q.must_pass("ferromagnetic energy")
                    c.same(q["v"], want, "ferromagnetic energy", loc=loc)
                    c.same(q["w"], want, "ferromagnetic energy of a list", loc=loc)
                    c.same(q["u"], want, "ferromagnetic energy of scaled directions", loc=loc)
                    if len(order) == 1:
                        q = c.run("v = E.ferro(s[0])", E=q["E"], s=sp)
                        q.must_pass("one spin given as a vector")
                        c.same(q["v"], want, "energy of one spin given as a vector", loc=loc)
    # the factor of absent terms need not be known (text and HDF5 files leave it out)
    for name, bonds, on, src, nt in (("no on-site, its factor unknown", few, "", "H.double_counting = {dc}\nH.spin_normalized = {sn}\nH.exchange_factor = ef", (ef, of)),
                                     ("only on-site, notation of the exchange unknown", [], "AB", "H.spin_normalized = {sn}\nH.on_site_factor = of", (ef, of))):
        for dc in (True, False):
            for sn in (True, False):
                with rep.ob(f"{name}, double counting {dc}, normalized {sn}"):
                    nt = (dc, sn, ef, of)
                    r = build(c, bonds, on, None)
                    q = c.run(src.format(dc=dc, sn=sn) + "\nE = Energy(H)\nv = E.ferro(s)", H=r["H"], ef=ef, of=of, s=arr([dirs[a] for a in "AB"]))
                    q.must_pass("ferromagnetic energy")
                    c.same(q["v"], energy("ferro", terms(observe(c, r["H"]), nt, S), dirs), "ferromagnetic energy", loc=anchor(c, "Energy.ferro"))
    with rep.ob("field switched on and off"):
        nt = (True, False, ef, of)
        r = build(c, few, "A", nt)
        want = energy("ferro", terms(observe(c, r["H"]), nt, S), dirs)
        q = c.run("E = Energy(H)\nE.magnetic_field = h\nE.magnetic_field = None\nv = E.ferro(s)", H=r["H"], h=Arr(hv.data.copy()), s=arr([dirs[a] for a in "AB"]))
        q.must_pass("energy")
        c.same(q["v"], want, "energy without field after the field was on", loc=anchor(c, "Energy.ferro"))
    with rep.ob("new spins and g-factors are used"):
        nt = (True, False, ef, of)
        r = build(c, few, "A", nt)
        S2, g2 = {"A": sym("S2A"), "B": sym("S2B")}, {"A": sym("g2A"), "B": sym("g2B")}
        want = energy("ferro", terms(observe(c, r["H"]), nt, S2), dirs) + zeeman("ferro", c, "AB", dirs, S2, g2, list(hv.data))
        q = c.run("E = Energy(H)\nE.magnetic_field = h\nE.spins = [x, y]\nE.g_factors = [z, t]\nv = E.ferro(s)", H=r["H"], h=Arr(hv.data.copy()), s=arr([dirs[a] for a in "AB"]), x=S2["A"], y=S2["B"], z=g2["A"], t=g2["B"])
        q.must_pass("energy")
        c.same(q["v"], want, "energy with new spins", loc=anchor(c, "Energy.ferro"))
    with rep.ob("double counting does not matter"):
        r = build(c, few, "AB", (True, False, ef, of))
        src = "E = Energy(H)\nv = E.ferro(s)\nH.double_counting = False\nw = Energy(H).ferro(s)\nH.spin_normalized = True\nu = Energy(H).ferro(s)\nH.double_counting = True\nt = Energy(H).ferro(s)\nH.notation = 'tb2j'\nx = Energy(H).ferro(s)"
        q = c.run(src, H=r["H"], s=arr([dirs[a] for a in "AB"]))
        q.must_pass("energies")
        for n in "wutx":
            c.same(q[n], q["v"], "energy in another notation", loc=anchor(c, "Energy"))
    rep.minimum = 60
