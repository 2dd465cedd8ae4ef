"""Abstract interpretation of remove_atom on a three-atom Hamiltonian with bonds of all pairs of
atoms and several classes of the cell vector, in every double-counting state, with the atom given
as object, name or full name: the dictionaries afterwards are exactly those without the terms of
the atom, no path ends in an exception, the atom list loses exactly that atom."""
from ..ham import *


def check(rep):
    c = rep.ctx()
    ef, of = sym("ef"), sym("of")
    pats = PATTERNS if rep.thorough else [(0, 0, 0), (1, 0, -1), (-1, 0, 0), (0, 0, 1), (0, -1, 1)]
    allp = [(a, b) for a in "ABC" for b in "ABC"]
    bonds = []
    for a, b in allp:
        for p in pats:
            tag = f"{a}{b}{pname(p)}"
            if p == (0, 0, 0) and a > b:
                continue
            bonds.append(Bond(a, b, cellvec(p, tag), mat("J" + tag), tag))
    spec = {"undefined": None, "off": (False, False, ef, of), "on": (True, False, ef, of), "on, normalized": (True, True, ef, of)}
    for nt, nv in spec.items():
        for onsite in ("ABC", "A", ""):
            for index in (None, {"A": 3, "B": 1, "C": 2}):
                r0 = build(c, bonds, onsite, nv, atoms="ABC", index=index, env={"SB": N.const(0)} if onsite == "A" and nt != "on, normalized" else None)
                st0 = observe(c, r0["H"])
                for a in "ABC":
                    for ref in (a, f"'{a}'", f"'{a}__{(index or ATOMS)[a]}'"):
                        with rep.ob(f"{nt}, on-site of {onsite or 'none'}, remove_atom({ref}){' other indices' if index else ''}"):
                            loc = anchor(c, "SpinHamiltonian.remove_atom")
                            q = c.run(f"H = H0.copy()\nA = H.get_atom('A')\nB = H.get_atom('B')\nC = H.get_atom('C')\nH.remove_atom({ref})\nn = [x.name for x in H.atoms]", H0=r0["H"])
                            q.must_pass(f"remove_atom({ref})")
                            c.same(q["n"], PList([(TRUE, x) for x in "ABC" if x != a]), "atoms left", loc=loc)
                            st = observe(c, q["H"])
                            want = [(Bond(k[0], k[1], st0.R[k], m, "present before"), m) for k, (g, m) in st0.ex.items() if a not in k[:2]]
                            expect_terms(c, st, want, {x: m for x, (g, m) in st0.on.items() if x != a}, f"remove_atom({ref})", loc)
                            m = c.run("m = [x.name for x in H.magnetic_atoms]", H=q["H"])
                            m.must_pass("magnetic atoms afterwards")
        for a in "ABC":
            with rep.ob(f"{nt}: remove_atom of an atom without terms"):
                r = build(c, [b for b in bonds if a not in (b.a, b.b)], [x for x in "ABC" if x != a], nv, atoms="ABC")
                s0 = observe(c, r["H"])
                q = c.run(f"H.remove_atom('{a}')\nn = [x.name for x in H.atoms]", H=r["H"])
                q.must_pass("remove_atom")
                c.same(q["n"], PList([(TRUE, x) for x in "ABC" if x != a]), "atoms left")
                want = [(Bond(k[0], k[1], s0.R[k], m, "present before"), m) for k, (g, m) in s0.ex.items()]
                expect_terms(c, observe(c, r["H"]), want, {x: m for x, (g, m) in s0.on.items()}, "remove_atom", anchor(c, "SpinHamiltonian.remove_atom"))
            with rep.ob(f"{nt}: remove_atom of an atom that has only an on-site term"):
                r = build(c, [b for b in bonds if a not in (b.a, b.b)], "ABC", nv, atoms="ABC")
                s0 = observe(c, r["H"])
                c.run(f"H.remove_atom('{a}')", H=r["H"]).must_pass("remove_atom")
                want = [(Bond(k[0], k[1], s0.R[k], m, "present before"), m) for k, (g, m) in s0.ex.items()]
                expect_terms(c, observe(c, r["H"]), want, {x: m for x, (g, m) in s0.on.items() if x != a}, "remove_atom", anchor(c, "SpinHamiltonian.remove_atom"))
            with rep.ob(f"{nt}: remove_atom of an atom that has only bonds"):
                r = build(c, bonds, [x for x in "ABC" if x != a], nv, atoms="ABC")
                s0 = observe(c, r["H"])
                c.run(f"H.remove_atom('{a}')", H=r["H"]).must_pass("remove_atom")
                want = [(Bond(k[0], k[1], s0.R[k], m, "present before"), m) for k, (g, m) in s0.ex.items() if a not in k[:2]]
                expect_terms(c, observe(c, r["H"]), want, {x: m for x, (g, m) in s0.on.items() if x != a}, "remove_atom", anchor(c, "SpinHamiltonian.remove_atom"))
            for ref in (a, f"'X__{ATOMS[a]}'"):
                with rep.ob(f"{nt}: remove_atom({ref}) among atoms of the same name"), named(A="X", B="X", C="X"):
                    r = build(c, bonds, "ABC", nv, atoms="ABC")
                    s0 = observe(c, r["H"])
                    q = c.run(f"H.remove_atom({ref})\nn = [x.index for x in H.atoms]", H=r["H"], **{a: r[a]})
                    q.must_pass("remove_atom")
                    c.same(q["n"], PList([(TRUE, ATOMS[x]) for x in "ABC" if x != a]), "atoms left")
                    want = [(Bond(k[0], k[1], s0.R[k], m, "present before"), m) for k, (g, m) in s0.ex.items() if a not in k[:2]]
                    expect_terms(c, observe(c, r["H"]), want, {x: m for x, (g, m) in s0.on.items() if x != a}, f"remove_atom({ref}) among atoms of the same name", anchor(c, "SpinHamiltonian.remove_atom"))
        with rep.ob(f"{nt}: all atoms one after another"):
            r = build(c, bonds, "ABC", nv, atoms="ABC")
            q = c.run("H.remove_atom('B')\nH.remove_atom(A)\nn = [x.name for x in H.atoms]\nH.remove_atom('C')\nm = len(H.atoms)\nl = len(H.exchange) + len(H.on_site)", H=r["H"], A=r["A"])
            q.must_pass("removing all atoms")
            c.same(q["n"], PList([(TRUE, "C")]), "atoms left")
            c.same(q["l"], 0, "terms left")
    rep.minimum = 100
