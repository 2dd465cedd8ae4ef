"""Abstract interpretation of every way to address a term (method or bracket syntax x objects,
names and full names of the atoms x on-site and bonds of different classes) on one abstract
Hamiltonian: reads return the same stored parameter object, membership tests are exact in the
order of the atoms and the cell vector, writes and deletions produce the same dictionary, every
other key and every missing term ends in KeyError and changes nothing."""
from ..ham import *


def refs(a):
    return [a, f"'{a}'", f"'{a}__{ATOMS[a]}'"]


def check(rep):
    c = rep.ctx()
    ef, of = sym("ef"), sym("of")
    bonds = [Bond("A", "B", (0, 0, 0), mat("J0"), "AB0"), Bond("A", "B", cellvec((1, -1, 0), "r"), mat("J1"), "AB+"), Bond("A", "A", cellvec((0, 0, 1), "s"), mat("J2"), "AA+"),
             Bond("B", "A", cellvec((0, 1, -1), "t"), mat("J3"), "BA+"), Bond("A", "A", (0, 0, 0), mat("J4"), "AA0")]
    K = {"A": mat("KA")}
    spec = {"undefined": None, "off": (False, False, ef, of), "on": (True, False, ef, of)}

    def fresh(nt):
        r = build(c, bonds, "A", spec[nt])
        return r, {"H": r["H"], "A": r["A"], "B": r["B"]}

    def state(nt):
        out = [(b, b.J) for b in bonds]
        if nt == "on":
            out += [(b.mirror, b.mirror.J) for b in bonds if not b.self_mirror]
        return out
    for nt in spec:
        r, env = fresh(nt)
        st0 = observe(c, r["H"])
        with rep.ob(f"{nt}: initial state"):
            expect_terms(c, st0, state(nt), K, "adding terms", anchor(c, "SpinHamiltonian.add_exchange"))
        # reads and membership
        for b in bonds:
            env["R"] = b.R
            env["W"] = tuple(neg(x) for x in b.R)
            env["F"] = (31, 0, 0)
            for x in refs(b.a):
                for y in refs(b.b):
                    with rep.ob(f"{nt}: H[{x}, {y}, {b.R}]"):
                        q = c.run(f"p = H[{x}, {y}, R]\nm = p.matrix\nref = H._x if False else H[{b.a}, {b.b}, R]\ns = p is ref\nok = ({x}, {y}, R) in H\nl = [{x}, {y}, R] in H", **env)
                        q.must_pass("reading")
                        loc = anchor(c, "SpinHamiltonian.__getitem__")
                        c.same(q["m"], b.J, f"matrix of H[{x}, {y}, {b.R}]", loc=loc)
                        if q["s"] is not True:
                            raise Bad(f"H[{x}, {y}, R] is another object than the one stored", loc)
                        c.same(q["ok"], True, f"({x}, {y}, {b.R}) in H", loc=anchor(c, "SpinHamiltonian.__contains__"))
                        c.same(q["l"], True, f"[{x}, {y}, {b.R}] in H", loc=anchor(c, "SpinHamiltonian.__contains__"))
                        # other bonds are not there
                        rev = b.a == b.b and nt == "on" or b.self_mirror
                        q = c.run(f"v = ({y}, {x}, R) in H\nw = ({x}, {y}, W) in H\nz = ({x}, {y}, F) in H\nu = ({y}, {x}, W) in H", **env)
                        q.must_pass("membership")
                        loc = anchor(c, "SpinHamiltonian.__contains__")
                        k = lambda a_, b_, R_: (a_, b_, c.I.hkey(R_)) in st0.ex
                        c.same(q["v"], k(b.b, b.a, b.R), f"({y}, {x}, {b.R}) in H", loc=loc)
                        c.same(q["w"], k(b.a, b.b, env["W"]), f"({x}, {y}, -{b.R}) in H", loc=loc)
                        c.same(q["u"], k(b.b, b.a, env["W"]), f"({y}, {x}, -{b.R}) in H", loc=loc)
                        c.same(q["z"], False, "absent bond in H", loc=loc)
                        q = c.run(f"p = H[{x}, {y}, F]", **env)
                        q.must_raise("reading an absent bond", "KeyError")
        for x in refs("A"):
            with rep.ob(f"{nt}: on-site H[{x}]"):
                q = c.run(f"p = H[{x}]\nm = p.matrix\ns = p is H[A]\ni = {x} in H\n", **env)
                q.must_pass("reading an on-site term")
                c.same(q["m"], K["A"], f"H[{x}]", loc=anchor(c, "SpinHamiltonian.__getitem__"))
                c.same(q["i"], True, f"{x} in H", loc=anchor(c, "SpinHamiltonian.__contains__"))
        for x in refs("B"):
            with rep.ob(f"{nt}: absent on-site H[{x}]"):
                q = c.run(f"i = {x} in H", **env)
                q.must_pass("membership")
                c.same(q["i"], False, f"{x} in H", loc=anchor(c, "SpinHamiltonian.__contains__"))
                c.run(f"p = H[{x}]", **env).must_raise("reading an absent on-site term", "KeyError")
        # writes
        J2, K2 = mat("Jnew"), mat("Knew")
        target = [bonds[1], bonds[2], bonds[3], bonds[0], bonds[4], Bond("B", "B", cellvec((1, 0, 0), "n"), None, "BB new"), Bond("B", "A", cellvec((-1, 0, 0), "n2"), None, "BA new")]
        for b in target:
            for x in refs(b.a):
                for y in refs(b.b):
                    for form in ("H.add_exchange({x}, {y}, R, P)", "H[{x}, {y}, R] = P", "H.add_exchange({x}, {y}, R, matrix=J)", "H.add_exchange(atom1={x}, atom2={y}, ijk=R, parameter=P)",
                                 "H.add_exchange({x}, {y}, R)\nH[{x}, {y}, R].matrix = J"):
                        if form.endswith("= J") and nt == "on":
                            continue
                        with rep.ob(f"{nt}: {form.format(x=x, y=y)} {b.tag}"):
                            r, e = fresh(nt)
                            q = c.run("P = MatrixParameter(matrix=J)\n" + form.format(x=x, y=y), R=b.R, J=Arr(J2.data.copy()), **e)
                            q.must_pass("adding a bond")
                            want = {w.key(c.I): (w, m) for w, m in state(nt)}
                            want[b.key(c.I)] = (b, J2)
                            if nt == "on" and not b.self_mirror:
                                mb = Bond(b.b, b.a, tuple(neg(v) for v in b.R), None, "mirror")
                                want[mb.key(c.I)] = (mb, transpose(J2))
                            expect_terms(c, observe(c, e["H"]), list(want.values()), K, "adding a bond", anchor(c, "SpinHamiltonian.add_exchange"))
        for a in "AB":
            for x in refs(a):
                for form in ("H.add_on_site({x}, P)", "H[{x}] = P", "H.add_on_site({x}, matrix=J)", "H.add_on_site(atom={x}, parameter=P)"):
                    with rep.ob(f"{nt}: {form.format(x=x)}"):
                        r, e = fresh(nt)
                        q = c.run("P = MatrixParameter(matrix=J)\n" + form.format(x=x), J=Arr(K2.data.copy()), **e)
                        q.must_pass("adding an on-site term")
                        expect_terms(c, observe(c, e["H"]), state(nt), dict(K, **{a: K2}), "adding an on-site term", anchor(c, "SpinHamiltonian.add_on_site"))
        # deletions
        for b in bonds[:4]:
            for x in refs(b.a):
                for y in refs(b.b):
                    for form in ("H.remove_exchange({x}, {y}, R)", "del H[{x}, {y}, R]", "H.remove_exchange({x}, {y}, R, raise_if_no_bond=False)"):
                        with rep.ob(f"{nt}: {form.format(x=x, y=y)} {b.tag}"):
                            r, e = fresh(nt)
                            c.run(form.format(x=x, y=y), R=b.R, **e).must_pass("removing a bond")
                            gone = {b.key(c.I)} | ({b.mirror.key(c.I)} if nt == "on" else set())
                            loc = anchor(c, "SpinHamiltonian.remove_exchange")
                            want = [(w, m) for w, m in state(nt) if w.key(c.I) not in gone]
                            expect_terms(c, observe(c, e["H"]), want, K, "removing a bond", loc)
                            # a second time
                            q = c.run(form.format(x=x, y=y), R=b.R, **e)
                            if "raise" in form:
                                q.must_pass("silently removing an absent bond")
                            else:
                                q.must_raise("removing an absent bond", "KeyError")
                            expect_terms(c, observe(c, e["H"]), want, K, "removing an absent bond", loc)
        for a in "AB":
            for x in refs(a):
                for form in ("H.remove_on_site({x})", "del H[{x}]", "H.remove_on_site({x}, raise_if_no_bond=False)"):
                    with rep.ob(f"{nt}: {form.format(x=x)}"):
                        r, e = fresh(nt)
                        q = c.run(form.format(x=x), **e)
                        loc = anchor(c, "SpinHamiltonian.remove_on_site")
                        if a == "A" or "raise" in form:
                            q.must_pass("removing an on-site term")
                        else:
                            q.must_raise("removing an absent on-site term", "KeyError")
                        expect_terms(c, observe(c, e["H"]), state(nt), {} if a == "A" else K, "removing an on-site term", loc)
        # other keys
        for key in ("5", "None", "1.5", "(A, B)", "(A,)", "()", "(A, B, R, R)", "[A, B]", "True", "{1: 2}", "MatrixParameter()"):
            for form in ("v = H[{k}]", "v = {k} in H", "H[{k}] = MatrixParameter()", "del H[{k}]"):
                with rep.ob(f"{nt}: {form.format(k=key)} is refused"):
                    r, e = fresh(nt)
                    q = c.run("k = " + key + "\n" + form.format(k="k"), R=(1, 0, 0), **e)
                    q.must_raise(form.format(k=key), "KeyError")
                    expect_terms(c, observe(c, e["H"]), state(nt), K, f"after {form.format(k=key)}")
    # atoms that are not in the Hamiltonian are added together with the term
    for form, names in (("H.add_exchange(C, A, (0, 0, 1), P)", "CA"), ("H.add_exchange(A, C, (0, 0, 1), P)", "AC"), ("H[C, C, (0, 0, 1)] = P", "CC"), ("H.add_on_site(C, P)", "C"), ("H[C] = P", "C")):
        with rep.ob(f"{form} with a new atom"):
            r, e = fresh("off")
            q = c.run("C = Atom('C', position=pC, spin=SC, index=3)\nP = MatrixParameter(matrix=J)\n" + form + "\nn = [a.name for a in H.atoms]", J=Arr(J2.data.copy()), pC=vec("pC"), SC=sym("SC", positive=True), **e)
            q.must_pass("adding a term of a new atom")
            c.same(q["n"], PList([(TRUE, x) for x in "ABC"]), "atoms", loc=anchor(c, "SpinHamiltonian.add_exchange"))
            st = observe(c, e["H"])
            if len(names) == 1:
                expect_terms(c, st, state("off"), dict(K, C=J2), form)
            else:
                expect_terms(c, st, state("off") + [(Bond(names[0], names[1], (0, 0, 1), None, "new"), J2)], K, form)
    rep.minimum = 400
