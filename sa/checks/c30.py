"""Value numbering of the TB2J reader on files with symbolic fields: every field must arrive in its own place."""
from ..files import *

MAJOR, MINOR = "=" * 90, "-" * 88
TOP = [MAJOR, "Information: ", "Exchange parameters generated by TB2J.", MAJOR]
# names, which lattice sites have charge / magnetic moment
NAMES = ["Cr1", "Br2", "Cr10"]


def text(bonds, atoms=("cm", "cm", "cm"), cell=None, NAMES=NAMES, dist=None):
    m = cell if cell is not None else mat("cell")
    out = TOP + ["Cell (Angstrom):"] + [tuple(TStr((Hole(x, ".4f"),)) for x in m.data[i]) for i in range(3)] + [MAJOR, "Atoms: "]
    out += ["(Note: charge and magmoms only count the wannier functions.)", "Atom_number    x      y       z      w_charge   M(x)   M(y)   M(z)"]
    for i, (n, k) in enumerate(zip(NAMES, atoms)):
        row = [n] + [sym(f"x{i}{a}") for a in "xyz"]
        if "c" in k:
            row.append(sym(f"charge{i}"))
        if "m" in k:
            row += [sym(f"m{i}{a}") for a in "xyz"]
        out.append(tuple(row))
    out += [("Total", sym("total")), MAJOR, "Exchange: ", "    i      j          R          J_iso(meV)          vector          distance(A) "]
    for k, (i, j, R, parts) in enumerate(bonds):
        out.append(MINOR)
        out.append(("  ", NAMES[i], NAMES[j], f"({R[0]:3d}, {R[1]:3d}, {R[2]:3d})", sym(f"seen{k}"), "(", sym(f"vx{k}"), ",", sym(f"vy{k}"), ",", sym(f"vz{k}"), ")", sym(f"dist{k}") if dist is None else dist[k]))
        if "i" in parts:
            out.append(("J_iso: ", sym(f"iso{k}")))
        if "t" in parts:
            out.append(("[Testing!] Jprime: ", sym(f"prime{k}"), ",  B: ", sym(f"b{k}")))
        if "d" in parts:
            out.append(("[Testing!] DMI: (", sym(f"dx{k}"), sym(f"dy{k}"), sym(f"dz{k}"), ")"))
        if "a" in parts:
            A = symmat(f"a{k}_")
            out.append("[Testing!]J_ani:")
            out += [("[[" if r == 0 else " [", A.data[r][0], A.data[r][1], A.data[r][2], "]]" if r == 2 else "]") for r in range(3)]
    return out


def expected(bonds, NAMES=NAMES):
    out = []
    for k, (i, j, R, parts) in enumerate(bonds):
        m = [[N.const(0)] * 3 for _ in range(3)]
        add = lambda r, s, v: m[r].__setitem__(s, m[r][s] + v)
        if "i" in parts:
            for r in range(3):
                add(r, r, sym(f"iso{k}"))
        if "a" in parts:
            A = symmat(f"a{k}_")
            for r in range(3):
                for s in range(3):
                    add(r, s, A.data[r][s])
        if "d" in parts:
            d = {a: sym(f"d{a}{k}") for a in "xyz"}
            add(0, 1, d["z"]), add(1, 0, -d["z"]), add(0, 2, -d["y"]), add(2, 0, d["y"]), add(1, 2, d["x"]), add(2, 1, -d["x"])
        out.append((Bond(NAMES[i], NAMES[j], R, None, str(k)), arr(m)))
        out.append((Bond(NAMES[j], NAMES[i], tuple(-x for x in R), None, f"{k} reversed"), arr([[m[s][r] for s in range(3)] for r in range(3)])))
    return out


def inverse_times(c, p, m):
    return c.run("res = np.linalg.inv(np.array(m_).T) @ np.array(p_)", m_=m, p_=p)["res"]


BONDS = [("one bond, everything", [(0, 2, (1, 0, -2), "iad")]), ("isotropic after everything", [(0, 2, (1, 0, -2), "itda"), (2, 2, (0, 0, 1), "i"), (0, 0, (10, -1, 0), "it")]),
         ("DMI after anisotropy", [(0, 2, (1, 0, -2), "ia"), (2, 0, (0, 0, 1), "id"), (0, 0, (10, -1, 0), "ida")]), ("anisotropy after DMI", [(0, 2, (0, 0, 0), "id"), (2, 2, (0, -1, 1), "ia"), (0, 2, (0, 0, 1), "i")]),
         ("no isotropic value", [(0, 2, (0, 0, 0), "iad"), (2, 2, (0, -1, 1), "d"), (0, 2, (0, 0, 1), "a")])]


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "io.load_tb2j")
    for title, bonds in BONDS:
        for ext in ("", ", quiet=False"):
            with rep.ob(f"{title}{ext}"):
                r = load(c, text(bonds), ext, name="exchange.out")
                r.must_pass("reading a TB2J file")
                cell, atoms = content(c, r)
                c.same(generic(c.I, cell), mat("cell"), "cell", loc=loc)
                if [a[0] for a in atoms] != NAMES:
                    raise Bad(f"atoms are {[a[0] for a in atoms]}", loc)
                for i, a in enumerate(atoms):
                    c.same(generic(c.I, a[2]), vec(f"x{i}"), f"absolute position of {NAMES[i]}", loc=loc)
                    c.same(generic(c.I, a[5]), sym(f"charge{i}"), f"charge of {NAMES[i]}", loc=loc)
                q = c.run("mm_ = [np.array(a.magmom) for a in H.atoms]\nidx = [a.index for a in H.atoms]\nn_ = H.notation", H=r["H"])
                q.must_pass("reading the atoms")
                for i, a in enumerate([x for g, x in q["mm_"].el]):
                    c.same(generic(c.I, a), vec(f"m{i}"), f"magnetic moment of {NAMES[i]}", loc=loc)
                if len({x for g, x in q["idx"].el}) != 3:
                    raise Bad("atoms do not have distinct indices", loc)
                t = c.run("G = SpinHamiltonian(notation='tb2j')\nn_ = G.notation")
                c.same(q["n_"], t["n_"], "notation is the one of TB2J", loc=loc)
                st = observe(c, r["H"])
                expect_terms(c, st, expected(bonds), {}, f"terms ({title})", loc)
    ATT = """
mm_ = []
ch_ = []
for a in H.atoms:
    try:
        mm_.append(np.array(a.magmom))
    except ValueError:
        mm_.append(None)
    try:
        ch_.append(a.charge)
    except ValueError:
        ch_.append(None)
"""
    for kinds in (("cm", "c", ""), ("", "cm", "c"), ("c", "", "cm")):
        with rep.ob(f"columns of charge and moment missing: {kinds}"):
            bonds = BONDS[0][1]
            r = load(c, text(bonds, kinds), name="exchange.out")
            r.must_pass("reading a TB2J file")
            q = c.run(ATT, H=r["H"])
            q.must_pass("reading the atoms")
            for i, (k, (g, m), (g2, x)) in enumerate(zip(kinds, q["mm_"].el, q["ch_"].el)):
                m, x = generic(c.I, m), generic(c.I, x)
                for w, v, want, what in (("m", m, vec(f"m{i}"), "magnetic moment"), ("c", x, sym(f"charge{i}"), "charge")):
                    if w in k:
                        c.same(v, want, f"{what} of {NAMES[i]}", loc=loc)
                    elif w == "m" and v is not None:
                        c.same(v, arr([N.const(0)] * 3), f"{what} of {NAMES[i]}: the file gives none", loc=loc)
                    elif v is not None:
                        raise Bad(f"{what} of {NAMES[i]} is {v}, the file gives none", loc)
            expect_terms(c, observe(c, r["H"]), expected(bonds), {}, "terms", loc)
    many = [f"X{i}" for i in range(14)]
    with rep.ob("fourteen atoms"):
        bonds = [(13, 10, (1, 0, -2), "iad"), (9, 11, (0, 0, 0), "id"), (12, 12, (0, 3, 0), "i")]
        r = load(c, text(bonds, ("cm",) * 14, NAMES=many), name="exchange.out")
        r.must_pass("reading a TB2J file")
        cell, atoms = content(c, r)
        if [a[0] for a in atoms] != many:
            raise Bad(f"atoms are {[a[0] for a in atoms]}", loc)
        for i, a in enumerate(atoms):
            c.same(generic(c.I, a[2]), vec(f"x{i}"), f"absolute position of {many[i]}", loc=loc)
            c.same(generic(c.I, a[5]), sym(f"charge{i}"), f"charge of {many[i]}", loc=loc)
        expect_terms(c, observe(c, r["H"]), expected(bonds, many), {}, "terms", loc)
    for quiet in ("", ", quiet=True", ", quiet=False"):
        for dist, differs in (("5.0", 0), ("4.9995", 0), ("5.1", 1), ("4.9", 1), ("0.0", 1)):
            with rep.ob(f"distance in the file {dist}, in the model 5{quiet}"):
                lines = text([(0, 1, (1, 0, 0), "i")], cell=arr([[N.const(x) for x in r] for r in ((3, 0, 0), (0, 3, 0), (0, 0, 10))]), dist=[dist])
                for i, x in enumerate(lines):
                    if isinstance(x, tuple) and x[0] in NAMES:
                        lines[i] = (x[0], *{"Cr1": ("0.0", "0.0", "0.0"), "Br2": ("0.0", "0.0", "4.0"), "Cr10": ("1.0", "1.0", "1.0")}[x[0]]) + x[4:]
                del c.I.stdout[:]
                load(c, lines, quiet, name="exchange.out").must_pass("reading a TB2J file")
                said = [a for g, a in c.I.stdout if feasible(g)]
                if bool(said) != (bool(differs) and "False" in quiet):
                    raise Bad(f"distance {dist} in the file, 5 in the model: {'a' if said else 'no'} message is printed{' although quiet' if said and differs else ''}", loc)
    with rep.ob("expected Bravais type"):
        bonds = BONDS[1][1]
        r = load(c, text(bonds), ", bravais_type='TRI'", name="exchange.out")
        r.must_pass("reading with the Bravais type of the lattice (model of wulfric: always triclinic)")
        expect_terms(c, observe(c, r["H"]), expected(bonds), {}, "terms", loc)
        load(c, text(bonds), ", bravais_type='CUB'", name="exchange.out").must_raise("Bravais type that can not be reached", "ValueError")
    # both directions of the same bond, as TB2J writes them
    with rep.ob("both directions of a bond are listed"):
        bonds = [(0, 2, (1, 0, -2), "id"), (2, 2, (0, 0, 1), "i")]
        lines = text(bonds)
        k = max(i for i, x in enumerate(lines) if x == MINOR)
        d = [sym(f"d{a}0") for a in "xyz"]
        extra = [MINOR, ("  ", NAMES[2], NAMES[0], "( -1,   0,   2)", sym("seen9"), "(", sym("v9x"), ",", sym("v9y"), ",", sym("v9z"), ")", sym("dist9")), ("J_iso: ", sym("iso0")),
                 ("[Testing!] DMI: (", -d[0], -d[1], -d[2], ")")]
        r = load(c, lines[:k] + extra + lines[k:], name="exchange.out")
        r.must_pass("reading a TB2J file")
        expect_terms(c, observe(c, r["H"]), expected(bonds), {}, "terms", loc)
    rep.minimum = 6
