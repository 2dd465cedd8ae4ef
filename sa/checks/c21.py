"""Value numbering of the text reader: files are strings with symbolic numbers; for every documented unit and
form the stored numbers must be the same terms as the documented conversion of the numbers in the file."""
from ..files import *

LOC = "load_spinham"


def det3(m):
    return sum((m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3)), N.const(0))


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "io.load_spinham_txt")
    raw = rows(mat("cell"))
    s, sx, sy, sz = sym("s", positive=True), sym("sx", positive=True), sym("sy", positive=True), sym("sz", positive=True)
    one = N.const(1)
    x = {a: [sym(f"x{a}{k}") for k in "123"] for a in "AB"}
    r_ = {a: [sym(f"r{a}{k}") for k in "123"] for a in "AB"}
    scales = [("no scale", None, [one] * 3), ("one scale", (s,), [s] * 3), ("three scales", (sx, sy, sz), [sx, sy, sz]), ("volume", (TStr(("-", Hole(s, ""))),), None)]
    lunits = [(None, "A"), ("Angstrom", "A"), ("Bohr", "B"), ("bohr", "B"), ("ANGSTROM", "A"), ("a", "A"), ("B", "B")]
    aunits = [(None, "A"), ("Angstrom", "A"), ("Bohr", "B"), ("b", "B"), ("angstrom", "A")]
    # ---------------------------------------------------------- cell and atoms
    for (cu, cf), (sn, sc, fac), (au, af) in itertools.product(lunits, scales, aunits):
        if not rep.thorough and cu not in (None, "Bohr", "ANGSTROM") and (sn != "one scale" or au not in (None, "Bohr")):
            continue
        if sn == "volume" and cf == "B":
            continue
        with rep.ob(f"cell in {cu or 'default units'}, {sn}, positions in {au or 'default units'}"):
            lines = cellsec(cu, sc) + [SEP, "atoms" + (f" {au}" if au else ""), "x name z y r3 r2 r1", (x["A"][0], "A", x["A"][2], x["A"][1], "-", "-", "-"), ("-", "B", "-", "-", r_["B"][2], r_["B"][1], r_["B"][0]), SEP]
            r = load(c, lines)
            r.must_pass("reading the file")
            cell, atoms = content(c, r)
            f = length_factor(c, cf)
            k = fac
            if k is None:
                d = det3([[y * f for y in row] for row in raw])
                k = [s / N.sqrt(d * d)] * 3
            want = [[raw[i][j] * f * k[j] for j in range(3)] for i in range(3)]
            c.same(generic(c.I, cell), arr(want), f"cell given in {cu or 'default units'} with {sn}", loc=loc)
            if [a[0] for a in atoms] != ["A", "B"]:
                raise Bad(f"atoms are {[a[0] for a in atoms]}", loc)
            fa = length_factor(c, af)
            c.same(generic(c.I, atoms[0][2]), arr([x["A"][j] * k[j] * fa for j in range(3)]), f"absolute position in {au or 'default units'}, {sn}", loc=loc)
            c.same(generic(c.I, atoms[1][1]), arr(r_["B"]), "relative position", loc=loc)
    for au in (None, "Relative", "relative", "Angstrom", "Bohr", "r"):
        with rep.ob(f"relative positions win over absolute ones (atoms in {au})"):
            lines = cellsec("Bohr", (s,)) + [SEP, "ATOMS" + (f" {au}" if au else ""), "r1 x r2 y r3 z NAME", (r_["A"][0], x["A"][0], r_["A"][1], x["A"][1], r_["A"][2], x["A"][2], "A"), SEP]
            r = load(c, lines)
            r.must_pass("reading the file")
            cell, atoms = content(c, r)
            c.same(generic(c.I, atoms[0][1]), arr(r_["A"]), "position", loc=loc)
    # ---------------------------------------------------------- spins, g-factors, charges
    rad = N.const(math.pi) / 180
    S3 = [sym("p1"), sym("p2"), sym("p3")]
    St, Sp, Sv = sym("theta"), sym("phi"), sym("S")
    ang = [Sv * N.sin(St * rad) * N.cos(Sp * rad), Sv * N.sin(St * rad) * N.sin(Sp * rad), Sv * N.cos(St * rad)]
    Z = [N.const(0)] * 3
    g, q = sym("g"), sym("charge")
    forms = [("no spin", (), (), Z), ("vector", ("Sx", "Sy", "Sz"), S3, S3), ("vector, another order", ("sz", "SX", "sY"), (S3[2], S3[0], S3[1]), S3),
             ("angles", ("sp", "st", "s"), (Sp, St, Sv), ang), ("angles, another order", ("S", "St", "Sp"), (Sv, St, Sp), ang), ("value", ("s",), (Sv,), [N.const(0), N.const(0), Sv]),
             ("vector and angles", ("sx", "sp", "sy", "st", "sz", "s"), (S3[0], Sp, S3[1], St, S3[2], Sv), S3),
             ("vector missing, angles present", ("sx", "sp", "sy", "st", "sz", "s"), ("-", Sp, "-", St, "-", Sv), ang),
             ("vector and angles missing, value present", ("sx", "sp", "sy", "st", "sz", "s"), ("-", "-", "-", "-", "-", Sv), [N.const(0), N.const(0), Sv]),
             ("all missing", ("sx", "sy", "sz"), ("-", "-", "-"), Z), ("orbital moment is not a spin", ("lx", "ly", "lz", "jx", "jy", "jz"), S3 + S3, Z)]
    for name, keys, vals, want in forms:
        for ex, ek, ev, wg, wq in (("", (), (), N.const(2), N.const(0)), (" with g-factor and charge", ("g", "Q"), (g, q), g, q), (" without g-factor, with charge", ("g", "q"), ("-", q), N.const(2), q), (" with an unknown column", ("comment", "G"), (sym("comment"), g), g, N.const(0))):
            with rep.ob(f"spin: {name}{ex}"):
                lines = cellsec() + [SEP, "Atoms", ("r1", "r2", "r3", "name") + ek + keys, tuple(r_["A"]) + ("A",) + tuple(ev) + tuple(vals), SEP]
                r = load(c, lines)
                r.must_pass("reading the file")
                cell, atoms = content(c, r)
                a = atoms[0]
                c.same(generic(c.I, a[3]), arr(want), f"spin given as {name}{ex}", loc=loc)
                c.same(generic(c.I, a[4]), wg, f"g-factor ({name}{ex})", loc=loc)
                c.same(generic(c.I, a[5]), wq, f"charge ({name}{ex})", loc=loc)
    # ---------------------------------------------------------- exchange and on-site
    J, K_ = rows(mat("J")), [sym(f"K{i}") for i in range(6)]
    iso, dmi, sy_ = sym("iso"), [sym("dx"), sym("dy"), sym("dz")], [sym(f"a{i}") for i in range(5)]
    zero = [[N.const(0)] * 3 for _ in range(3)]
    eye = lambda f: [[f if i == j else N.const(0) for j in range(3)] for i in range(3)]
    tr3 = lambda m: (m[0][0] + m[1][1] + m[2][2]) / 3
    D = [[N.const(0), dmi[2], -dmi[1]], [-dmi[2], N.const(0), dmi[0]], [dmi[1], -dmi[0], N.const(0)]]
    SA = [[sy_[0], sy_[2], sy_[3]], [sy_[2], sy_[1], sy_[4]], [sy_[3], sy_[4], -sy_[0] - sy_[1]]]

    def combined(parts):
        m = J if "m" in parts else zero
        mt = [list(t) for t in zip(*m)]
        half = N.const(Fraction_(1, 2))
        isop = eye(tr3(m)) if "i" not in parts else eye(iso)
        anti = msc(madd(m, msc(mt, -1)), half) if "d" not in parts else D
        symm = madd(msc(madd(m, mt), half), msc(eye(tr3(m)), -1)) if "s" not in parts else SA
        return madd(isop, anti, symm)
    words = {"m": [("Matrix",), tuple(J[0]), tuple(J[1]), tuple(J[2])], "i": [("Isotropic", iso)], "d": [("DMI", *dmi)], "s": [("Symmetric-anisotropy", *sy_)]}
    units = [(None, "meV"), ("meV", "meV"), ("mev", "meV"), ("milli-electron-Volt", "meV"), ("eV", "eV"), ("electron-Volt", "eV"), ("E", "eV"), ("J", "J"), ("Joule", "J"), ("K", "K"), ("kelvin", "K"), ("Ry", "Ry"), ("Rydberg", "Ry"), ("r", "Ry")]
    onmat = lambda k: [[K_[0], K_[3], K_[4]], [K_[3], K_[1], K_[5]], [K_[4], K_[5], K_[2]]]

    def terms_file(eu, ou, parts, order="mids"):
        lines = cellsec("Bohr") + ATOMSEC + NOTSEC
        if parts:
            lines += [SEP, "Exchange" + (f" {eu}" if eu else ""), SUB, ("A", "B", 1, 0, -1)]
            for p in order:
                if p in parts:
                    lines += words[p]
            lines += [SUB, ("B", "B", 0, 2, 0), ("ISO", iso), SUB]
        if ou != "absent":
            lines += [SEP, "On-site" + (f" {ou}" if ou else ""), SUB, "A", tuple(K_), SUB, "B", tuple(K_[::-1]), SUB]
        return lines + [SEP]

    def verify(lines, eu_f, ou_f, parts, what):
        r = load(c, lines)
        r.must_pass(what)
        st = observe(c, r["H"])
        fe, fo = energy_factor(c, eu_f), energy_factor(c, ou_f)
        bonds = []
        if parts:
            bonds = [(Bond("A", "B", (1, 0, -1), None, "1"), arr(msc(combined(parts), fe))), (Bond("B", "B", (0, 2, 0), None, "2"), arr(msc(eye(iso), fe)))]
        on = {}
        if ou_f != "absent" and lines_has(lines, "On-site"):
            k = K_[::-1]
            on = {"A": arr(msc(onmat(0), fo)), "B": arr(msc([[k[0], k[3], k[4]], [k[3], k[1], k[5]], [k[4], k[5], k[2]]], fo))}
        expect_terms(c, st, bonds, on, what, loc)
        n = c.run("d = H.double_counting\ns = H.spin_normalized\n" + ("e = H.exchange_factor\n" if True else "") + "o = H.on_site_factor", H=r["H"])
        n.must_pass("notation")
        c.same((n["d"], n["s"], n["e"], n["o"]), NOT, f"{what}: notation", loc=loc)

    def lines_has(lines, w):
        return any(isinstance(x, str) and x.startswith(w) for x in lines)
    for eu, ef in units:
        with rep.ob(f"exchange in {eu or 'default units'}, matrix"):
            verify(terms_file(eu, "absent", "m"), ef, "meV", "m", f"exchange in {eu or 'default units'}")
        with rep.ob(f"exchange in {eu or 'default units'}, parts"):
            verify(terms_file(eu, "absent", "ids"), ef, "meV", "ids", f"exchange parts in {eu or 'default units'}")
        with rep.ob(f"on-site in {eu or 'default units'}"):
            verify(terms_file(None, eu, ""), "meV", ef, "", f"on-site in {eu or 'default units'}")
    for (eu, ef), (ou, of_) in itertools.product([(None, "meV"), ("K", "K"), ("Joule", "J"), ("Ry", "Ry"), ("eV", "eV")], repeat=2):
        with rep.ob(f"exchange in {eu or 'default units'}, on-site in {ou or 'default units'}"):
            verify(terms_file(eu, ou, "m"), ef, of_, "m", f"exchange in {eu or 'default units'}, on-site in {ou or 'default units'}")
    for n in range(1, 5):
        for parts in itertools.combinations("mids", n):
            for order in ("mids", "sdim"):
                with rep.ob(f"parts {''.join(parts)} of the exchange, order {order}"):
                    verify(terms_file("K", "Ry", "".join(parts), order), "K", "Ry", "".join(parts), f"exchange given by {parts}")
    # keywords are recognised by their first letter; cell vectors may be negative; separators may repeat
    short = {"m": [("m",), tuple(J[0]), tuple(J[1]), tuple(J[2])], "i": [("i", iso)], "d": [("d", *dmi)], "s": [("s", *sy_)]}
    upper = {"m": [("MAT",), tuple(J[0]), tuple(J[1]), tuple(J[2])], "i": [("I", iso)], "d": [("D", *dmi)], "s": [("SYMM", *sy_)]}
    RS = [("A", "A", (-1, 0, 0)), ("A", "B", (0, 0, 0)), ("B", "A", (0, -2, 3)), ("B", "B", (-1, -1, -1)), ("A", "B", (10, -11, 12)), ("A", "A", (0, 2, 0)), ("B", "A", (0, 0, 0))]
    for wn, w in (("first letters", short), ("capital letters", upper)):
        for parts in ("m", "i", "d", "s", "ids", "ms"):
            for sep in ([SUB], [SUB, SUB], [SUB, "-" * 10, "-" * 40]):
                with rep.ob(f"exchange by {parts} as {wn}, {len(sep)} separators, cell vectors of every kind"):
                    lines = cellsec("Bohr") + ATOMSEC + NOTSEC + [SEP, SEP, "exchange"]
                    for a, b, R in RS:
                        lines += sep + [(a, b, *R)]
                        for p in parts:
                            lines += w[p]
                    lines += sep + [SEP, "On-site"] + sep + ["B", tuple(K_)] + sep + ["A", tuple(K_[::-1])] + sep + [SEP, SEP]
                    r = load(c, lines)
                    r.must_pass("reading the file")
                    m = arr(msc(combined(parts), energy_factor(c, "meV")))
                    k, f = K_[::-1], energy_factor(c, "meV")
                    expect_terms(c, observe(c, r["H"]), [(Bond(a, b, R, None, "1"), m) for a, b, R in RS], {"B": arr(msc(onmat(0), f)), "A": arr(msc([[k[0], k[3], k[4]], [k[3], k[1], k[5]], [k[4], k[5], k[2]]], f))}, f"exchange by {parts} as {wn}", loc)
    # ---------------------------------------------------------- cone axis and spiral vector
    v = [sym("n1"), sym("n2"), sym("n3")]
    al, be = sym("alpha"), sym("beta")
    for cu, cf in ((None, "A"), ("Bohr", "B"), ("b", "B"), ("BOHRS", "B"), ("A", "A")):
        cellv = [[y * length_factor(c, cf) for y in row] for row in raw]
        for u in (None, "relative", "Relative", "R", "absolute", "Absolute", "a", "ABS"):
            absol = u is not None and u.lower().startswith("a")
            if cu not in (None, "Bohr") and u not in (None, "absolute", "Absolute"):
                continue
            with rep.ob(f"cone axis in {u or 'default'} coordinates, cell in {cu}"):
                r = load(c, cellsec(cu) + ATOMSEC + [SEP, "Cone-axis" + (f" {u}" if u else ""), tuple(v), SEP])
                r.must_pass("reading the file")
                q_ = c.run("n = H.cone_axis\nq = H.spiral_vector", H=r["H"])
                c.same(generic(c.I, q_["n"]), arr(unit(v if absol else mvec(cellv, v))), f"cone axis in {u or 'default'} coordinates", loc=loc)
                if q_["q"] is not None:
                    raise Bad("a spiral vector appears from nowhere", loc)
            with rep.ob(f"cone axis by angles with unit {u}, cell in {cu}"):
                r = load(c, cellsec(cu) + ATOMSEC + [SEP, "CONE-AXIS" + (f" {u}" if u else ""), (al, be), SEP])
                r.must_pass("reading the file")
                q_ = c.run("n = H.cone_axis", H=r["H"])
                c.same(generic(c.I, q_["n"]), arr([N.cos(be * rad) * N.sin(al * rad), N.sin(be * rad) * N.sin(al * rad), N.cos(al * rad)]), "cone axis given by angles", loc=loc)
            for sn, sc, fac in scales[:3]:
                with rep.ob(f"spiral vector in {u or 'default'} coordinates, cell in {cu}, {sn}"):
                    r = load(c, cellsec(cu, sc) + ATOMSEC + [SEP, "Spiral-Vector" + (f" {u}" if u else ""), tuple(v), SEP])
                    r.must_pass("reading the file")
                    q_ = c.run("q = np.array(H.spiral_vector)\nn = H.cone_axis\nk = q @ H.cell.T if absol else q\na = q @ H.reciprocal_cell", H=r["H"], absol=absol)
                    q_.must_pass("spiral vector")
                    if absol:
                        c.same(generic(c.I, q_["a"]), arr([y / length_factor(c, cf) for y in v]), f"spiral vector in {u} coordinates, cell in {cu}", loc=loc)
                    else:
                        c.same(generic(c.I, q_["q"]), arr(v), f"spiral vector in {u or 'default'} coordinates", loc=loc)
                    if q_["n"] is not None:
                        raise Bad("a cone axis appears from nowhere", loc)
    # ---------------------------------------------------------- layout of the file
    full = terms_file("K", "eV", "mi")
    parts = {"cell": cellsec("Bohr"), "atoms": ATOMSEC, "notation": NOTSEC, "exchange": full[full.index("Exchange K") - 1:full.index("On-site eV") - 1], "on-site": full[full.index("On-site eV") - 1:-1]}
    orders = list(itertools.permutations(parts))
    for o in orders if rep.thorough else orders[::7]:
        with rep.ob(f"sections in the order {', '.join(o)}"):
            lines = sum((parts[p] for p in o), []) + [SEP]
            verify(lines, "K", "eV", "mi", f"sections in the order {o}")

    def decorate(lines, k):
        out = ["# a comment in the first line", ""]
        for i, ln in enumerate(lines):
            t = T([ln])
            body = mkstr([str_cut(t)])
            if k == 1:
                out += ["   ", "#  Exchange Joule", mkstr([body, "   # = - comment"])]
            elif k == 2:
                out += [mkstr(["  \t", body, "  "]), ""]
            elif k == 4:
                out += [mkstr([body, "#comment" if i % 2 else "# 1 2 3"])]
            else:
                out += [mkstr([body.upper() if isinstance(body, str) and body.split()[0].lower() in KEYS else body])]
        return out

    def str_cut(t):
        ps = list(t.parts) if isinstance(t, TStr) else [t]
        if isinstance(ps[-1], str) and ps[-1].endswith("\n"):
            ps[-1] = ps[-1][:-1]
        return mkstr([p for p in ps if p != ""])
    KEYS = ("cell", "atoms", "notation", "exchange", "on-site", "matrix", "double-counting", "spin-normalized")
    for k, what in ((1, "comments"), (2, "blank lines and spaces"), (3, "capital letters"), (4, "comments right after the data")):
        with rep.ob(f"file with {what}"):
            verify_lines = decorate(full, k)
            r = load(c, verify_lines)
            r.must_pass(f"file with {what}")
            base = load(c, full)
            base.must_pass("file")
            Snapshot(c, base["H"]).compare(Snapshot(c, r["H"]), f"file with {what}", loc)
    words_ = [("true", True), ("True", True), ("t", True), ("yes", True), ("1", True), ("Y", True), ("false", False), ("FALSE", False), ("no", False), ("0", False), ("f", False), ("N", False)]
    for w1, b1 in words_:
        for w2, b2 in (("true", True), ("false", False)):
            with rep.ob(f"notation: double counting {w1}, normalisation {w2}"):
                nt = [SEP, "Notation", f"Double-counting {w1}", ("On-site-factor", sym("of")), f"Spin-normalized {w2}", ("Exchange-factor", sym("ef"))]
                r = load(c, cellsec() + ATOMSEC + nt + parts["exchange"] + parts["on-site"] + [SEP])
                r.must_pass("reading the file")
                n = c.run("n = (H.double_counting, H.spin_normalized, H.exchange_factor, H.on_site_factor)", H=r["H"])
                n.must_pass("notation")
                c.same(n["n"], (b1, b2, sym("ef"), sym("of")), f"notation with double-counting {w1}, spin-normalized {w2}", loc=loc)
    rep.minimum = 150
