"""Value numbering of the HDF5 reader on files with symbolic contents (model of h5py): every documented unit
of every group must give the documented conversion, every other unit must be rejected."""
from ..files import *

WRITE = '''
import h5py
def put(group, name, value, units=None):
    d = group.create_dataset(name, data=value)
    if units is not None:
        d.attrs["units"] = units

with h5py.File(fname, "w") as f:
    g = f.create_group("some/where")
    g.attrs["type"] = "SpinHamiltonian"
    cg = g.create_group("cell")
    cg.attrs["units"] = cu
    for i in range(3):
        cg.create_dataset("a" + str(i + 1), data=raw[i])
    ag = g.create_group("atoms")
    for i in range(len(names)):
        a = ag.create_group(str(i + 1))
        a.create_dataset("name", data=names[i])
        a.create_dataset("position", data=pos[i])
        a.create_dataset("spin", data=spin[i])
        a.create_dataset("g-factor", data=gf[i])
        a.create_dataset("charge", data=ch[i])
    ng = g.create_group("notation")
    ng.create_dataset("double-counting", data=0)
    ng.create_dataset("spin-normalized", data=1)
    ng.create_dataset("exchange-factor", data=ef)
    ng.create_dataset("on-site-factor", data=of)
    if eu is not None:
        eg = g.create_group("exchange")
        eg.attrs["units"] = eu
        for i in range(len(bonds)):
            b = eg.create_group(str(i + 1))
            b.create_dataset("atom-1", data=bonds[i][0])
            b.create_dataset("atom-2", data=bonds[i][1])
            b.create_dataset("ijk", data=np.array(bonds[i][2], dtype=int))
            b.create_dataset("matrix", data=J[i])
    if ou is not None:
        og = g.create_group("on-site")
        og.attrs["units"] = ou
        for i in range(len(names)):
            b = og.create_group(str(i + 1))
            b.create_dataset("atom", data=names[i])
            b.create_dataset("matrix", data=K[i])
    if qu is not None:
        put(g, "spiral-vector", q, qu)
    if nu is not None:
        put(g, "cone-axis", n, nu)
'''
NAMES = [f"M{i}" for i in range(1, 12)]
BONDS = [("M1", "M2", (1, 0, -1)), ("M11", "M10", (0, 1, 0)), ("M2", "M2", (0, 0, 2)), ("M3", "M1", (0, 0, 0))]


def h5(c, n=11, cu="Angstrom", eu=None, ou=None, qu=None, nu=None, call="io.load_spinham('m.hdf5')"):
    p = lambda xs: PList([(TRUE, x) for x in xs])
    env = {"raw": mat("cell"), "names": p(NAMES[:n]), "pos": p([vec(f"p{i}_") for i in range(n)]), "spin": p([vec(f"s{i}_") for i in range(n)]),
           "gf": p([sym(f"g{i}", positive=True) for i in range(n)]), "ch": p([sym(f"c{i}") for i in range(n)]), "ef": sym("ef"), "of": sym("of"),
           "bonds": p([(a, b, r) for a, b, r in BONDS if int(a[1:]) <= n and int(b[1:]) <= n]), "J": p([mat(f"J{i}") for i in range(len(BONDS))]),
           "K": p([symmat(f"K{i}") for i in range(n)]), "cu": cu, "eu": eu, "ou": ou, "qu": qu, "nu": nu, "q": vec("q"), "n": vec("n"), "fname": "m.hdf5"}
    w = c.run(WRITE, **env)
    w.must_pass("writing the file (model of h5py)")
    return c.run(f"from magnopy import io\nH = {call}")


EUNITS = [("milli-electron-Volt", "meV"), ("Milli-Electron-Volt", "meV"), ("electron-Volt", "eV"), ("ELECTRON-VOLT", "eV"), ("Joule", "J"), ("joule", "J"), ("Kelvin", "K"), ("kelvin", "K"), ("Rydberg", "Ry"), ("rydberg", "Ry")]


def verify(c, r, n, cf, eu_f, ou_f, loc, what):
    r.must_pass(what)
    f = length_factor(c, cf)
    cell, atoms = content(c, r)
    c.same(generic(c.I, cell), arr([[y * f for y in row] for row in rows(mat("cell"))]), f"{what}: cell", loc=loc)
    if [a[0] for a in atoms] != NAMES[:n]:
        raise Bad(f"{what}: atoms are {[a[0] for a in atoms]}", loc)
    for i, a in enumerate(atoms):
        c.same(generic(c.I, a[1]), vec(f"p{i}_"), f"{what}: position of atom {i + 1}", loc=loc)
        c.same(generic(c.I, a[3]), vec(f"s{i}_"), f"{what}: spin of atom {i + 1}", loc=loc)
        c.same(generic(c.I, a[4]), sym(f"g{i}", positive=True), f"{what}: g-factor of atom {i + 1}", loc=loc)
        c.same(generic(c.I, a[5]), sym(f"c{i}"), f"{what}: charge of atom {i + 1}", loc=loc)
    st = observe(c, r["H"])
    bonds, on = [], {}
    bs = [b for b in BONDS if int(b[0][1:]) <= n and int(b[1][1:]) <= n]
    if eu_f:
        fe = energy_factor(c, eu_f)
        # bond M3-M1 in the same cell
        bonds = [(Bond(a, b, R, None, str(i)), scale(mat(f"J{i}"), fe)) for i, (a, b, R) in enumerate(bs)]
    if ou_f:
        on = {NAMES[i]: scale(symmat(f"K{i}"), energy_factor(c, ou_f)) for i in range(n)}
    expect_terms(c, st, canon(c, bonds, st), on, what, loc)
    q = c.run("e = (H.double_counting, H.spin_normalized, H.exchange_factor)" if eu_f else "e = 0", H=r["H"])
    q.must_pass("notation")
    if eu_f:
        c.same(q["e"], (False, True, sym("ef")), f"{what}: notation", loc=loc)
    q = c.run("e = (H.spin_normalized, H.on_site_factor)" if ou_f else "e = 0", H=r["H"])
    q.must_pass("notation")
    if ou_f:
        c.same(q["e"], (True, sym("of")), f"{what}: notation", loc=loc)


def canon(c, bonds, st):
    """Either of a bond and its mirror may be the one stored."""
    out = []
    for b, m in bonds:
        k = b.key(c.I)
        mirror = Bond(b.b, b.a, tuple(-x for x in b.R), None, b.tag)
        out.append((mirror, transpose(m)) if k not in st.ex and mirror.key(c.I) in st.ex else (b, m))
    return out


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "io.load_spinham_hdf5")
    for cu, cf in (("Angstrom", "A"), ("angstrom", "A"), ("ANGSTROM", "A"), ("Bohr", "B"), ("bohr", "B"), ("BOHR", "B")):
        for n in (2, 11):
            with rep.ob(f"cell in {cu}, {n} atoms"):
                verify(c, h5(c, n, cu), n, cf, None, None, loc, f"cell in {cu}")
    for eu, ef in EUNITS:
        for n in (2, 11):
            with rep.ob(f"exchange in {eu}, {n} atoms"):
                verify(c, h5(c, n, "Bohr", eu=eu), n, "B", ef, None, loc, f"exchange in {eu}")
            with rep.ob(f"on-site in {eu}, {n} atoms"):
                verify(c, h5(c, n, "Bohr", ou=eu), n, "B", None, ef, loc, f"on-site in {eu}")
    for (eu, ef), (ou, of_) in itertools.product(EUNITS[1::2], repeat=2):
        with rep.ob(f"exchange in {eu}, on-site in {ou}"):
            verify(c, h5(c, 3, "Angstrom", eu=eu, ou=ou, qu="Relative", nu="Absolute"), 3, "A", ef, of_, loc, f"exchange in {eu}, on-site in {ou}")
    for bad in ("meV", "Hartree", "", "electron", "volt", "J", "K", "Ry", "rydbergs", "milli-electron-volts"):
        with rep.ob(f"exchange in unknown units {bad!r}"):
            h5(c, 2, eu=bad).must_raise(f"exchange in {bad!r}", "ValueError")
        with rep.ob(f"on-site in unknown units {bad!r}"):
            h5(c, 2, ou=bad).must_raise(f"on-site in {bad!r}", "ValueError")
    for bad in ("nm", "Metre", "", "relative", "milli-electron-Volt", "pm"):
        with rep.ob(f"cell in unknown units {bad!r}"):
            h5(c, 2, cu=bad).must_raise(f"cell in {bad!r}", "ValueError")
    for bad in ("Angstrom", "", "rel", "abs", "Bohr", "relatively"):
        with rep.ob(f"spiral vector in unknown units {bad!r}"):
            h5(c, 2, qu=bad).must_raise(f"spiral vector in {bad!r}", "ValueError")
        with rep.ob(f"cone axis in unknown units {bad!r}"):
            h5(c, 2, nu=bad).must_raise(f"cone axis in {bad!r}", "ValueError")
    N.PLAIN |= {"cell", "n"}                            # an axis of almost no length is refused
    for cu, cf in (("Angstrom", "A"), ("Bohr", "B")):
        cellv = [[y * length_factor(c, cf) for y in row] for row in rows(mat("cell"))]
        for u in ("Relative", "relative", "RELATIVE", "Absolute", "absolute", "ABSOLUTE"):
            absol = u.lower() == "absolute"
            with rep.ob(f"cone axis, {u}, cell in {cu}"):
                r = h5(c, 2, cu, nu=u)
                r.must_pass("reading the file")
                q = c.run("n = H.cone_axis\nq = H.spiral_vector", H=r["H"])
                v = list(vec("n").data)
                c.same(generic(c.I, q["n"]), arr(unit(v if absol else mvec(cellv, v))), f"cone axis, {u}", loc=loc)
                if q["q"] is not None:
                    raise Bad("a spiral vector appears from nowhere", loc)
            if absol and cf == "B":
                continue  # the unit of an absolute spiral vector of a cell in Bohr is not specified for this format
            with rep.ob(f"spiral vector, {u}, cell in {cu}"):
                r = h5(c, 2, cu, qu=u, eu="Kelvin", ou="Rydberg")
                r.must_pass("reading the file")
                q = c.run("q = np.array(H.spiral_vector)\na = q @ H.reciprocal_cell\nn = H.cone_axis", H=r["H"])
                q.must_pass("spiral vector")
                c.same(generic(c.I, q["a" if absol else "q"]), vec("q"), f"spiral vector, {u}", loc=loc)
                if q["n"] is not None:
                    raise Bad("a cone axis appears from nowhere", loc)
    with rep.ob("group given by name"):
        verify(c, h5(c, 2, "Bohr", "Kelvin", "Joule", call="io.load_spinham('m.hdf5', groupname='some/where')"), 2, "B", "K", "J", loc, "group given by name")
    with rep.ob("unknown group"):
        h5(c, 2, call="io.load_spinham('m.hdf5', groupname='other')").must_raise("unknown group", "KeyError")
    with rep.ob("missing file"):
        c.run("from magnopy import io\nH = io.load_spinham('no.hdf5')").must_raise("missing file", "FileNotFoundError", "OSError")
    more = {"no group": ("g.attrs['type'] = 'something'", "RuntimeError"), "two groups": ("h = f.create_group('other')\n    h.attrs['type'] = 'SpinHamiltonian'", "RuntimeError")}
    for what, (src, exc) in more.items():
        with rep.ob(f"file with {what} of a Hamiltonian"):
            h5(c, 2).must_pass("file")
            c.run(f"import h5py\nwith h5py.File('m.hdf5', 'a') as f:\n    g = f['some/where']\n    {src}\nfrom magnopy import io\nH = io.load_spinham('m.hdf5')").must_raise(f"file with {what}", exc)
    for missing in ("cell", "cell/a2", "atoms", "atoms/2/name", "atoms/1/position", "notation", "notation/spin-normalized", "notation/exchange-factor", "notation/on-site-factor", "notation/double-counting", "exchange/1/atom-2", "exchange/1/matrix", "exchange/2/ijk", "on-site/1/matrix", "on-site/2/atom"):
        with rep.ob(f"file without {missing} is rejected"):
            h5(c, 3, eu="Joule", ou="Joule").must_pass("file")
            c.run(f"import h5py\nwith h5py.File('m.hdf5', 'a') as f:\n    del f['some/where/{missing}']\nfrom magnopy import io\nH = io.load_spinham('m.hdf5')").must_raise(f"file without {missing}")
    for group in ("exchange/2/atom-1", "exchange/2/atom-2", "on-site/1/atom"):
        with rep.ob(f"unknown atom in {group} is rejected"):
            h5(c, 3, eu="Joule", ou="Joule").must_pass("file")
            c.run(f"import h5py\nwith h5py.File('m.hdf5', 'a') as f:\n    del f['some/where/{group}']\n    f['some/where/{group}'] = 'Xx'\nfrom magnopy import io\nH = io.load_spinham('m.hdf5')").must_raise(f"unknown atom in {group}")
    rep.minimum = 60
