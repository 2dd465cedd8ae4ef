"""Constant propagation: the value every constant has after the module bodies are evaluated, the factor every reader and
writer applies for every unit, and the meaning of every unit name, against independent values of the constants."""
from .c23 import *
from . import c29, c30

TOL = 3e-9
# CODATA values (the revisions since 2018 agree within TOL)
E_, K_, H_, C_ = 1.602176634e-19, 1.380649e-23, 6.62607015e-34, 299792458.0
A0, MUB, RINF = 5.29177210903e-11, 9.2740100783e-24, 10973731.568160
MEV = 1e-3 * E_
SI_ = {"ANGSTROM": 1e-10, "ELECTRON_VOLT": E_, "SECOND": 1.0, "KELVIN": 1.0, "TESLA": 1.0, "K_BOLTZMANN": K_, "BOHR_RADIUS": A0, "BOHR_MAGNETON": MUB, "PLANK_CONSTANT": H_, "SPEED_OF_LIGHT": C_,
       "RYDBERG_CONSTANT": RINF, "RYDBERG_ENERGY": H_ * C_ * RINF, "ELEMENTARY_CHARGE": E_}
MEANING = {"LENGTH": {"angstrom": 1e-10, "bohr": A0, "metre": 1.0, "meter": 1.0, "nanometer": 1e-9}, "ENERGY": {"millielectronvolt": MEV, "mev": MEV, "electronvolt": E_, "ev": E_, "joule": 1.0, "rydberg": H_ * C_ * RINF, "kelvin": K_},
           "TIME": {"second": 1.0, "picosecond": 1e-12}, "MAGNETIC_FIELD": {"tesla": 1.0}, "TEMPERATURE": {"kelvin": 1.0}}
# the first letter decides in a model file
LENGTHS = {"Angstrom": 1e-10, "a": 1e-10, "angstroms": 1e-10, "Bohr": A0, "b": A0, "BOHR": A0}
ENERGIES = {"meV": MEV, "m": MEV, "milli-electron-Volt": MEV, "eV": E_, "electron-volt": E_, "E": E_, "Joule": 1.0, "j": 1.0, "J": 1.0, "Kelvin": K_, "K": K_, "Rydberg": H_ * C_ * RINF, "ry": H_ * C_ * RINF, "R": H_ * C_ * RINF}
HENERGIES = {"milli-electron-Volt": MEV, "electron-Volt": E_, "Joule": 1.0, "kelvin": K_, "Rydberg": H_ * C_ * RINF}


def number(I, x):
    x = generic(I, x)
    if isinstance(x, str):
        return None
    v = N.const(x)
    return v


def ratio(c, got, base, factor, what, loc):
    """got = factor * base, entry by entry, up to the accuracy of the constants."""
    got, base = generic(c.I, got), generic(c.I, base)
    gs = list(got.data.flat) if isinstance(got, Arr) else [got]
    bs = list(base.data.flat) if isinstance(base, Arr) else [base] * len(gs)
    if len(gs) != len(bs):
        raise Bad(f"{what}: shape changes", loc)
    for g, b in zip(gs, bs):
        for k in range(N.SIMPLE_FROM):
            x, y = value_at(N.const(generic(c.I, g)), k), value_at(N.const(generic(c.I, b)), k) * factor
            if abs(x - y) > TOL * abs(y) + 1e-300:
                raise Bad(f"{what}: the factor is {(x / y * factor).real if y else x}, expected {factor}", loc)


def constants(rep):
    c = rep.ctx()
    si_, ins = c.I.load("magnopy.units.si").vars, c.I.load("magnopy.units.inside").vars
    for name, want in SI_.items():
        with rep.ob(f"si.{name}"):
            loc = ("magnopy.units.si", 1, name)
            if name not in si_:
                raise Undecided(f"{name} is not defined")
            ratio(c, si_[name], N.const(1), want, f"si.{name}", loc)
    scale = {}
    for name, table in MEANING.items():
        with rep.ob(f"internal unit {name} and its name"):
            loc = ("magnopy.units.inside", 1, name)
            if name not in ins or name + "_NAME" not in ins:
                raise Undecided(f"{name} is not defined")
            label = ins[name + "_NAME"]
            key = "".join(ch for ch in label.lower() if ch.isalpha())
            if key not in table:
                raise Undecided(f"unit {label}")
            ratio(c, ins[name], N.const(1), table[key], f"{name} is called {label}; {name}", loc)
    with rep.ob("constants the package exports"):
        r = c.run("import magnopy\nfrom magnopy.units import inside\nfrom magnopy.units import si as si_\nv = [(getattr(magnopy, n), getattr(inside, n)) for n in inside.__all__]\nok = magnopy.si is si_")
        r.must_pass("reading the exported names")
        for g, (a, b) in r["v"].el:
            c.same(a, b, "exported constant", loc=("magnopy.units.inside", 1, "__all__"))
        if r["ok"] is not True:
            raise Bad("magnopy.si is not the module of the constants", ("magnopy", 1, "si"))
    with rep.ob("keywords of the logical values"):
        loc = ("magnopy.units.inside", 1, "TRUE_KEYWORDS")
        t, f = [[x for g, x in ins[n].el] for n in ("TRUE_KEYWORDS", "FALSE_KEYWORDS")]
        if set(t) & set(f):
            raise Bad(f"{sorted(set(t) & set(f))} means both true and false", loc)
        for words, value in ((t, True), (f, False)):
            for w in words:
                for v in (w, w.upper()):
                    r = load(c, cellsec() + ATOMSEC + [SEP, "Notation", f"double-counting {v}", f"spin-normalized {v}"] + NOTSEC[4:] + BOND(None, None) + [SEP])
                    r.must_pass(f"a file with the keyword {v}")
                    q = c.run("v = (H.double_counting, H.spin_normalized)", H=r["H"])
                    q.must_pass("reading the notation")
                    if [generic(c.I, x) for x in q["v"]] != [value, value]:
                        raise Bad(f"the keyword {v} is read as {q['v']}", anchor(c, "io.load_spinham_txt"))


BOND = lambda eu, ou: [SEP, "Exchange" + (f" {eu}" if eu else ""), SUB, ("A", "B", 1, 0, -1), "Matrix"] + [tuple(mat("J").data[i]) for i in range(3)] + [SUB, SEP, "On-site" + (f" {ou}" if ou else ""), SUB, "A", tuple(sym(f"k{i}") for i in range(6)), SUB]


def internal(c):
    """Internal units of length and energy in SI, by their names."""
    ins = c.I.load("magnopy.units.inside").vars
    out = []
    for n in ("LENGTH", "ENERGY"):
        key = "".join(ch for ch in ins[n + "_NAME"].lower() if ch.isalpha())
        if key not in MEANING[n]:
            raise Undecided(f"unit {ins[n + '_NAME']}")
        out.append(MEANING[n][key])
    return out


def txt(rep):
    c = rep.ctx()
    loc = anchor(c, "io.load_spinham_txt")
    length, energy = internal(c)
    for u, v in list(LENGTHS.items()) + [(None, length)]:
        with rep.ob(f"text file: cell in {u or 'the default unit'}"):
            r = load(c, cellsec(u) + ATOMSEC + NOTSEC + [SEP])
            r.must_pass("reading the file")
            ratio(c, c.run("v = np.array(H.cell)", H=r["H"])["v"], mat("cell"), v / length, f"cell in {u}", loc)
        if u is None:
            continue
        with rep.ob(f"text file: positions in {u}"):
            atoms = list(ATOMSEC)
            atoms[1:3] = [f"Atoms {u}", "name x y z Sx Sy Sz"]
            r = load(c, cellsec() + atoms + NOTSEC + [SEP])
            r.must_pass("reading the file")
            ratio(c, c.run("v = np.array(H.atoms[0].position) @ np.array(H.cell)", H=r["H"])["v"], arr([sym(f"posA{a}") for a in "xyz"]), v / length, f"positions in {u}", loc)
    for u, v in list(ENERGIES.items()) + [(None, MEV)]:
        with rep.ob(f"text file: parameters in {u or 'the default unit'}"):
            other = "eV" if u != "eV" else "Joule"
            r = load(c, cellsec() + ATOMSEC + NOTSEC + BOND(u, other) + [SEP])
            r.must_pass("reading the file")
            s = load(c, cellsec() + ATOMSEC + NOTSEC + BOND(other, u) + [SEP])
            s.must_pass("reading the file")
            ex, on = observe(c, r["H"]), observe(c, s["H"])
            for k, (g, m) in ex.ex.items():
                if k[0] == "A":
                    ratio(c, m, mat("J"), v / energy, f"exchange in {u}", loc)
            for k, (g, m) in on.on.items():
                K = [sym(f"k{i}") for i in range(6)]
                diag = generic(c.I, m)
                x = diag.data[0][0]
                ratio(c, x, K[0], v / energy, f"on-site parameters in {u}", loc)


def hdf5_(rep):
    c = rep.ctx()
    loc = anchor(c, "io.load_spinham_hdf5")
    length, energy = internal(c)
    H = make(c, SYSTEMS[5])
    MAKE = "from magnopy import io\nimport h5py\nh5py._FILES.clear()\nio.dump_spinham_hdf5(H, 'f.hdf5')\nwith h5py.File('f.hdf5', 'a') as f:\n    f['spinham/' + path_].attrs['units'] = unit_\nG = io.load_spinham_hdf5('f.hdf5')\ncells = (np.array(H.cell), np.array(G.cell))"
    with rep.ob("HDF5 file: names of the units"):
        r = c.run("from magnopy import io\nimport h5py\nh5py._FILES.clear()\nio.dump_spinham_hdf5(H, 'f.hdf5')\nwith h5py.File('f.hdf5', 'r') as f:\n    v = [f['spinham/' + p].attrs['units'] for p in ('cell', 'exchange', 'on-site')]", H=H)
        r.must_pass("writing the file")
        names = [x for g, x in r["v"].el]
        for x, n in zip(names, ("LENGTH", "ENERGY", "ENERGY")):
            key = "".join(ch for ch in x.lower() if ch.isalpha())
            if key not in MEANING[n] or abs(MEANING[n][key] / {"LENGTH": length, "ENERGY": energy}[n] - 1) > TOL:
                raise Bad(f"the unit written into the file is {x}", anchor(c, "io.dump_spinham_hdf5"))
    for path, table, base in (("cell", {"Angstrom": 1e-10, "Bohr": A0}, length), ("exchange", HENERGIES, energy), ("on-site", HENERGIES, energy)):
        for u, v in table.items():
            with rep.ob(f"HDF5 file: {path} in {u}"):
                r = c.run(MAKE, H=H, path_=path, unit_=u)
                r.must_pass("reading the file")
                a, b = r["cells"]
                ratio(c, b, a, v / base if path == "cell" else 1.0, f"cell with {path} in {u}", loc)
                sa, sb = observe(c, H), observe(c, r["G"])
                for what, x, y in (("exchange", sa.ex, sb.ex), ("on-site", sa.on, sb.on)):
                    if len(x) != len(y):
                        raise Bad(f"{len(y)} of {len(x)} {what} parameters are read", loc)
                    for k in x:
                        ratio(c, y[k][1], x[k][1], v / base if what == path else 1.0, f"{what} with {path} in {u}", loc)


def others(rep):
    c = rep.ctx()
    length, energy = internal(c)
    with rep.ob("TB2J file: Angstrom and meV"):
        loc = anchor(c, "io.load_tb2j")
        write_ = c.run("with open('exchange.out', 'w') as f_:\n    f_.write(text_)\nfrom magnopy import io\nH = io.load_tb2j('exchange.out')\nv = np.array(H.cell)", text_=T(c30.text([(0, 2, (1, 0, -2), "i")])))
        write_.must_pass("reading the file")
        ratio(c, write_["v"], mat("cell"), 1e-10 / length, "cell", loc)
        for k, (g, m) in observe(c, write_["H"]).ex.items():
            ratio(c, generic(c.I, m).data[0][0], sym("iso0"), MEV / energy, "isotropic exchange", loc)
    with rep.ob("Bohr magneton in the Zeeman energy"):
        loc = anchor(c, "Energy.ferro")
        r = c.run("H = SpinHamiltonian(cell=np.eye(3))\nH.add_atom(Atom('A', spin=(0, 0, 1), g_factor=2))\nH.notation = (True, False, 1, 1)\nH.add_on_site(H.A, MatrixParameter(matrix=np.zeros((3, 3))))\nE = Energy(H)\ne0 = E.ferro([[0, 0, 1]])\nE.magnetic_field = (0, 0, B)\nv = E.ferro([[0, 0, 1]]) - e0", B=sym("B"))
        if not r.failures():
            v = generic(c.I, r["v"])
            for k in range(N.SIMPLE_FROM):
                x = abs(value_at(N.const(v), k)) / abs(value_at(sym("B"), k))
                if abs(x - 2 * MUB / energy) > TOL * 2 * MUB / energy:
                    raise Bad(f"a spin of length 1 with g = 2 in a field of one tesla has an energy of {x}, expected {2 * MUB / energy}", loc)
        else:
            raise Undecided(f"{r.exc_names()}")
    with rep.ob("Vampire file: Joule and Angstrom"):
        loc = anchor(c, "io.dump_ucf")
        s = c29.MAGN[3]
        H = make(c, s + (None,))
        r = c.run("from magnopy import io\ntext = io.dump_ucf(H, nologo=True)\ncell = np.array(H.cell)", H=H)
        r.must_pass("writing the file")
        size, vectors, m, atoms, inter, num = c29.parse(c, loc, r["text"])
        want = c29.expected(c, H)
        joule = inside(c, "ENERGY")
        ratio(c, joule, N.const(1), energy, "internal unit of energy", loc)
        ids = [x for x in c.run("v = [a.name for a in H.atoms]", H=H)["v"].el]
        got = {}
        total = sum(1 for _ in inter)
        sums, refs = N.const(0), N.const(0)
        for row in inter:
            for x in row[6:15]:
                v = N.const(generic(c.I, num(x)))
                sums = sums + v * v
        for k, m_ in want.items():
            for x in [y for r_ in m_ for y in r_]:
                refs = refs + x * x
        ratio(c, sums, refs, 1.0, "interactions (sum of squares)", loc)


def check(rep):
    constants(rep)
    txt(rep)
    hdf5_(rep)
    others(rep)
