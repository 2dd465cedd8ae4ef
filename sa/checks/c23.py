"""Value numbering of the composition of the HDF5 writer and reader (model of h5py) on Hamiltonians with
symbolic content: what is read back must be the same terms, piece by piece."""
from ..files import *

ROUND = """
def charge_(a):
    try:
        return a.charge
    except ValueError:
        return None
sp_ = [np.array(a.spin_vector) for a in H.atoms]
meta_ = [(a.name, np.array(a.position), a.g_factor, charge_(a)) for a in H.atoms]
"""
DEF = """
defined_ = {}
for k_ in ("double_counting", "spin_normalized", "exchange_factor", "on_site_factor"):
    try:
        defined_[k_] = getattr(H, k_)
    except magnopy.exceptions.NotationError:
        pass
cell_ = np.array(H.cell)
q_ = None if H.spiral_vector is None else np.array(H.spiral_vector)
n_ = None if H.cone_axis is None else np.array(H.cone_axis)
"""


def system(c, n, bonds, onsite, notation, spiral=None, full=False):
    """Hamiltonian with n atoms of arbitrary spins, g-factors and charges; bonds: [(i, j, R)].

    spiral: q and n stand for a spiral vector and cone axis, 0 for the spiral vector zero, c for atoms without charge
    (all but the second), z for a first bond with the zero matrix. full: on-site matrices need not be symmetric."""
    env = {"cell": mat("cell"), "notation_": notation}
    src = "H = SpinHamiltonian(cell=cell)\n"
    for i in range(n):
        env.update({f"p{i}": vec(f"p{i}_"), f"s{i}": vec(f"s{i}_"), f"g{i}": sym(f"g{i}"), f"c{i}": sym(f"c{i}")})
        src += f"H.add_atom(Atom('X{i + 1}', position=p{i}, spin=s{i}, g_factor=g{i}, charge={'None' if spiral and 'c' in spiral and i != 1 else f'c{i}'}, index={n - i}))\n"
    if notation is not None:
        src += "H.notation = notation_\n"
    src += "at = list(H.atoms)\n"
    for k, (i, j, R) in enumerate(bonds):
        env[f"J{k}"], env[f"R{k}"] = mat(f"J{k}"), R
        if spiral and "z" in spiral and k == 0:
            env["J0"] = arr([[N.const(0)] * 3] * 3)
        src += f"H.add_exchange(at[{i}], at[{j}], R{k}, MatrixParameter(matrix=J{k}))\n"
    for i in onsite:
        env[f"K{i}"] = mat(f"K{i}") if full else symmat(f"K{i}")
        src += f"H.add_on_site(at[{i}], MatrixParameter(matrix=K{i}))\n"
    if spiral and ("q" in spiral or "0" in spiral):
        env["q"] = vec("q") if "q" in spiral else arr([N.const(0)] * 3)
        src += "H.spiral_vector = q\n"
    if spiral and "n" in spiral:
        env["n"] = vec("n")
        src += "H.cone_axis = n\n"
    r = c.run(src, **env)
    r.must_pass("building the Hamiltonian")
    return r


RING = [(0, 1, (0, 0, 0)), (0, 0, (1, 0, 0)), (1, 0, (0, 2, -1)), (1, 1, (0, 0, 1)), (0, 1, (-1, 0, 3)), (0, 1, (12, -10, 0)), (1, 1, (1, -1, 0)), (0, 0, (0, 1, 1)), (1, 0, (1, 1, 1)), (0, 1, (0, -1, 0)), (0, 0, (0, 0, 7))]
ef, of = sym("ef"), sym("of")
SYSTEMS = [("no terms", 2, [], [], None, None), ("exchange", 2, RING[:3], [], (True, False, ef, None), "qn"), ("eleven bonds", 2, RING, [], (False, True, ef, None), "q"),
           ("eleven bonds, double counting", 2, RING, [0], (True, True, ef, of), "n"), ("on-site", 3, [], [2, 0], (None, True, None, of), None),
           ("everything", 3, RING[:5], [0, 1, 2], (True, False, ef, of), "qn"), ("everything, single counting", 3, RING[:5] + [(2, 0, (0, 0, 0)), (2, 1, (1, 0, 0))], [2, 1], (False, False, ef, of), "qn"),
           ("twelve atoms", 12, [(11, 0, (0, 0, 1)), (1, 10, (0, 0, 0)), (9, 9, (1, 0, 0))], list(range(12)), (False, True, ef, of), "qn"), ("one atom", 1, [(0, 0, (1, 0, 0))], [0], (True, True, ef, of), None),
           ("spiral vector zero, a bond without interaction, atoms without charge", 2, RING[:3], [1], (False, True, ef, of), "0cnz"), ("only a cone axis", 1, [], [], None, "n")]


def make(c, s, full=False):
    name, n, bonds, onsite, notation, spiral = s
    r = system(c, n, bonds, onsite, None, spiral, full)
    # only the parts of the notation that have a meaning
    src = ""
    if notation is not None:
        for k, v in zip(("double_counting", "spin_normalized", "exchange_factor", "on_site_factor"), notation):
            if v is not None:
                src += f"H.{k} = v_{k}\n"
    q = c.run(src + "pass", H=r["H"], **({f"v_{k}": v for k, v in zip(("double_counting", "spin_normalized", "exchange_factor", "on_site_factor"), notation)} if notation else {}))
    q.must_pass("notation of the Hamiltonian")
    return r["H"]


def take(c, H):
    r = c.run(ROUND + DEF, H=H)
    r.must_pass("reading the Hamiltonian")
    return {"cell": r["cell_"], "spins": r["sp_"], "atoms": r["meta_"], "notation": r["defined_"], "spiral vector": r["q_"], "cone axis": r["n_"]}, observe(c, H)


def same(c, a, b, what, loc, skip_atoms=False, symm=()):
    (pa, sa), (pb, sb) = a, b
    for k in pa:
        if k == "atoms" and skip_atoms:
            x = PList([(TRUE, t[:2]) for g, t in pa[k].el])
            y = PList([(TRUE, t[:2]) for g, t in pb[k].el])
            c.same(y, x, f"{what}: names and positions", loc=loc)
            continue
        c.same(generic(c.I, pb[k]), generic(c.I, pa[k]), f"{what}: {k}", loc=loc)
    expect_terms(c, sb, [(Bond(k[0], k[1], sa.R[k], None, "of the original"), m) for k, (g, m) in sa.ex.items()], {x: m for x, (g, m) in sa.on.items()}, what, loc)


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "io.dump_spinham_hdf5")
    for s in SYSTEMS:
        for dump, ld in (("io.dump_spinham_hdf5(H, fname)", "io.load_spinham(fname)"), ("io.dump_spinham_hdf5(H, filename=fname, groupname='a/b')", "io.load_spinham_hdf5(fname)"), ("io.dump_spinham_hdf5(H, fname, groupname='model 1')", "io.load_spinham(fname, groupname='model 1')")):
            with rep.ob(f"round trip: {s[0]}, {dump}"):
                H = make(c, s, full=True)
                before = take(c, H)
                r = c.run(f"from magnopy import io\nimport h5py\nh5py._FILES.clear()\nres = {dump}\nG = {ld}\nleft = [f.filename for f in h5py._OPEN if f._open]", H=H, fname="out.hdf5")
                r.must_pass("export and import")
                same(c, before, take(c, r["G"]), f"round trip ({s[0]})", loc)
                same(c, before, take(c, H), f"export of the original ({s[0]})", loc)
                if r["left"].el:
                    raise Bad("a file is left open", loc)
    # several Hamiltonians in one file, overwriting
    a, b = SYSTEMS[5], SYSTEMS[1]
    with rep.ob("two groups of one file"):
        Ha, Hb = make(c, a), make(c, b)
        r = c.run("from magnopy import io\nimport h5py\nh5py._FILES.clear()\nio.dump_spinham_hdf5(A_, 'f.hdf5', groupname='a')\nio.dump_spinham_hdf5(B_, 'f.hdf5', groupname='b')\nX = io.load_spinham('f.hdf5', groupname='a')\nY = io.load_spinham('f.hdf5', groupname='b')", A_=Ha, B_=Hb)
        r.must_pass("two groups")
        same(c, take(c, Ha), take(c, r["X"]), "first group", loc)
        same(c, take(c, Hb), take(c, r["Y"]), "second group", loc)
    with rep.ob("existing group is kept unless overwriting is asked for"):
        Ha, Hb = make(c, a), make(c, b)
        pre = "from magnopy import io\nimport h5py\nh5py._FILES.clear()\nio.dump_spinham_hdf5(A_, 'f.hdf5')\nio.dump_spinham_hdf5(B_, 'f.hdf5', groupname='other')\n"
        c.run(pre + "io.dump_spinham_hdf5(B_, 'f.hdf5')", A_=Ha, B_=Hb).must_raise("export to an existing group", "FileExistsError")
        r = c.run(pre + "try:\n    io.dump_spinham_hdf5(B_, 'f.hdf5')\nexcept FileExistsError:\n    pass\nX = io.load_spinham('f.hdf5', groupname='spinham')\nY = io.load_spinham('f.hdf5', groupname='other')", A_=Ha, B_=Hb)
        r.must_pass("export to an existing group")
        same(c, take(c, Ha), take(c, r["X"]), "existing group after a refused export", loc)
        same(c, take(c, Hb), take(c, r["Y"]), "other group after a refused export", loc)
        r = c.run(pre + "io.dump_spinham_hdf5(B_, 'f.hdf5', overwrite=True)\nX = io.load_spinham('f.hdf5', groupname='spinham')\nY = io.load_spinham('f.hdf5', groupname='other')", A_=Ha, B_=Hb)
        r.must_pass("overwriting")
        same(c, take(c, Hb), take(c, r["X"]), "overwritten group", loc)
        same(c, take(c, Hb), take(c, r["Y"]), "other group after overwriting", loc)
    with rep.ob("units of an exported file are the internal ones and every value is stored in double precision"):
        Ha = make(c, a)
        r = c.run("from magnopy import io\nimport h5py\nh5py._FILES.clear()\nio.dump_spinham_hdf5(A_, 'f.hdf5')\nout = []\ndef see(name, obj):\n    for k in obj.attrs:\n        out.append((name, k, obj.attrs[k]))\nwith h5py.File('f.hdf5', 'r') as f:\n    f.visititems(see)", A_=Ha)
        r.must_pass("export")
        got = {(n.split("/", 1)[-1], k): v for g, (n, k, v) in r["out"].el}
        for n, names in (("cell", ("angstrom",)), ("exchange", ("milli-electron-volt",)), ("on-site", ("milli-electron-volt",)), ("spiral-vector", ("relative",)), ("cone-axis", ("absolute",))):
            u = got.get((n, "units"))
            if not isinstance(u, str) or u.lower() not in names:
                raise Bad(f"units of {n} are {u!r}, expected {names[0]!r}", loc)
        if got.get(("spinham", "type")) != "SpinHamiltonian":
            raise Bad(f"type of the group is {got.get(('spinham', 'type'))!r}", loc)
    rep.minimum = 15
