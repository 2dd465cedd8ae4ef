"""Abstract Hamiltonians: the universe of terms and their observation."""
import itertools

from .lib import *

HALF = N.const(Fraction_(1, 2))


class Bond:
    def __init__(self, a, b, R, J, tag):
        self.a, self.b, self.R, self.J, self.tag = a, b, R, J, tag

    @property
    def mirror(self):
        return Bond(self.b, self.a, tuple(neg(x) for x in self.R), Arr(self.J.data.T.copy()), self.tag + " mirrored")

    @property
    def self_mirror(self):
        return self.a == self.b and all(x == 0 for x in self.R if isinstance(x, int)) and all(isinstance(x, int) for x in self.R)

    def key(self, I):
        return (self.a, self.b, I.hkey(self.R))

    def canonical(self, index):
        for x in self.R:
            s = x if isinstance(x, int) else (1 if x.sign == "+" else -1)
            if s:
                return s > 0
        return index[self.a] <= index[self.b]

    def __repr__(self):
        return f"({self.a}, {self.b}, {tuple(str(x) for x in self.R)})"


def neg(x):
    return -x if isinstance(x, int) else N.neg(x)


_cnt = itertools.count()


def cellvec(pattern, tag):
    out = []
    for s, n in zip(pattern, "ijk"):
        out.append(0 if s == 0 else (sym(f"{n}_{tag}", positive=True, integer=True) if s > 0
                                     else N.neg(sym(f"{n}_{tag}", positive=True, integer=True))))
    return tuple(out)


PATTERNS = list(itertools.product((1, 0, -1), repeat=3))


def halfspace():
    """One pattern of each pair of opposite ones."""
    out = []
    for p in PATTERNS:
        if tuple(-x for x in p) not in out:
            out.append(p)
    return out


def pname(p):
    return "(" + ",".join({1: "+", 0: "0", -1: "-"}[x] for x in p) + ")"


def universe(pairs=(("A", "B"), ("B", "A"), ("A", "A")), patterns=PATTERNS, mirrors=False, asym=True):
    """One bond of every class; with mirrors=False only one of each mirrored pair of classes
    shares symbols, so no two bonds of the result are mirrors of each other."""
    out = []
    for a, b in pairs:
        for p in patterns:
            tag = f"{a}{b}{pname(p)}"
            if (a, b, p) == ("B", "A", (0, 0, 0)) and ("A", "B") in pairs:
                continue
            out.append(Bond(a, b, cellvec(p, tag), mat("J" + tag), tag))
    return out


ATOMS = {"A": 1, "B": 2, "C": 3}
# atoms may have the same name (they differ by index then): letter -> name
NAMED = {}


class named:
    """Atoms of the Hamiltonians built in the block have these names."""

    def __init__(self, **names):
        self.names = names

    def __enter__(self):
        NAMED.update(self.names)

    def __exit__(self, *a):
        NAMED.clear()


def atom_src(atoms=("A", "B"), index=None, extra=""):
    index = index or ATOMS
    s = ""
    for a in atoms:
        s += f"{a} = Atom('{NAMED.get(a, a)}', position=pos{a}, spin=S{a}, g_factor=g{a}, index={index[a]})\n"
    s += "H = SpinHamiltonian(cell=cell" + extra + ")\n"
    for a in atoms:
        s += f"H.add_atom({a})\n"
    return s


def atom_env(atoms=("A", "B")):
    env = {"cell": mat("cell")}
    for a in atoms:
        env["pos" + a] = vec("pos" + a)
        env["S" + a] = sym("S" + a, positive=True)
        env["g" + a] = sym("g" + a, positive=True)
    return env


def build(c, bonds=(), onsite=(), notation=None, atoms=("A", "B"), index=None, env=None, spiral=False):
    """Run that leaves the Hamiltonian in H (terms added while the notation is undefined)."""
    e = atom_env(atoms)
    e.update(env or {})
    src = atom_src(atoms, index)
    for n, b in enumerate(bonds):
        e[f"J{n}_"] = Arr(b.J.data.copy())
        e[f"R{n}_"] = b.R
        src += f"H.add_exchange({b.a}, {b.b}, R{n}_, MatrixParameter(matrix=J{n}_))\n"
    for a in onsite:
        e[f"K{a}_"] = mat("K" + a)
        src += f"H.add_on_site({a}, MatrixParameter(matrix=K{a}_))\n"
    if spiral:
        e["spiral_"], e["axis_"] = vec("q"), vec("n")
        src += "H.spiral_vector = spiral_\nH.cone_axis = axis_\n"
    if notation is not None:
        e["notation_"] = notation
        src += "H.notation = notation_\n"
    r = c.run(src, **e)
    r.must_pass("building a Hamiltonian")
    return r


OBS = """
ex_ = [(letters_.get((a1.name, a1.index), a1.name), letters_.get((a2.name, a2.index), a2.name), ijk, np.array(p.matrix)) for a1, a2, ijk, p in H.exchange]
on_ = [(letters_.get((a.name, a.index), a.name), np.array(p.matrix)) for a, p in H.on_site]
"""


class State:
    """Observed content: {bond key: [(guard, matrix)]}, {atom: ...}."""

    def __init__(self, c, r):
        I = c.I
        self.ex, self.on, self.order, self.R = {}, {}, [], {}
        for g, t in r["ex_"].el:
            a, b, R, m = t
            k = (a, b, I.hkey(R))
            if k in self.ex:
                raise Bad(f"bond {k} listed twice")
            self.ex[k] = (g, generic(I, m))
            self.R[k] = R
            self.order.append(k)
        for g, t in r["on_"].el:
            self.on[t[0]] = (g, generic(I, t[1]))


def observe(c, H):
    r = c.run("letters_ = {" + ", ".join(f"({n!r}, {ATOMS[a]}): {a!r}" for a, n in NAMED.items()) + "}\n" + OBS, H=H)
    r.must_pass("iterating over the terms")
    return State(c, r)


def expect_terms(c, st, bonds, onsite, what, loc=None, ignore_extra=False):
    """The state has exactly these bonds [(Bond, matrix)] and on-site terms {atom: matrix}."""
    I = c.I
    want = {}
    for b, m in bonds:
        want[b.key(I)] = (b, m)
    for k, (b, m) in want.items():
        if k not in st.ex or not feasible(st.ex[k][0]):
            raise Bad(f"{what}: bond {b} ({b.tag}) is missing", loc)
        g = M.neg(st.ex[k][0])
        if feasible(g):
            raise Bad(f"{what}: bond {b} ({b.tag}) may be missing [{M.describe(g)[:150]}]", loc)
        c.same(st.ex[k][1], m, f"{what}: matrix of bond {b} ({b.tag})", loc=loc)
    for k, (g, m) in st.ex.items():
        if k not in want and feasible(g):
            raise Bad(f"{what}: unexpected bond ({k[0]}, {k[1]}, {tuple(str(x) for x in st.R[k])})", loc)
    for a, m in onsite.items():
        if a not in st.on or not feasible(st.on[a][0]) or feasible(M.neg(st.on[a][0])):
            raise Bad(f"{what}: on-site term of {a} is missing", loc)
        c.same(st.on[a][1], m, f"{what}: on-site matrix of {a}", loc=loc)
    for a, (g, m) in st.on.items():
        if a not in onsite and feasible(g):
            raise Bad(f"{what}: unexpected on-site term of {a}", loc)


def scale(m, f):
    f = f if isinstance(f, Num) else N.const(f)
    out = np.empty(m.data.shape, dtype=object)
    for i, x in np.ndenumerate(m.data):
        out[i] = x * f
    return Arr(out)


def transpose(m):
    return Arr(m.data.T.copy())


SNAP = """
cell_ = np.array(H.cell)
atoms_ = [(a.name, a.index, np.array(a.position), np.array(a.spin_vector) if spins_ else None, a.spin if spins_ else None) for a in H.atoms]
spiral_ = None if H.spiral_vector is None else np.array(H.spiral_vector)
axis_ = None if H.cone_axis is None else np.array(H.cone_axis)
try:
    not_ = H.notation
except magnopy.exceptions.NotationError:
    not_ = None
"""


class Snapshot:
    """Everything observable of a Hamiltonian."""

    def __init__(self, c, H, spins=True):
        r = c.run(SNAP, H=H, spins_=spins)
        r.must_pass("reading the Hamiltonian")
        self.parts = {n: r[n + "_"] for n in ("cell", "atoms", "spiral", "axis", "not")}
        self.st = observe(c, H)
        self.c = c

    def compare(self, other, what, loc=None, skip=()):
        c = self.c
        for n, title in (("cell", "cell"), ("atoms", "atoms"), ("spiral", "spiral vector"), ("axis", "cone axis"), ("not", "notation")):
            if n not in skip:
                c.same(other.parts[n], self.parts[n], f"{what}: {title}", loc=loc)
        st = self.st
        if "order" not in skip and [k for k in other.st.order] != [k for k in st.order]:
            raise Bad(f"{what}: bonds or their order changed", loc)
        bonds = [(Bond(k[0], k[1], st.R[k], m, "present before"), m) for k, (g, m) in st.ex.items()]
        expect_terms(c, other.st, bonds, {a: m for a, (g, m) in st.on.items()}, what, loc)
