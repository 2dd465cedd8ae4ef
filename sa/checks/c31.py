"""Value numbering of the magnon matrix: for symbolic bonds, spins and wave vectors the entries of h(k), J(k), A(k), B(k)
and C are compared with the blocks built from the stored terms. The local basis is free (a phase for every atom), so
products that do not depend on it are compared."""
from .. import num as N

N.PLAIN |= {'ef', 'of'}                          # canonical notation is not of interest here

from ..en import *


def cexp(x):
    """exp(-i x)."""
    return N.cos(x) - N.const(1j) * N.sin(x)


def basis(s):
    """Right-handed orthonormal (e1, e2, v) with v along s (generic s: crossed with a fixed vector)."""
    v = unit(s)
    f = [N.const(Fraction_(3, 10)), N.const(Fraction_(-7, 10)), N.const(Fraction_(1, 5))]
    cr = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    e1 = unit(cr(f, v))
    return e1, cr(v, e1), v


class Reference:
    def __init__(self, c, H, names, loc):
        """Matrices of the SpinW notation from the terms in the notation H has."""
        st = observe(c, H)
        q = c.run("no = H.notation\nS = [(a.name, a.spin_vector, H.get_atom_coordinates(a, relative=False)) for a in H.magnetic_atoms]\ncell_ = H.cell", H=H)
        q.must_pass("reading the Hamiltonian")
        dc, sn, ef, of = q["no"]
        self.S, pos = {}, {}
        for g, (n, s, x) in q["S"].el:
            if feasible(g):
                self.S[n] = [generic(c.I, y) for y in s.data]
                pos[n] = [generic(c.I, y) for y in x.data]
        cell = rows(generic(c.I, q["cell_"]))
        self.names = names
        norm = {n: N.sqrt(dot(s, s)) for n, s in self.S.items()}
        self.norm = norm
        one = N.const(1)
        self.terms = []
        for k, (g, m) in st.ex.items():
            if not feasible(g):
                continue
            a, b, R = k[0], k[1], st.R[k]
            f = N.const(ef) / (norm[a] * norm[b] if sn else one)
            d = [pos[b][x] - pos[a][x] + sum((N.const(R[y]) * cell[y][x] for y in range(3)), N.const(0)) for x in range(3)]
            m = rows(m)
            if dc:
                self.terms.append((a, b, msc(m, f), d))
            else:
                f = f * N.const(Fraction_(1, 2))
                self.terms.append((a, b, msc(m, f), d))
                self.terms.append((b, a, msc([[m[j][i] for j in range(3)] for i in range(3)], f), [N.neg(x) for x in d]))
        for a, (g, m) in st.on.items():
            if feasible(g):
                self.terms.append((a, a, msc(rows(m), N.const(of) / (norm[a] * norm[a] if sn else one)), [N.const(0)] * 3))
        self.basis = {n: basis(s) for n, s in self.S.items()}

    def J(self, k):
        out = {(a, b): [[N.const(0)] * 3 for _ in range(3)] for a in self.names for b in self.names}
        for a, b, m, d in self.terms:
            out[a, b] = madd(out[a, b], msc(m, cexp(dot(k, d))))
        return out

    def AB(self, k):
        J = self.J([N.neg(x) for x in k])
        u = {n: [x + N.const(1j) * y for x, y in zip(e1, e2)] for n, (e1, e2, v) in self.basis.items()}
        cj = lambda v: [N.conj(x) for x in v]
        A, B = {}, {}
        for a in self.names:
            for b in self.names:
                f = N.sqrt(self.norm[a] * self.norm[b]) / N.const(2)
                A[a, b] = f * quad(u[a], J[a, b], cj(u[b]))
                B[a, b] = f * quad(u[a], J[a, b], u[b])
        return A, B

    def C(self):
        J = self.J([N.const(0)] * 3)
        return {a: sum((self.norm[b] * quad(self.basis[a][2], J[a, b], self.basis[b][2]) for b in self.names), N.const(0)) for a in self.names}

    def h(self, k):
        A, B = self.AB(k)
        Am, Bm = self.AB([N.neg(x) for x in k])
        C = self.C()
        n = len(self.names)
        two = N.const(2)
        out = [[None] * (2 * n) for _ in range(2 * n)]
        for i, a in enumerate(self.names):
            for j, b in enumerate(self.names):
                d = two * C[a] if i == j else N.const(0)
                out[i][j] = two * A[a, b] - d
                out[i][j + n] = two * B[a, b]
                out[i + n][j] = two * N.conj(B[b, a])
                out[i + n][j + n] = two * N.conj(Am[a, b]) - d
        return out


def invariants(h, n):
    """Products of entries in which the phases of the local bases cancel: {name: value}."""
    out = {}
    name = lambda i: f"{i % n}{'' if i < n else '+'}"
    # phase of row/column index: p_i for i < n, its conjugate for i >= n
    for i in range(2 * n):
        out[f"h[{name(i)},{name(i)}]"] = h[i][i]
        for j in range(2 * n):
            if i != j:
                out[f"h[{name(i)},{name(j)}] h[{name(j)},{name(i)}]"] = h[i][j] * h[j][i]
                for l in range(2 * n):
                    if len({i, j, l}) == 3:
                        out[f"h[{name(i)},{name(j)}] h[{name(j)},{name(l)}] h[{name(l)},{name(i)}]"] = h[i][j] * h[j][l] * h[l][i]
    return out


HAM = [("two atoms, double counting", 2, [(0, 1, (0, 0, 0)), (0, 1, (1, 0, 0)), (0, 0, (0, 1, 0)), (1, 1, (1, -1, 0))], [0], (True, False, sym("ef"), sym("of"))),
       ("two atoms, single counting, normalized", 2, [(1, 0, (0, 0, 1)), (0, 0, (0, 1, 0)), (0, 0, (2, 0, 1))], [1], (False, True, sym("ef"), sym("of"))),
       ("three atoms", 3, [(0, 1, (0, 0, 0)), (1, 2, (0, 0, 0)), (2, 0, (0, 0, 1)), (0, 0, (1, 0, 0)), (1, 1, (0, 1, 0)), (2, 2, (0, 0, 1))], [0, 2], (True, False, sym("ef"), sym("of"))),
       ("one atom", 1, [(0, 0, (1, 0, 0)), (0, 0, (0, 1, 0))], [0], (False, False, sym("ef"), sym("of"))),
       ("one atom, only on-site", 1, [], [0], (True, True, sym("ef"), sym("of"))),
       ("three atoms, one without terms", 3, [(0, 2, (0, 0, 1)), (0, 0, (1, 0, 0))], [2], (True, False, sym("ef"), sym("of"))),
       ("SpinW notation", 2, [(0, 1, (0, 0, 0)), (0, 0, (0, 1, 0))], [1], (True, False, 1.0, 1.0))]
DIRS = {"any direction": None, "along the axes": [[0, 0, 1], [0, 0, -1], [1, 0, 0]], "opposite": [[0, 0, -1], [0, 1, 0], [0, 0, 1]],
        "close to the z axis": [[Fraction_(4, 10**4), Fraction_(-3, 10**4), 1], [Fraction_(1, 10**5), 0, -1], [0, Fraction_(1, 10**6), 1]]}


def make_(c, s, dirs):
    name, n, bonds, onsite, notation = s
    env = {"cell": mat("cell"), "no": notation}
    src = "H = SpinHamiltonian(cell=cell)\n"
    order = list(range(n))[::-1]
    for i in range(n):
        env[f"p{i}"] = vec(f"p{i}")
        if DIRS.get(dirs) is None:
            env[f"s{i}"] = vec(f"s{i}")
        else:
            m = sym(f"S{i}", positive=True)
            env[f"s{i}"] = arr([m * N.const(x) for x in DIRS[dirs][i]])
        src += f"A{i} = Atom('{'ABC'[i]}', position=p{i}, spin=1, index={i + 1})\nA{i}.spin_vector = s{i}\n"
    src += "".join(f"H.add_atom(A{i})\n" for i in order)
    for b, (i, j, R) in enumerate(bonds):
        env[f"J{b}"] = mat(f"J{b}")
        src += f"H.add_exchange(A{i}, A{j}, {R}, MatrixParameter(matrix=J{b}))\n"
    for i in onsite:
        env[f"K{i}"] = mat(f"K{i}")
        src += f"H.add_on_site(A{i}, MatrixParameter(matrix=K{i}))\n"
    for x, v in zip(("double_counting", "spin_normalized", "exchange_factor", "on_site_factor"), notation):
        env["n_" + x] = v
        src += f"H.{x} = n_{x}\n"
    r = c.run(src, **env)
    r.must_pass("building a Hamiltonian")
    H = r["H"]
    q = c.run("v = [a.name for a in H.magnetic_atoms]", H=H)
    return H, [x for g, x in q["v"].el if feasible(g)]


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "MagnonDispersion.h")
    k1, k2 = vec("k"), vec("kk")
    host = lambda v: [x for x in v.data]
    zero = [N.const(0)] * 3

    def matrix(v):
        v = generic(c.I, v)
        return [[generic(c.I, x) for x in r] for r in v.data]

    for s in HAM:
        for dirs in DIRS:
            if dirs != "any direction" and s[0] not in ("two atoms, double counting", "three atoms") and not rep.thorough:
                continue
            tag = f"{s[0]}, spins {dirs}"
            with rep.ob(f"{tag}: the matrix"):
                H, names = make_(c, s, dirs)
                ref = Reference(c, H, names, loc)
                n = len(names)
                q = c.run("D = MagnonDispersion(H)", H=H)
                q.must_pass("building the dispersion")
                D = q["D"]
            if "D" not in locals() or "ref" not in locals():
                continue
            seen = {}
            for kn, kv in (("a wave vector", k1), ("another wave vector", k2), ("the opposite wave vector", arr([N.neg(x) for x in k1.data])), ("the centre", arr(zero))):
                with rep.ob(f"{tag}: {kn}"):
                    q = c.run("v = D.h(k)", D=D, k=Arr(kv.data.copy()))
                    q.must_pass("the magnon matrix")
                    got = matrix(q["v"])
                    if len(got) != 2 * n or any(len(r) != 2 * n for r in got):
                        raise Bad(f"{tag}: the matrix of {n} atoms has {len(got)} rows", loc)
                    want = ref.h([x for x in kv.data])
                    g, w = invariants(got, n), invariants(want, n)
                    for x in w:
                        c.same(g[x], w[x], f"{tag}, {kn}: {x}", loc=loc)
                    seen[kn] = (kv, got, want)
            names_ = list(seen)
            with rep.ob(f"{tag}: the same local basis for every wave vector"):
                for x in names_[1:]:
                    g0, w0, g1, w1 = seen[names_[0]][1], seen[names_[0]][2], seen[x][1], seen[x][2]
                    for i in range(2 * n):
                        for j in range(2 * n):
                            c.same(g0[i][j] * N.conj(g1[i][j]), w0[i][j] * N.conj(w1[i][j]), f"{tag}: relative phase of entry ({i}, {j}) for {names_[0]} and {x}", loc=loc)
            with rep.ob(f"{tag}: asked again in another order"):
                for x in names_[::-1] + names_:
                    q = c.run("v = D.h(k)", D=D, k=Arr(seen[x][0].data.copy()))
                    q.must_pass("the magnon matrix")
                    got = matrix(q["v"])
                    for i in range(2 * n):
                        for j in range(2 * n):
                            c.same(got[i][j], seen[x][1][i][j], f"{tag}: entry ({i}, {j}) for {x} when asked again", loc=loc)
            with rep.ob(f"{tag}: a result that the caller changes"):
                q = c.run("a = D.h(k)\na[...] = 7\nb = D.C()\nb = D.h(k)", D=D, k=Arr(k1.data.copy()))
                q.must_pass("the magnon matrix")
                got = matrix(q["b"])
                for i in range(2 * n):
                    for j in range(2 * n):
                        c.same(got[i][j], seen[names_[0]][1][i][j], f"{tag}: entry ({i}, {j}) after the caller changed an earlier result", loc=loc)
            with rep.ob(f"{tag}: the wave vector given as a list, before anything else"):
                q = c.run("E = MagnonDispersion(H)\nv = E.h([k[0], k[1], k[2]])\nw = E.h(k)", H=H, k=Arr(k2.data.copy()))
                q.must_pass("the magnon matrix")
                for v in "vw":
                    got = matrix(q[v])
                    for i in range(2 * n):
                        for j in range(2 * n):
                            c.same(got[i][j], seen["another wave vector"][1][i][j], f"{tag}: entry ({i}, {j}) asked first", loc=loc)
                kk = arr([x for x in k2.data])
                c.run("MagnonDispersion(H).h(k)", H=H, k=kk).must_pass("the magnon matrix")
                c.same(kk, k2, f"{tag}: wave vector of the caller", loc=loc)
            with rep.ob(f"{tag}: the parts"):
                q = c.run("J, A, B, C = D.J(k), D.A(k), D.B(k), D.C()\nu, v = D.u, D.v", D=D, k=Arr(k1.data.copy()))
                if q.exc_names():
                    raise Undecided(f"the parts are not available: {q.exc_names()}")
                J = ref.J([x for x in k1.data])
                got = generic(c.I, q["J"])
                for i, a in enumerate(names):
                    for j, b in enumerate(names):
                        for x in range(3):
                            for y in range(3):
                                c.same(generic(c.I, got.data[i, j, x, y]), J[a, b][x][y], f"{tag}: J({a}, {b})[{x}, {y}]", loc=anchor(c, "MagnonDispersion.J"))
                A, B, C = (matrix(q[x]) for x in "ABC")
                h = seen[names_[0]][1]
                rc = ref.C()
                for i, a in enumerate(names):
                    for j, b in enumerate(names):
                        c.same(C[i][j], rc[a] if i == j else N.const(0), f"{tag}: C[{i}, {j}]", loc=anchor(c, "MagnonDispersion.C"))
                        c.same(N.const(2) * A[i][j] - N.const(2) * C[i][j], h[i][j], f"{tag}: A[{i}, {j}]", loc=anchor(c, "MagnonDispersion.A"))
                        c.same(N.const(2) * B[i][j], h[i][j + n], f"{tag}: B[{i}, {j}]", loc=anchor(c, "MagnonDispersion.B"))


