"""Value numbering of the standardization of the cell: for every kind of transformation matrix that the lattice library
chooses, content of the Hamiltonian in absolute coordinates is compared before and after."""
from ..en import *

MATRICES = {
    "no change": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "cyclic": [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
    "other cyclic": [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
    "orthorhombic 1": [[0, -1, 0], [-1, 0, 0], [0, 0, -1]],
    "orthorhombic 2": [[-1, 0, 0], [0, 0, -1], [0, -1, 0]],
    "orthorhombic 3": [[0, 0, -1], [0, -1, 0], [-1, 0, 0]],
    "base-centered 1": [[0, 1, 0], [-1, 0, 0], [0, 0, 1]],
    "base-centered 2": [[1, 0, 0], [0, 0, -1], [0, 1, 0]],
    "monoclinic": [[-1, 0, 0], [0, 0, 1], [0, 1, 0]],
    "monoclinic, third step": [[-1, 0, 0], [0, -1, 0], [0, 0, 1]],
    "triclinic": [[1, 0, 0], [0, -1, 0], [0, 0, -1]],
    "skew": [[1, 1, 0], [0, 1, 0], [0, -2, 1]],
}
# the lattice library computes the matrix in floating point numbers
NOISY = ("cyclic", "skew", "triclinic")
NOISE = [[1, -1, 0], [-1, 0, 1], [1, 1, -1]]


def noisy(S):
    return arr([[N.const(x * (1 - e * 1e-12) if x else 0) for x, e in zip(r, q)] for r, q in zip(S, NOISE)])

READ = """
pos_ = [(a.name, np.array(a.position) @ H.cell) for a in H.atoms]
cell_ = np.array(H.cell)
rcell_ = np.array(H.reciprocal_cell)
q_, n_ = (np.array(H.spiral_vector) @ H.reciprocal_cell if H.spiral_vector is not None else None), (np.array(H.cone_axis) if H.cone_axis is not None else None)
spin_ = [(a.name, a.index, a.spin, np.array(a.spin_vector), a.g_factor) for a in H.atoms]
"""


def absolute(c, st, cell):
    """[(a, b, vector, matrix)]"""
    out = []
    for k, (g, m) in st.ex.items():
        if feasible(g):
            R = st.R[k]
            out.append((k[0], k[1], [sum((N.const(R[i]) * cell[i][j] for i in range(3)), N.const(0)) for j in range(3)], rows(m), tuple(R)))
    return out


def check(rep):
    bonds = [("A", "A", (1, 0, 0)), ("A", "A", (0, 0, 1)), ("A", "B", (0, 0, 0)), ("B", "A", (0, 0, 0)), ("B", "A", (0, 1, -2)), ("A", "B", (1, 2, 3)), ("B", "B", (1, -1, 0)), ("B", "C", (0, 1, 0)), ("C", "C", (0, 1, -1)), ("C", "A", (1, 0, -1))]
    if rep.thorough:
        bonds += [(a, b, R) for a, b in ("AA", "AB", "BB", "CB") for R in ((2, 0, -1), (1, 1, 1), (0, 2, 5))]
    for name, S in MATRICES.items():
        for nt in ((True, False, sym("ef"), sym("of")), (False, True, sym("ef"), sym("of")), None):
            for spiral in (True, False):
                if not spiral and name not in ("cyclic", "skew"):
                    continue
                c = rep.ctx()
                loc = anchor(c, "SpinHamiltonian")
                tag = f"{name}, {'notation undefined' if nt is None else 'double counting' if nt[0] else 'single counting'}{'' if spiral else ', no spiral'}"
                with rep.ob(tag):
                    bs = [Bond(a, b, R, mat(f"J{i}"), str(i)) for i, (a, b, R) in enumerate(bonds)]
                    # without mirrored pairs
                    bs = [b for i, b in enumerate(bs) if not any((o.a, o.b, tuple(o.R)) == (b.b, b.a, tuple(-x for x in b.R)) for o in bs[:i])]
                    H = build(c, bs, "AC", nt, atoms=("A", "B", "C"), index={"A": 2, "B": 1, "C": 3}, spiral=spiral)["H"]
                    q0 = c.run(READ, H=H)
                    q0.must_pass("reading the Hamiltonian")
                    st0 = observe(c, H)
                    q = c.run("H._S_given = S\nH.standardize()\n" + READ, H=H, S=S)
                    q.must_pass("standardization")
                    st1 = observe(c, H)
                    cell0, cell1 = rows(generic(c.I, q0["cell_"])), rows(generic(c.I, q["cell_"]))
                    # S^T cell' = cell
                    back = [[sum((N.const(S[k][i]) * cell1[k][j] for k in range(3)), N.const(0)) for j in range(3)] for i in range(3)]
                    for i in range(3):
                        for j in range(3):
                            c.same(back[i][j], cell0[i][j], f"{tag}: cell[{i}, {j}]", loc=loc)
                    for x, what in (("pos_", "absolute positions of the atoms"), ("q_", "absolute spiral vector"), ("n_", "cone axis"), ("spin_", "atoms")):
                        c.same(q[x], q0[x], f"{tag}: {what}", loc=loc)
                    b0, b1 = absolute(c, st0, cell0), absolute(c, st1, cell1)
                    if len(b0) != len(b1):
                        raise Bad(f"{tag}: {len(b0)} bonds before, {len(b1)} after", loc)
                    for a, b, v, m, R in b0:
                        found = 0
                        for a1, b1_, v1, m1, R1 in b1:
                            if (a1, b1_) == (a, b) and all(N.same(x, y) for x, y in zip(v, v1)):
                                found += 1
                                c.same(arr(m1), arr(m), f"{tag}: matrix of the bond ({a}, {b}, {R})", loc=loc)
                            elif nt is not None and not nt[0] and (b1_, a1) == (a, b) and all(N.same(N.neg(x), y) for x, y in zip(v, v1)) and not (a == b and not any(R)):
                                found += 1
                                c.same(arr([[m1[j][i] for j in range(3)] for i in range(3)]), arr(m), f"{tag}: matrix of the bond ({a}, {b}, {R})", loc=loc)
                        if found != 1:
                            raise Bad(f"{tag}: bond ({a}, {b}, {R}) is found {found} times in the standardized Hamiltonian", loc)
                    for a, b, v, m, R in b1:
                        if not all(isinstance(x, int) for x in R):
                            raise Bad(f"{tag}: cell vector {R} of the bond ({a}, {b})", loc)
                        if nt is not None and not nt[0] and not Bond(a, b, R, None, "").canonical({"A": 2, "B": 1, "C": 3}):
                            raise Bad(f"{tag}: bond ({a}, {b}, {R}) is not the one of the two mirrored bonds that is kept", loc)
                    for a in set(st0.on) | set(st1.on):
                        if a not in st0.on or a not in st1.on:
                            raise Bad(f"{tag}: on-site term of {a}", loc)
                        c.same(st1.on[a][1], st0.on[a][1], f"{tag}: on-site term of {a}", loc=loc)
                    if nt is not None:
                        q = c.run("v = H.notation", H=H)
                        q.must_pass("notation")
                        c.same(q["v"], nt, f"{tag}: notation", loc=loc)
                    # the bonds are addressed by their new cell vectors
                    for a, b, v, m, R in b1[:2]:
                        q = c.run("v = np.array(H[a, b, R].matrix)\nw = (a, b, R) in H", H=H, a=a, b=b, R=R)
                        q.must_pass("bond of the standardized Hamiltonian")
                        c.same(q["v"], arr(m), f"{tag}: bond ({a}, {b}, {R})", loc=loc)
    # a lattice in which a bond does not connect two unit cells
    for tag, S in (("half", [[Fraction_(1, 2), 0, 0], [0, 1, 0], [0, 0, 1]]), ("third and two thirds", [[1, 0, 0], [0, Fraction_(1, 3), Fraction_(2, 3)], [0, 0, 1]]), ("one tenth off", [[1, 0, 0], [0, 1, 0], [0, Fraction_(1, 10), 1]])):
        for nt in ((True, False, sym("ef"), sym("of")), None):
            c = rep.ctx()
            with rep.ob(f"matrix with fractions: {tag}, notation {'undefined' if nt is None else 'with double counting'}"):
                loc = anchor(c, "SpinHamiltonian")
                bs = [Bond("A", "B", (0, 0, 0), mat("J0"), "0"), Bond("B", "A", (2, 3, -2), mat("J1"), "1"), Bond("A", "C", (1, 1, 0), mat("J2"), "2")]
                H = build(c, bs, "AC", nt, atoms=("A", "B", "C"), spiral=True)["H"]
                st0 = observe(c, H)
                q0 = c.run(READ, H=H)
                c.run("H._S_given = S\nH.standardize()", H=H, S=arr(S)).must_raise("standardization with a matrix that cuts unit cells", "ValueError")
                st1 = observe(c, H)
                expect_terms(c, st1, [(Bond(k[0], k[1], st0.R[k], m, ""), m) for k, (g, m) in st0.ex.items()], {a: m for a, (g, m) in st0.on.items()}, "refused standardization", loc)
                q1 = c.run(READ, H=H)
                for x in ("pos_", "cell_", "q_", "n_", "spin_"):
                    c.same(q1[x], q0[x], "atoms, cell and vectors after a refused standardization", loc=loc)
    for name in NOISY:
        for nt in ((True, False, sym("ef"), sym("of")), None):
            c = rep.ctx()
            with rep.ob(f"{name} with rounding errors in the matrix, notation {'undefined' if nt is None else 'with double counting'}"):
                S = MATRICES[name]
                bs = [Bond(a, b, R, mat(f"J{i}"), str(i)) for i, (a, b, R) in enumerate(bonds)]
                bs = [b for i, b in enumerate(bs) if not any((o.a, o.b, tuple(o.R)) == (b.b, b.a, tuple(-x for x in b.R)) for o in bs[:i])]
                H = build(c, bs, "AC", nt, atoms=("A", "B", "C"), index={"A": 2, "B": 1, "C": 3})["H"]
                st0 = observe(c, H)
                c.run("H._S_given = S\nH.standardize()", H=H, S=noisy(S)).must_pass("standardization with rounding errors in the matrix")
                st1 = observe(c, H)
                image = lambda R: tuple(sum(S[i][j] * R[j] for j in range(3)) for i in range(3))
                expect_terms(c, st1, [(Bond(k[0], k[1], image(st0.R[k]), m, ""), m) for k, (g, m) in st0.ex.items()], {a: m for a, (g, m) in st0.on.items()},
                             f"{name} with rounding errors", anchor(c, "SpinHamiltonian"))
