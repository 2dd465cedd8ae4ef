"""Abstract interpretation and alias analysis: a full snapshot (value numbers of cell, atoms, terms,
notation, ground-state data) of a Hamiltonian with bonds of every class is compared before and after
each derived object is built and used; every mutator is then applied to one side and the other side is
compared again; storage reachable from different terms is checked to be disjoint."""
from ..ham import *

MUT = {
    "a bond's matrix": "H['A', 'B', R].matrix = Z",
    "a bond's matrix in place": "H['A', 'B', R].matrix[0, 1] = 77",
    "a bond's isotropic part": "H['A', 'B', R].iso = 5",
    "a bond's component": "H['A', 'B', R].xy = 5",
    "every bond": "for a, b, R_, p in H.exchange:\n    p.zz = 13",
    "on-site matrix": "H['A'].matrix = Z",
    "on-site matrix in place": "H['A'].matrix[2, 2] = 77",
    "exchange factor": "H.exchange_factor = 17",
    "on-site factor": "H.on_site_factor = 17",
    "spin normalisation": "H.spin_normalized = not H.spin_normalized",
    "double counting": "H.double_counting = not H.double_counting",
    "notation": "H.notation = 'vampire'",
    "new bond": "H.add_exchange('B', 'A', (21, 0, 0), matrix=Z)",
    "new on-site": "H.add_on_site('B', matrix=Z)",
    "removed bond": "H.remove_exchange('A', 'B', R)",
    "removed on-site": "H.remove_on_site('A')",
    "removed atom": "H.remove_atom('B')",
    "filter": "H.filter(custom_filter=lambda p: False)",
    "spiral vector": "H.spiral_vector = [1, 2, 3]",
    "spiral vector in place": "H.spiral_vector[0] = 5",
    "cone axis": "H.cone_axis = [1, 2, 3]",
    "cone axis in place": "H.cone_axis[0] = 5",
    "atom spin": "H.get_atom('A').spin = 9",
    "atom spin vector": "H.get_atom('A').spin_vector = [7, 8, 9]",
    "atom position": "H.get_atom('A').position = [7, 8, 9]",
    "atom position in place": "H.get_atom('A').position[1] = 9",
    "atom g-factor": "H.get_atom('B').g_factor = 9",
    "atom name": "H.get_atom('A').name = 'X'",
}


def check(rep):
    c = rep.ctx()
    ef, of = sym("ef"), sym("of")
    bonds = [b for b in universe() if b.tag in ("AB(0,0,0)", "AB(+,0,0)", "AA(0,0,+)", "BA(0,+,-)", "AA(0,0,0)", "AB(-,+,0)")] if not rep.thorough else universe()
    R = [b for b in bonds if b.tag == "AB(+,0,0)"][0].R
    spec = {"on": (True, False, ef, of), "off": (False, False, ef, of), "on, normalized": (True, True, ef, of), "off, normalized": (False, True, ef, of)}
    sv = {"svA": vec("sA"), "svB": vec("sB")}
    spins = arr([[sym(f"e{i}{x}") for x in "xyz"] for i in range(2)])
    kv, qv, nv_ = vec("k"), vec("qq"), vec("nn")

    def fresh(nt):
        r = build(c, bonds, "A", spec[nt], spiral=True)
        c.run("A.spin_vector = svA\nB.spin_vector = svB", A=r["A"], B=r["B"], **{k: Arr(v.data.copy()) for k, v in sv.items()}).must_pass("spin vectors")
        return r["H"]
    DER = {
        "copy": ("D = H.copy()", "SpinHamiltonian.copy"),
        "deepcopy": ("from copy import deepcopy\nD = deepcopy(H)", "SpinHamiltonian"),
        "filtered": ("D = H.filtered()", "SpinHamiltonian.filtered"),
        "filtered by distance": ("D = H.filtered(min_distance=0, custom_filter=lambda p: True)", "SpinHamiltonian.filtered"),
        "Energy": ("D = Energy(H)", "Energy"),
        "MagnonDispersion": ("D = MagnonDispersion(H)", "MagnonDispersion"),
    }
    USE = {
        "Energy": "v = (D.ferro(spins), D.antiferro(spins, n, q), D.spiral(spins, n, q), list(D.spins), list(D.g_factors))",
        "MagnonDispersion": "v = (D.J(k), D.A(k), D.B(k), D.C(), D.h(k))",
    }

    def value(kind, D):
        if kind not in USE:
            return Snapshot(c, D)
        q = c.run(USE[kind], D=D, spins=Arr(spins.data.copy()), n=Arr(nv_.data.copy()), q=Arr(qv.data.copy()), k=Arr(kv.data.copy()))
        q.must_pass(f"using {kind}")
        return q["v"]

    def compare(kind, v0, v1, what, loc):
        if kind in USE:
            c.same(v1, v0, what, loc=loc)
        else:
            v0.compare(v1, what, loc)
    for nt in spec:
        for kind, (src, where) in DER.items():
            loc = anchor(c, where)
            with rep.ob(f"{nt}: building {kind} keeps the original"):
                H = fresh(nt)
                s0 = Snapshot(c, H)
                q = c.run(src, H=H)
                q.must_pass(f"building {kind}")
                s0.compare(Snapshot(c, H), f"original after building {kind}", loc)
                v0 = value(kind, q["D"])
                s0.compare(Snapshot(c, H), f"original after using {kind}", loc)
                if kind not in USE:
                    s0.compare(v0, f"content of the {kind}", loc)
                compare(kind, v0, value(kind, q["D"]), f"{kind} used twice", loc)
            for m, msrc in MUT.items():
                if nt not in ("on",) and m not in ("a bond's matrix in place", "every bond", "notation", "atom spin", "new bond") and not rep.thorough:
                    continue
                with rep.ob(f"{nt}: {kind} does not follow the original ({m})"):
                    H = fresh(nt)
                    q = c.run(src, H=H)
                    q.must_pass(f"building {kind}")
                    v0 = value(kind, q["D"])
                    if kind == "MagnonDispersion":
                        # a fresh object, so that nothing is cached before the change
                        q = c.run(src, H=H)
                    c.run(msrc, H=H, R=R, Z=mat("Z")).must_pass(f"changing {m}")
                    compare(kind, v0, value(kind, q["D"]), f"{kind} after the original changed ({m})", loc)
                if kind in USE:
                    continue
                with rep.ob(f"{nt}: the original does not follow {kind} ({m})"):
                    H = fresh(nt)
                    s0 = Snapshot(c, H)
                    q = c.run(src, H=H)
                    c.run(msrc, H=q["D"], R=R, Z=mat("Z")).must_pass(f"changing {m}")
                    s0.compare(Snapshot(c, H), f"original after its {kind} changed ({m})", loc)
    with rep.ob("crystal is a copy"):
        H = fresh("on")
        s0 = Snapshot(c, H)
        c.run("X = H.crystal\nX.atoms[0].position = [1, 2, 3]\nX.atoms[0].spin = 8\nX.atoms[0].name = 'Y'", H=H).must_pass("crystal")
        s0.compare(Snapshot(c, H), "Hamiltonian after its crystal changed", anchor(c, "SpinHamiltonian.crystal"))
    # sharing of parameters
    ADDS = {
        "two bonds from one parameter": "H.add_exchange(A, B, (1, 0, 0), P)\nH.add_exchange(A, B, (0, 1, 0), P)",
        "a bond and an on-site term from one parameter": "H.add_exchange(A, B, (1, 0, 0), P)\nH.add_on_site(A, P)",
        "two on-site terms from one parameter": "H.add_on_site(A, P)\nH.add_on_site(B, P)",
        "brackets": "H[A, B, (1, 0, 0)] = P\nH[A, B, (0, 1, 0)] = P\nH[A] = P\nH[B] = P",
        "a stored parameter used again": "H.add_exchange(A, B, (1, 0, 0), P)\nH.add_exchange(B, B, (0, 1, 0), H[A, B, (1, 0, 0)])\nH[A] = H[A, B, (1, 0, 0)]",
        "one matrix": "H.add_exchange(A, B, (1, 0, 0), matrix=m)\nH.add_exchange(A, B, (0, 1, 0), matrix=m)\nH.add_on_site(A, matrix=m)",
        "its own mirror": "H.add_exchange(A, A, (0, 0, 0), P)\nH.add_exchange(A, A, (0, 0, 1), P)",
        "without arguments": "H.add_exchange(A, B, (1, 0, 0))\nH.add_exchange(A, B, (0, 1, 0))\nH.add_on_site(A)\nH.add_on_site(B)",
    }
    for nt in ("on", "off", None):
        for w, src in ADDS.items():
            with rep.ob(f"no sharing, {nt or 'undefined'}: {w}"):
                r = build(c, [], [], spec[nt] if nt else None)
                H = r["H"]
                m = mat("m")
                q = c.run("P = MatrixParameter(matrix=m)\n" + src + "\nps = [p for a, b, R, p in H.exchange] + [p for a, p in H.on_site]\nms = [p.matrix for p in ps]\nsame = [x is y for i, x in enumerate(ps) for y in ps[:i]]\n",
                          H=H, A=r["A"], B=r["B"], m=m)
                q.must_pass(w)
                loc = anchor(c, "SpinHamiltonian.add_exchange")
                if any(x is True for g, x in q["same"].el):
                    raise Bad(f"{w}: two terms are one parameter object", loc)
                ms = [x for g, x in q["ms"].el]
                for i, x in enumerate(ms):
                    for y in ms[:i]:
                        if shares(x, y):
                            raise Bad(f"{w}: two terms share one matrix", loc)
                    if shares(x, m):
                        raise Bad(f"{w}: a term shares its matrix with the caller's array", loc)
                q2 = c.run("P.xx = 99\nm[0, 0] = 98\nms = [np.array(p.matrix) for p in ps]", P=q["P"], ps=q["ps"], m=m)
                q2.must_pass("changing the caller's objects")
                zero = arr([[0] * 3] * 3)
                for g, x in q2["ms"].el:
                    if w == "without arguments":
                        c.same(x, zero, "parameter without arguments", loc=loc)
                    else:
                        a = differ(c.I, x, mat("m"))
                        b = differ(c.I, x, transpose(mat("m")))
                        if feasible(a) and feasible(b):
                            raise Bad(f"{w}: a stored parameter follows the caller's object", loc)
    rep.minimum = 150
