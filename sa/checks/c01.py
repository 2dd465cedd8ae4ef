"""Value-numbering analysis of the notation setters on an abstract Hamiltonian
that holds one bond of every class (27 sign patterns of the cell vector times the
atom pairs, so every branch on the cell vector and on the atoms is covered, with
symbolic matrices, spins and factors).  For every combination of old and new
double counting and normalisation and for the relations between old and new
factors that a branch can distinguish, the gated value of every parameter must be
the old value times exactly the energy-preserving factor, and the energy
coefficient of every unordered pair and of every on-site term must be unchanged."""
from ..ham import *

LOC = {"double_counting": "SpinHamiltonian.double_counting", "spin_normalized": "SpinHamiltonian.spin_normalized",
       "exchange_factor": "SpinHamiltonian.exchange_factor", "on_site_factor": "SpinHamiltonian.on_site_factor",
       "notation": "SpinHamiltonian.notation"}


def coefficients(c, st, bonds, dc, sn, ef, of, S):
    """Energy coefficient matrices: {unordered pair: matrix}, {atom: matrix}."""
    I = c.I
    out, on = {}, {}
    for b in bonds:
        m = None
        for x in ([b] if b.self_mirror else [b, b.mirror]):
            k = x.key(I)
            if k in st.ex:
                v = st.ex[k][1].data
                v = v if x is b else v.T
                m = v if m is None else m + v
        if m is None:
            raise Bad(f"bond {b} ({b.tag}) vanished")
        m = m * ef
        if not sn:
            m = m * (S[b.a] * S[b.b])
        out[b.tag] = m
    for a, (g, v) in st.on.items():
        m = v.data * of
        if not sn:
            m = m * (S[a] * S[a])
        on[a] = m
    return out, on


def verify(rep, c, r, bonds, old, new, S, how, src, what, on="AB"):
    """src changes the notation of H from old to new."""
    H = r["H"]
    st0 = observe(c, H)
    env = {"H": H, "dc": new[0], "sn": new[1], "ef": new[2], "of": new[3]}
    q = c.run(src, **env)
    q.must_pass(what)
    st1 = observe(c, H)
    (dc0, sn0, ef0, of0), (dc1, sn1, ef1, of1) = old, new
    ef0, of0, ef1, of1 = map(N.const, (ef0, of0, ef1, of1))
    loc = anchor(c, LOC[how])
    C0, O0 = coefficients(c, st0, bonds, dc0, sn0, ef0, of0, S)
    C1, O1 = coefficients(c, st1, bonds, dc1, sn1, ef1, of1, S)
    for b in bonds:
        c.same(Arr(C1[b.tag]), Arr(C0[b.tag]), f"{what}: energy of the pair {b} ({b.tag})", loc=loc)
    for a in on:
        if a not in O0:
            continue
        if a not in O1:
            raise Bad(f"{what}: on-site term of {a} vanished", loc)
        c.same(Arr(O1[a]), Arr(O0[a]), f"{what}: on-site energy of {a}", loc=loc)
    # every stored parameter is scaled by exactly the factor of its bond
    I = c.I
    for b0 in bonds:
        for b in ([b0] if b0.self_mirror else [b0, b0.mirror]):
            k = b.key(I)
            if k not in st0.ex or k not in st1.ex:
                continue
            f = ef0 / ef1
            if sn0 and not sn1:
                f = f / (S[b.a] * S[b.b])
            if sn1 and not sn0:
                f = f * (S[b.a] * S[b.b])
            if not b.self_mirror:
                if dc0 and not dc1:
                    f = f * N.const(2)
                if dc1 and not dc0:
                    f = f * HALF
            c.same(st1.ex[k][1], scale(st0.ex[k][1], f), f"{what}: parameter of {b} ({b.tag})", loc=loc)
    for a in st0.on:
        f = of0 / of1
        if sn0 and not sn1:
            f = f / (S[a] * S[a])
        if sn1 and not sn0:
            f = f * (S[a] * S[a])
        c.same(st1.on[a][1], scale(st0.on[a][1], f), f"{what}: on-site parameter of {a}", loc=loc)
    n = c.run("n = H.notation", H=H)
    n.must_pass("reading the notation")
    c.same(n["n"], (bool(new[0]), bool(new[1]), N.const(new[2]), N.const(new[3])), f"{what}: notation afterwards", loc=loc)


def check(rep):
    c = rep.ctx()
    S = {"A": sym("SA", positive=True), "B": sym("SB", positive=True)}
    bonds = universe()
    small = [b for b in bonds if b.tag in ("AB(0,0,0)", "AA(0,0,0)", "AB(+,0,0)", "BA(+,0,0)", "AB(-,+,0)", "AA(0,0,-)", "AA(0,+,-)", "BA(0,0,-)")]
    ef, of, ef2, of2 = sym("ef"), sym("of"), sym("ef2"), sym("of2")
    B2 = (True, False)
    # all four at once and one by one, all combinations of the flags
    for dc0 in B2:
        for sn0 in B2:
            old = (dc0, sn0, ef, of)
            for dc1 in B2:
                for sn1 in B2:
                    new = (dc1, sn1, ef2, of2)
                    for how, src in (("notation", "H.notation = (dc, sn, ef, of)"),
                                     ("notation", "H.of_ = 0\nH.on_site_factor = of\nH.exchange_factor = ef\nH.spin_normalized = sn\nH.double_counting = dc")):
                        with rep.ob(f"{old[:2]} -> {new[:2]} {'at once' if 'dc, sn' in src else 'one by one'}"):
                            r = build(c, bonds if rep.thorough or "dc, sn" in src else small, "AB", old)
                            verify(rep, c, r, bonds if rep.thorough or "dc, sn" in src else small, old, new, S, how, src.replace("H.of_ = 0\n", ""), f"notation {old[:2]} -> {new[:2]}")
    # single setters
    for dc0 in B2:
        for sn0 in B2:
            old = (dc0, sn0, ef, of)
            for name, new in (("double_counting", (not dc0, sn0, ef, of)), ("double_counting", (dc0, sn0, ef, of)),
                              ("spin_normalized", (dc0, not sn0, ef, of)), ("spin_normalized", (dc0, sn0, ef, of)),
                              ("exchange_factor", (dc0, sn0, ef2, of)), ("exchange_factor", (dc0, sn0, ef, of)),
                              ("exchange_factor", (dc0, sn0, -ef, of)), ("on_site_factor", (dc0, sn0, ef, of2)),
                              ("on_site_factor", (dc0, sn0, ef, of)), ("on_site_factor", (dc0, sn0, ef, -of))):
                v = {"double_counting": "dc", "spin_normalized": "sn", "exchange_factor": "ef", "on_site_factor": "of"}[name]
                with rep.ob(f"{name} of {old} -> {new}"):
                    bs = bonds if name == "double_counting" or rep.thorough else small
                    r = build(c, bs, "AB", old)
                    verify(rep, c, r, bs, old, new, S, name, f"H.{name} = {v}", f"{name} {old} -> {new}")
    # integers and truth values in place of booleans
    for a, b in ((1, 0), (0, 1), (1, 1), (0, 0)):
        for name, v in (("double_counting", "dc"), ("spin_normalized", "sn")):
            with rep.ob(f"{name} {a} -> {b} given as integers"):
                old = (bool(a), bool(a), ef, of)
                new = (bool(b), bool(a), ef, of) if v == "dc" else (bool(a), bool(b), ef, of)
                r = build(c, small, "AB", (a, a, ef, of))
                verify(rep, c, r, small, old, new, S, name, f"H.{name} = int({v})", f"{name} {a} -> {b}")
    # factors: constants and special relations
    consts = [(1, -1), (-1, 1), (0.5, 1), (1, 2), (2, 1), (-0.5, 0.5), (1, 3), (-1, 0.5), (3, 4)]
    for f0, f1 in consts:
        for dc in B2:
            with rep.ob(f"factors {f0} -> {f1}, double counting {dc}"):
                old, new = (dc, False, f0, f1), (dc, False, f1, f0)
                r = build(c, small, "AB", old)
                verify(rep, c, r, small, old, new, S, "notation", "H.exchange_factor = ef\nH.on_site_factor = of", f"factors {f0} -> {f1}")
    names = {"magnopy": (True, False, 0.5, 1), "tb2j": (True, True, -1, -1), "spinw": (True, False, 1, 1), "vampire": (True, True, -0.5, -1)}
    for n0, old in names.items():
        for n1, new in names.items():
            with rep.ob(f"notation {n0} -> {n1}"):
                r = build(c, small, "AB", n0)
                verify(rep, c, r, small, old, new, S, "notation", f"H.notation = '{n1}'", f"notation {n0} -> {n1}")
    # special spins
    for sa, sb in ((1, 1), (Fraction_(1, 2), Fraction_(3, 2)), (2, Fraction_(1, 2)), (Fraction_(5, 2), 1)):
        for sn0 in B2:
            with rep.ob(f"normalisation {sn0} -> {not sn0} with spins {sa}, {sb}"):
                old, new = (True, sn0, ef, of), (True, not sn0, ef, of)
                r = build(c, small, "AB", old, env={"SA": N.const(sa), "SB": N.const(sb)})
                verify(rep, c, r, small, old, new, {"A": N.const(sa), "B": N.const(sb)}, "spin_normalized", "H.spin_normalized = sn", f"spin_normalized {sn0} -> {not sn0}")
    # three atoms, sequences of changes and change after further editing
    pairs = [("A", "B"), ("B", "C"), ("C", "A"), ("C", "C"), ("B", "B")]
    S3 = dict(S, C=sym("SC", positive=True))
    b3 = universe(pairs, [(0, 0, 0), (1, 0, -1), (-1, 0, 0), (0, 0, 1)])
    steps = ["H.double_counting = not H.double_counting", "H.spin_normalized = not H.spin_normalized", "H.exchange_factor = fa", "H.on_site_factor = fb"]
    import itertools
    for seq in itertools.permutations(range(4), 2):
        for dc, sn in ((True, False), (False, True)) if not rep.thorough else itertools.product(B2, B2):
            old = [dc, sn, ef, of]
            new = list(old)
            for i in seq:
                new[i] = (not old[i]) if i < 2 else (ef2 if i == 2 else of2)
            with rep.ob(f"three atoms: {' then '.join(steps[i] for i in seq)} from {(dc, sn)}"):
                r = build(c, b3, "ABC", tuple(old), atoms="ABC")
                c.scn.vars["fa"], c.scn.vars["fb"] = ef2, of2
                verify(rep, c, r, b3, tuple(old), tuple(new), S3, "notation", "\n".join(steps[i] for i in seq), "sequence of notation changes", on="ABC")
    # atoms that share their name and differ by index
    for old, new in (((True, False, ef, of), (False, True, ef2, of2)), ((False, True, ef, of), (True, False, ef2, of2))):
        for src in ("H.notation = (dc, sn, ef, of)", "H.double_counting = dc\nH.spin_normalized = sn\nH.exchange_factor = ef\nH.on_site_factor = of"):
            with rep.ob(f"two atoms with the same name: {src.splitlines()[0]}, {old[:2]} -> {new[:2]}"), named(A="X", B="X"):
                r = build(c, small, "AB", old)
                verify(rep, c, r, small, old, new, S, "notation", src, "notation with atoms of the same name")
    # a single bond, a single on-site term
    for b in bonds if rep.thorough else small:
        for one in ("", "B"):
            for dc0 in B2:
                for sn0 in B2:
                    with rep.ob(f"only the bond {b.tag}{', one on-site term' if one else ''}, from {(dc0, sn0)}"):
                        old, new = (dc0, sn0, ef, of), (not dc0, not sn0, ef2, of2)
                        r = build(c, [b], one, old)
                        verify(rep, c, r, [b], old, new, S, "notation", "H.notation = (dc, sn, ef, of)", f"notation of a Hamiltonian with the single bond {b.tag}")
    for only in ("exchange", "on-site", "nothing"):
        with rep.ob(f"Hamiltonian with only {only}"):
            old, new = (True, True, ef, of), (False, False, ef2, of2)
            bs = small if only == "exchange" else []
            r = build(c, bs, "AB" if only == "on-site" else "", old)
            verify(rep, c, r, bs, old, new, S, "notation", "H.notation = (dc, sn, ef, of)", f"notation of a Hamiltonian with only {only}")
    rep.minimum = 80
