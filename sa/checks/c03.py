"""Abstract interpretation of the operations that add, overwrite and remove bonds, on bonds of
every class (27 sign patterns of a symbolic cell vector x ordered atom pairs): the abstract
bond dictionary after the operation is compared with the required one, entry by entry, including
the transposition of the symbolic matrix of the mirror."""
from ..ham import *

ADD = {
    "add_exchange with objects": "H.add_exchange({a}, {b}, R, MatrixParameter(matrix=J))",
    "add_exchange with names": "H.add_exchange('{a}', '{b}', R, MatrixParameter(matrix=J))",
    "add_exchange with matrix": "H.add_exchange({a}, {b}, R, matrix=J)",
    "bracket with objects": "H[{a}, {b}, R] = MatrixParameter(matrix=J)",
    "bracket with names": "H['{a}', '{b}', R] = MatrixParameter(matrix=J)",
}
REM = {
    "remove_exchange with objects": "H.remove_exchange({a}, {b}, R)",
    "remove_exchange with names": "H.remove_exchange('{a}', '{b}', R)",
    "silent remove_exchange": "H.remove_exchange({a}, {b}, R, raise_if_no_bond=False)",
    "del with objects": "del H[{a}, {b}, R]",
    "del with names": "del H['{a}', '{b}', R]",
}


def envof(r, b, J=None):
    e = {k: r[k] for k in "ABC" if not isinstance(r.get(k), type(Unbound))}
    e.update(H=r["H"], R=b.R, J=Arr((J or b.J).data.copy()))
    return e


def check(rep):
    c = rep.ctx()
    ef, of = sym("ef"), sym("of")
    K = {a: mat("K" + a) for a in "AB"}
    base = [Bond("A", "B", (9, 9, 9), mat("Jother1"), "other1"), Bond("B", "B", (0, 9, -9), mat("Jother2"), "other2"), Bond("B", "A", (-9, 0, 9), mat("Jother3"), "other3")]
    uni = universe((("A", "B"), ("B", "A"), ("A", "A"), ("B", "B")))
    if not any(b.tag == "BA(0,0,0)" for b in uni):
        uni.append(Bond("B", "A", (0, 0, 0), mat("JBA0"), "BA(0,0,0)"))

    def both(bs):
        out = []
        for b, m in bs:
            out.append((b, m))
            if not b.self_mirror:
                out.append((b.mirror, transpose(m)))
        return out
    some = ("(0,0,0)", "(+,0,-)", "(-,0,0)", "(0,-,+)", "(0,0,-)", "(+,+,+)")

    def skip(nn, w, forms, b):
        if rep.thorough:
            return False
        if nn == "on, normalized":
            return not b.tag.endswith(("(0,0,0)", "(+,0,-)"))
        return w != forms[0] and not b.tag.endswith(some)
    notations = {"on": (True, False, ef, of), "on, normalized": (True, True, ef, of), "off": (False, False, ef, of), "undefined": None}
    for nn, nt in notations.items():
        on = nt is not None and nt[0]
        fb = both if on else (lambda bs: list(bs))
        r0 = build(c, base, "AB", nt)
        st = observe(c, r0["H"])
        stored = [(b, st.ex[b.key(c.I)][1]) for b in base] if all(b.key(c.I) in st.ex for b in base) else None
        old = [(Bond(k[0], k[1], st.R[k], m, "present"), m) for k, (g, m) in st.ex.items()]
        onst = {a: m for a, (g, m) in st.on.items()}
        for w, src in ADD.items():
            for b in uni:
                if skip(nn, w, list(ADD), b):
                    continue
                with rep.ob(f"double counting {nn}: {w}, {b.tag}"):
                    r = c.run("H2 = H.copy()\nA = H2.get_atom('A')\nB = H2.get_atom('B')", H=r0["H"])
                    r.must_pass("copy")
                    H = r["H2"]
                    e = {"H": H, "A": r["A"], "B": r["B"], "R": b.R, "J": Arr(b.J.data.copy())}
                    q = c.run(src.format(a=b.a, b=b.b), **e)
                    loc = anchor(c, "SpinHamiltonian.add_exchange")
                    q.must_pass(w)
                    expect_terms(c, observe(c, H), old + fb([(b, b.J)]), onst, f"double counting {nn}: {w}", loc)
                    # overwrite from either side
                    J2 = mat("J2")
                    for x in ([b] if b.self_mirror or (not on) else [b, b.mirror]):
                        e.update(R=x.R, J=Arr(J2.data.copy()))
                        c.run(src.format(a=x.a, b=x.b), **e).must_pass(w + " on a present bond")
                        expect_terms(c, observe(c, H), old + fb([(x, J2)]), onst, f"double counting {nn}: overwriting, {w}", loc)
        for w, src in REM.items():
            for b in uni:
                if skip(nn, w, list(REM), b):
                    continue
                for x in ([b] if b.self_mirror else [b, b.mirror]):
                    with rep.ob(f"double counting {nn}: {w} of {'the mirror of ' if x is not b else ''}{b.tag}"):
                        loc = anchor(c, "SpinHamiltonian.remove_exchange")
                        r = c.run("H2 = H.copy()\nA = H2.get_atom('A')\nB = H2.get_atom('B')", H=r0["H"])
                        H = r["H2"]
                        e = {"H": H, "A": r["A"], "B": r["B"], "R": b.R, "J": Arr(b.J.data.copy())}
                        c.run(f"H.add_exchange({b.a}, {b.b}, R, matrix=J)", **e).must_pass("adding")
                        extra = []
                        if not on and not b.self_mirror:
                            # the mirror is a bond of its own
                            mm = mat("Jm")
                            e.update(R=b.mirror.R, J=Arr(mm.data.copy()))
                            c.run(f"H.add_exchange({b.b}, {b.a}, R, matrix=J)", **e).must_pass("adding the mirror")
                            extra = [(b.mirror, mm)] if x is b else [(b, b.J)]
                        e.update(R=x.R)
                        c.run(src.format(a=x.a, b=x.b), **e).must_pass(w)
                        expect_terms(c, observe(c, H), old + extra, onst, f"double counting {nn}: {w}", loc)
    # turning double counting on, from undefined and from off, with none, some or all mirrors present
    for start in ("undefined", "off"):
        for which in ("missing", "present"):
            for how, src in (("double_counting", "H.double_counting = True"), ("notation", "H.notation = (True, False, ef, of)")):
                with rep.ob(f"double counting {start} -> on by {how}, mirrors {which}"):
                    loc = anchor(c, "SpinHamiltonian.double_counting")
                    cand = [b for b in uni if b.tag != "BA(0,0,0)"]
                    bs = [(b, b.J) for b in cand]
                    r = build(c, [], "AB", None if start == "undefined" else (False, False, ef, of))
                    H = r["H"]
                    for b, m in bs:
                        c.run(f"H.add_exchange({b.a}, {b.b}, R, matrix=J)", **envof(r, b)).must_pass("adding")
                        if which == "present" and not b.self_mirror:
                            c.run(f"H.add_exchange({b.b}, {b.a}, R, matrix=J)", **envof(r, b.mirror, mat("Jmir" + b.tag))).must_pass("adding")
                    c.run(src, H=H, ef=ef, of=of).must_pass("turning double counting on")
                    s2 = observe(c, H)
                    f = HALF if start == "off" else N.const(1)
                    want = []
                    for b, m in bs:
                        sf = N.const(1) if b.self_mirror else f
                        want.append((b, scale(m, sf)))
                        if not b.self_mirror:
                            want.append((b.mirror, scale(transpose(m) if which == "missing" else mat("Jmir" + b.tag), sf)))
                    expect_terms(c, s2, want, {a: mat("K" + a) for a in "AB"}, "turning double counting on", loc)
    # sharing: changing one bond of the pair later
    with rep.ob("the two bonds of a pair do not share their matrix"):
        r = build(c, base[:1], "A", (True, False, ef, of))
        b = base[0]
        q = c.run("p = H[A, B, R]\nq = H[B, A, Rm]\ns = p is q\npm = p.matrix\nqm = q.matrix", H=r["H"], A=r["A"], B=r["B"], R=b.R, Rm=b.mirror.R)
        q.must_pass("reading the pair")
        if q["s"] is True or shares(q["pm"], q["qm"]):
            raise Bad("the bond and its mirror share one parameter", anchor(c, "SpinHamiltonian.add_exchange"))
    rep.minimum = 300
