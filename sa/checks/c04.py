"""Abstract interpretation of turning double counting off on abstract Hamiltonians with bonds of
every class (27 sign patterns of a symbolic cell vector x atom pairs x both orders of the atom
indices), where only the canonical bond, only its mirror, both, or both with different matrices are
stored, in either order of insertion: the final dictionary is compared with the required one."""
from ..ham import *


def check(rep):
    c = rep.ctx()
    ef, of = sym("ef"), sym("of")
    K = {a: mat("K" + a) for a in "AB"}
    half = halfspace()
    for iname, index in (("A before B", {"A": 1, "B": 2}), ("B before A", {"A": 7, "B": 3})):
        canon = []
        for a, b in (("A", "B"), ("B", "A"), ("A", "A"), ("B", "B")):
            for p in PATTERNS:
                tag = f"{a}{b}{pname(p)}"
                x = Bond(a, b, cellvec(p, tag), mat("J" + tag), tag)
                if x.canonical(index) and not (a != b and p == (0, 0, 0) and index[a] > index[b]):
                    canon.append(x)
        for start in ("undefined", "off", "on"):
            for what in ("canonical only", "mirror only", "both", "mirror first, different matrices", "canonical first, different matrices"):
                if start == "on" and "different" not in what and what != "both":
                    continue
                for how, src in (("double_counting", "H.double_counting = False"), ("notation", "H.notation = (False, False, ef, of)")):
                    with rep.ob(f"{iname}, {what}, double counting {start} -> off by {how}"):
                        loc = anchor(c, "SpinHamiltonian.double_counting")
                        r = build(c, [], "AB", {"undefined": None, "off": (False, False, ef, of), "on": (True, False, ef, of)}[start], index=index)
                        H = r["H"]
                        want = []
                        f = N.const(2) if start == "on" else N.const(1)
                        for x in canon:
                            mm = mat("Jm" + x.tag)
                            seq = {"canonical only": [(x, x.J)], "mirror only": [(x.mirror, mm)], "both": [(x, x.J), (x.mirror, transpose(x.J))],
                                   "mirror first, different matrices": [(x.mirror, mm), (x, x.J)], "canonical first, different matrices": [(x, x.J), (x.mirror, mm)]}[what]
                            if x.self_mirror:
                                seq = [(x, x.J)]
                            if start == "on":
                                # the mirror is stored by itself; a different matrix of the mirror is set afterwards
                                seq = seq[:1] if not x.self_mirror else seq
                            for b, J in seq:
                                c.run(f"H.add_exchange({b.a}, {b.b}, R, matrix=J)", H=H, A=r["A"], B=r["B"], R=b.R, J=Arr(J.data.copy())).must_pass("adding")
                            stored = {b.key(c.I): J for b, J in seq}
                            if x.self_mirror:
                                want.append((x, x.J))
                            elif start == "on" and "different" in what:
                                # make the two matrices of the pair different in place
                                c.run(f"H[{x.a}, {x.b}, R].matrix = J\nH[{x.b}, {x.a}, Rm].matrix = Jm", H=H, A=r["A"], B=r["B"], R=x.R, Rm=x.mirror.R,
                                      J=Arr(x.J.data.copy()), Jm=Arr(mm.data.copy())).must_pass("setting")
                                want.append((x, scale(x.J, f)))
                            elif what == "mirror only":
                                want.append((x, transpose(mm)))
                            elif start == "on":
                                want.append((x, scale(x.J, f)))
                            elif start == "off" and what != "canonical only" and start == "off":
                                want.append((x, x.J))
                            else:
                                want.append((x, x.J))
                        c.run(src, H=H, ef=ef, of=of).must_pass("turning double counting off")
                        expect_terms(c, observe(c, H), want, K, "turning double counting off", loc)
                        # idempotent
                        c.run(src, H=H, ef=ef, of=of).must_pass("turning double counting off again")
                        expect_terms(c, observe(c, H), want, K, "turning double counting off twice", loc)
    rep.minimum = 30
