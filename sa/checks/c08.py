"""Abstract interpretation of the exchange-like view on Hamiltonians with bonds of every class and
symbolic factors: multiset of yielded terms, their value numbers, the reported length, aliasing and
the stored parameters afterwards are compared with the required ones."""
from ..ham import *


def check(rep):
    c = rep.ctx()
    ef, of = sym("ef"), sym("of")
    bonds = universe()
    few = [b for b in bonds if b.tag in ("AB(0,0,0)", "AB(+,0,0)", "AA(0,0,+)", "BA(0,+,-)")]
    zero = (0, 0, 0)
    for nt in ((True, False, ef, of), (True, True, ef, of), (False, False, ef, of), (False, True, ef, of), (True, False, Fraction_(1, 2), 1), (False, True, -1, -1), (True, True, Fraction_(-1, 2), -1), (False, False, 2, 3)):
        for on in ("AB", "B", ""):
            for bs, bname in ((bonds, "all classes"), (few, "few bonds"), ([], "no bonds")):
                with rep.ob(f"notation {tuple(map(str, nt))}, on-site {on or 'none'}, {bname}"):
                    loc = anchor(c, "SpinHamiltonian.exchange_like")
                    r = build(c, bs, on, nt, env={"SA": N.const(0)} if on == "B" and not nt[1] else {"SB": N.const(0)} if on == "AB" and bs is few and not nt[1] else None)
                    H = r["H"]
                    st0 = observe(c, H)
                    f = N.const(nt[3]) / N.const(nt[2])
                    for rnd in range(2):
                        q = c.run("v = H.exchange_like\nn0 = len(v)\nx = [(a.name, b.name, R, np.array(p.matrix), p) for a, b, R, p in v]\nn1 = len(H.exchange_like)\n", H=H)
                        q.must_pass("iterating over the exchange-like terms")
                        want_n = len(st0.ex) + len(st0.on)
                        c.same(q["n0"], want_n, "length of the view", loc=loc)
                        c.same(q["n1"], want_n, "length of the view", loc=loc)
                        items = [(g, t) for g, t in q["x"].el if feasible(g)]
                        if len(items) != want_n:
                            raise Bad(f"the view yields {len(items)} terms, the Hamiltonian has {want_n}", loc)
                        left_ex = dict(st0.ex)
                        left_on = dict(st0.on)
                        for g, (a, b, R, m, p) in items:
                            k = (a, b, c.I.hkey(R))
                            m = generic(c.I, m)
                            cands = []
                            if k in left_ex:
                                cands.append(("ex", left_ex[k][1]))
                            if a == b and c.I.hkey(R) == c.I.hkey(zero) and a in left_on:
                                cands.append(("on", scale(left_on[a][1], f)))
                            for kind, w in cands:
                                gd = differ(c.I, m, w)
                                if gd == FALSE or not feasible(gd):
                                    (left_ex if kind == "ex" else left_on).pop(k if kind == "ex" else a)
                                    break
                            else:
                                if not cands:
                                    raise Bad(f"the view yields the term ({a}, {b}, {tuple(map(str, R))}) that is not in the Hamiltonian or yields it twice", loc)
                                c.same(m, cands[-1][1], f"exchange-like term ({a}, {b}, {tuple(map(str, R))})", loc=loc)
                        if left_ex or left_on:
                            raise Bad(f"the view misses the terms {list(left_ex)[:3]} {list(left_on)}", loc)
                        st1 = observe(c, H)
                        for k in st0.ex:
                            c.same(st1.ex[k][1], st0.ex[k][1], f"stored parameter of {k[:2]} after iterating", loc=loc)
                        for a in st0.on:
                            c.same(st1.on[a][1], st0.on[a][1], f"stored on-site parameter of {a} after iterating", loc=loc)
    with rep.ob("two views at the same time are independent"):
        r = build(c, few, "AB", (True, False, ef, of))
        q = c.run("n = 0\nfor t in H.exchange_like:\n    for u in H.exchange_like:\n        n = n + 1\n", H=r["H"])
        q.must_pass("nested iteration")
        n = len(few) * 2 + 2
        c.same(q["n"], n * n, "nested iteration over the view", loc=anchor(c, "SpinHamiltonian.exchange_like"))
    with rep.ob("the view needs a defined notation"):
        r = build(c, few, "AB", None)
        c.run("for t in H.exchange_like:\n    pass", H=r["H"]).must_raise("exchange-like view without notation", "NotationError")
    rep.minimum = 40
