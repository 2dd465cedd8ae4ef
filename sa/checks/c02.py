"""Abstract interpretation of the notation properties on a Hamiltonian with one bond of
every class and symbolic parameters: reads of undefined parts end in NotationError and in
nothing else, first assignments leave the value number of every stored parameter as it was,
names map to the documented table in any letter case, rejected values raise ValueError and
leave both the notation and every parameter unchanged."""
from ..ham import *

NAMES = {"magnopy": (True, False, Fraction_(1, 2), 1), "tb2j": (True, True, -1, -1), "spinw": (True, False, 1, 1), "vampire": (True, True, Fraction_(-1, 2), -1)}
PARTS = ("double_counting", "spin_normalized", "exchange_factor", "on_site_factor")
READ = "\n".join(f"""
try:
    v_{p} = H.{p}
except magnopy.exceptions.NotationError:
    v_{p} = 'undefined'
""" for p in PARTS)


def read(c, H):
    r = c.run(READ, H=H)
    r.must_pass("reading the notation")
    return tuple(r["v_" + p] for p in PARTS)


def spread(st):
    return {k: m for k, (g, m) in st.ex.items()}, {k: m for k, (g, m) in st.on.items()}


def unchanged(c, st0, st1, what, loc, mirrors=False):
    for k, (g, m) in st0.ex.items():
        if k not in st1.ex or feasible(M.neg(st1.ex[k][0])):
            raise Bad(f"{what}: bond ({k[0]}, {k[1]}, {st0.R[k]}) is lost", loc)
        c.same(st1.ex[k][1], m, f"{what}: parameter of ({k[0]}, {k[1]}, {tuple(map(str, st0.R[k]))})", loc=loc)
    if not mirrors:
        for k, (g, m) in st1.ex.items():
            if k not in st0.ex and feasible(g):
                raise Bad(f"{what}: bond ({k[0]}, {k[1]}, {st1.R[k]}) appears", loc)
    if set(st0.on) != set(st1.on):
        raise Bad(f"{what}: on-site terms change", loc)
    for a in st0.on:
        c.same(st1.on[a][1], st0.on[a][1], f"{what}: on-site parameter of {a}", loc=loc)


def check(rep):
    c = rep.ctx()
    ef, of = sym("ef"), sym("of")
    bonds = [b for b in universe() if b.canonical(ATOMS)]
    few = [b for b in bonds if b.tag in ("AB(0,0,0)", "AA(0,0,0)", "AB(+,0,0)", "BA(0,+,-)", "AA(0,0,+)")]
    errs = c.mag.vars.get("exceptions")
    # undefined parts
    for p in PARTS + ("notation",):
        with rep.ob(f"{p} read before it is set"):
            r = build(c, few, "AB")
            q = c.run(f"v = H.{p}", H=r["H"])
            q.must_raise(f"reading {p} before it is set", "NotationError")
        for bs, on in (((), ""), (few, ""), ((), "AB")):
            with rep.ob(f"{p} read before it is set, {len(bs)} bonds, on-site terms {on or 'none'}"):
                r = build(c, bs, on)
                q = c.run(f"v = H.{p}", H=r["H"])
                q.must_raise(f"reading {p} before it is set", "NotationError")
                for o in PARTS:
                    if p not in (o, "notation"):
                        c.run(f"H.{o} = 1", H=r["H"]).must_pass(f"setting {o}")
                q = c.run(f"v = H.{p}", H=r["H"])
                if p != "notation":
                    q.must_raise(f"reading {p} when the other three are set", "NotationError")
    setters = [("double_counting", True), ("double_counting", False), ("spin_normalized", True), ("spin_normalized", False), ("exchange_factor", ef), ("exchange_factor", -1),
               ("exchange_factor", Fraction_(1, 2)), ("on_site_factor", of), ("on_site_factor", -1), ("on_site_factor", 2)]
    for p, v in setters:
        with rep.ob(f"only {p} = {v} is set: the others stay undefined, parameters unchanged"):
            loc = anchor(c, f"SpinHamiltonian.{p}")
            bs = few if p != "double_counting" else bonds
            r = build(c, bs, "AB")
            st0 = observe(c, r["H"])
            q = c.run(f"H.{p} = v", H=r["H"], v=v)
            q.must_pass(f"setting {p}")
            st1 = observe(c, r["H"])
            unchanged(c, st0, st1, f"first assignment of {p}", loc, mirrors=v is True and p == "double_counting")
            if v is True and p == "double_counting":
                expect_terms(c, st1, [(b, b.J) for b in bs] + [(b.mirror, b.mirror.J) for b in bs if not b.self_mirror], {a: mat("K" + a) for a in "AB"}, f"first assignment of {p}", loc)
            got = read(c, r["H"])
            for n, x in zip(PARTS, got):
                if n == p:
                    c.same(x, v if isinstance(v, (bool, Num)) else N.const(v), f"{p} after its first assignment", loc=loc)
                else:
                    c.same(x, "undefined", f"{n} after setting only {p}", loc=anchor(c, f"SpinHamiltonian.{n}"))
            for n in PARTS + ("notation",):
                if n != p:
                    q = c.run(f"v = H.{n}", H=r["H"])
                    q.must_raise(f"reading {n} when only {p} is set", "NotationError")
    # a first assignment after the other parts are already set
    import itertools
    for last, v in setters:
        rest = [p for p in PARTS if p != last]
        with rep.ob(f"{last} = {v} set after the other three"):
            r = build(c, few, "AB")
            vals = {"double_counting": False, "spin_normalized": True, "exchange_factor": ef, "on_site_factor": of}
            for p in rest:
                c.run(f"H.{p} = v", H=r["H"], v=vals[p]).must_pass(f"setting {p}")
            st0 = observe(c, r["H"])
            c.run(f"H.{last} = v", H=r["H"], v=v).must_pass(f"setting {last}")
            st1 = observe(c, r["H"])
            unchanged(c, st0, st1, f"first assignment of {last}", anchor(c, f"SpinHamiltonian.{last}"), mirrors=v is True and last == "double_counting")
            vals[last] = v
            q = c.run("n = H.notation", H=r["H"])
            q.must_pass("reading the notation")
            want = tuple(vals[p] if isinstance(vals[p], (bool, Num)) else N.const(vals[p]) for p in PARTS)
            c.same(q["n"], want, "notation", loc=anchor(c, "SpinHamiltonian.notation"))
    # names, tuples, lists; by assignment and in the constructor
    forms = []
    for n, t in NAMES.items():
        for s in (n, n.upper(), n.capitalize(), "".join(x.upper() if i % 2 else x for i, x in enumerate(n))):
            forms.append((s, t))
    forms += [((True, False, ef), (True, False, ef, ef)), ((False, True, ef), (False, True, ef, ef)), ((False, False, ef, of), (False, False, ef, of)),
              ((True, True, ef, of), (True, True, ef, of)), ((1, 0, 2), (True, False, 2, 2)), ((0, 1, 2, 3), (False, True, 2, 3)),
              ((True, True, Fraction_(1, 2)), (True, True, Fraction_(1, 2), Fraction_(1, 2))), ((False, True, "0.5", "-1"), (False, True, Fraction_(1, 2), -1))]
    for f, t in forms:
        want = tuple(x if isinstance(x, (bool, Num)) else N.const(x) for x in t)
        for src in ("H.notation = f", "H.notation = list(f)"):
            if isinstance(f, str) and "list" in src:
                continue
            with rep.ob(f"{src} with {f} on an undefined notation"):
                loc = anchor(c, "SpinHamiltonian.notation")
                r = build(c, few, "AB")
                st0 = observe(c, r["H"])
                q = c.run(src + "\nn = H.notation", H=r["H"], f=f)
                q.must_pass(f"{src} with {f}")
                c.same(q["n"], want, f"notation {f}", loc=loc)
                unchanged(c, st0, observe(c, r["H"]), f"first notation {f}", loc, mirrors=t[0])
        with rep.ob(f"SpinHamiltonian(notation={f})"):
            q = c.run("H = SpinHamiltonian(cell=cell, notation=f)\nn = H.notation", cell=mat("cell"), f=f)
            q.must_pass("constructor with notation")
            c.same(q["n"], want, f"notation of SpinHamiltonian(notation={f})", loc=anchor(c, "SpinHamiltonian"))
    with rep.ob("table of predefined notations is not modified by use"):
        q = c.run("before = {k: tuple(v) for k, v in PREDEFINED_NOTATIONS.items()}\nH = SpinHamiltonian(cell=cell, notation='tb2j')\nH.notation = 'magnopy'\nH.exchange_factor = 3\n"
                  "H2 = SpinHamiltonian(cell=cell, notation='TB2J')\nn = H2.notation", cell=mat("cell"), PREDEFINED_NOTATIONS=c.I.load("magnopy.spinham.hamiltonian").vars["PREDEFINED_NOTATIONS"])
        q.must_pass("use of predefined notations")
        c.same(q["n"], (True, True, N.const(-1), N.const(-1)), "notation tb2j after other use")
    # rejected
    bad = ["'unknown'", "''", "'magnopy '", "'tb2'", "5", "None", "1.5", "True", "()", "(True,)", "(True, False)", "(True, False, 1, 1, 1)", "[]", "[True, False]",
           "(True, False, 'a')", "(True, False, 1, 'b')", "(True, False, 'a', 1)", "{}", "object()"]
    for b in bad:
        for old in (None, (True, False, ef, of), (False, True, ef, of)):
            with rep.ob(f"notation {b} is rejected, old notation {'undefined' if old is None else old[:2]}"):
                loc = anchor(c, "SpinHamiltonian.notation")
                r = build(c, few, "AB", old)
                st0 = observe(c, r["H"])
                q = c.run(f"H.notation = {b}", H=r["H"])
                q.must_raise(f"notation {b}", "ValueError")
                unchanged(c, st0, observe(c, r["H"]), f"after the rejected notation {b}", loc)
                got = read(c, r["H"])
                want = ("undefined",) * 4 if old is None else old
                c.same(got, want, f"notation after the rejected {b}", loc=loc)
    for p in ("exchange_factor", "on_site_factor"):
        with rep.ob(f"{p} = 'a' is rejected"):
            r = build(c, few, "AB", (True, False, ef, of))
            st0 = observe(c, r["H"])
            q = c.run(f"H.{p} = 'a'", H=r["H"])
            q.must_raise(f"{p} = 'a'", "ValueError")
            unchanged(c, st0, observe(c, r["H"]), f"after the rejected {p}", anchor(c, f"SpinHamiltonian.{p}"))
            c.same(read(c, r["H"]), (True, False, ef, of), "notation afterwards")
    rep.minimum = 100
