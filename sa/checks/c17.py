"""Alias and effect analysis (abstract interpretation): every array given to an energy, a step, the start of
an optimisation or a gradient has the value numbers it had before, results do not alias arguments in a way
that lets the library change them, and arguments of every wrong shape end in ValueError on all paths."""
from ..en import *

PRIV = "magnopy.spinham.energy"


def priv(c, name):
    v = c.I.load(PRIV).vars.get(name)
    if v is None:
        raise Undecided(f"{PRIV}.{name} does not exist")
    return v


def setup(c, n=2, field=True, on="A", cell=None):
    ef, of = sym("ef"), sym("of")
    few = [Bond("A", "B", (0, 0, 0), mat("J0"), "0"), Bond("A", "B", (1, 0, 0), mat("J1"), "1"), Bond("B", "A", (0, 1, -1), mat("J2"), "2"), Bond("A", "A", (0, 0, 1), mat("J3"), "3")] if n == 2 else [Bond("A", "A", (0, 0, 1), mat("J3"), "3")]
    if n > 2:
        few = [Bond(a, b, R, mat(f"J{k}"), str(k)) for k, (a, b, R) in enumerate(zip("ABCDE"[:n], "BCDEA"[:n], ((0, 0, 0), (1, 0, 0), (0, 1, -1), (0, 0, 1), (1, 1, 0))))]
    r = build(c, few, on, (True, False, ef, of), atoms="ABCDE"[:n], index={a: k + 1 for k, a in enumerate("ABCDE")}, env={"cell": cell} if cell is not None else None)
    q = c.run("E = Energy(H)\n" + ("E.magnetic_field = h\n" if field else ""), H=r["H"], h=vec("h"))
    q.must_pass("energy")
    return q["E"]


def spins(n=2):
    return arr([[sym(f"e{i}{x}") for x in "xyz"] for i in range(n)])


def check(rep):
    c = rep.ctx()
    E = setup(c)
    E1 = setup(c, 1)
    args = {"s": spins(), "n": vec("n"), "q": vec("q")}

    def fresh(**k):
        d = {a: Arr(v.data.copy()) for a, v in args.items()}
        d.update({a: Arr(v.data.copy()) for a, v in k.items()})
        return d

    def untouched(before, after, what, loc):
        for a, v in before.items():
            c.same(after[a], v, f"{what}: argument {a}", loc=loc)
    for meth, call in (("ferro", "E.ferro(s)"), ("antiferro", "E.antiferro(s, n, q)"), ("spiral", "E.spiral(s, n, q)")):
        loc = anchor(c, f"Energy.{meth}")
        for E_, n in ((E, 2), (E1, 1)):
            for shape in ("rows", "vector") if n == 1 else ("rows",):
                with rep.ob(f"Energy.{meth} keeps its arguments ({n} spins, {shape})"):
                    s0 = spins(n) if shape == "rows" else arr(list(spins(1).data[0]))
                    e = fresh(s=s0)
                    h0 = c.run("h = E.magnetic_field\nb = [(i, j, np.array(d), np.array(J.matrix)) for i, j, d, J in E._bonds] if hasattr(E, '_bonds') else 0\nsp = list(E.spins)\ng = list(E.g_factors)", E=E_)
                    r = c.run(f"v = {call}", E=E_, **e)
                    r.must_pass(call)
                    untouched({"s": s0, "n": args["n"], "q": args["q"]}, e, meth, loc)
                    h1 = c.run("h = E.magnetic_field\nb = [(i, j, np.array(d), np.array(J.matrix)) for i, j, d, J in E._bonds] if hasattr(E, '_bonds') else 0\nsp = list(E.spins)\ng = list(E.g_factors)", E=E_)
                    for x in ("h", "b", "sp", "g"):
                        c.same(h1[x], h0[x], f"{meth}: state of the energy object ({x})", loc=loc)
            with rep.ob(f"Energy.{meth} keeps lists ({n} spins)"):
                e = fresh(s=spins(n))
                r = c.run("S = [list(x) for x in s]\nN = list(n)\nQ = list(q)\nv = " + call.replace("s,", "S,").replace("(s)", "(S)").replace(" n,", " N,").replace(" q)", " Q)"), E=E_, **e)
                r.must_pass(call)
                c.same(r["S"], PList([(TRUE, PList([(TRUE, x) for x in row])) for row in spins(n).data]), "list of spins", loc=loc)
        # wrong shapes
        bad_s = ["np.ones((1, 3))", "np.ones((3, 3))", "np.ones((2, 2))", "np.ones((2, 4))", "np.ones(3)", "np.ones(2)", "np.ones((0, 3))", "[[1, 2, 3], [1, 2]]", "'abc'", "None", "[['a', 'b', 'c'], [1, 2, 3]]", "[[1, 2, 3]]", "5"]
        bad_v = ["np.ones(2)", "np.ones(4)", "np.ones((1, 3))", "np.ones((3, 1))", "[1, 2]", "'abc'", "5", "[1, 2, 'x']", "np.ones((3, 3))"]
        for b in bad_s:
            with rep.ob(f"Energy.{meth} rejects spins {b}"):
                c.run(f"v = {call.replace('(s', '(' + b)}", E=E, **fresh()).must_raise(f"{meth} with spins {b}", "ValueError")
        if meth != "ferro":
            for b in bad_v:
                with rep.ob(f"Energy.{meth} rejects cone axis {b}"):
                    c.run(f"v = {call.replace(' n,', ' ' + b + ',')}", E=E, **fresh()).must_raise(f"{meth} with axis {b}", "ValueError")
                with rep.ob(f"Energy.{meth} rejects spiral vector {b}"):
                    c.run(f"v = {call.replace(' q)', ' ' + b + ')')}", E=E, **fresh()).must_raise(f"{meth} with spiral vector {b}", "ValueError")
    # the Hamiltonian
    few = [Bond("A", "B", (0, 0, 0), mat("J0"), "0"), Bond("B", "A", (0, 1, -1), mat("J2"), "2"), Bond("A", "A", (0, 0, 1), mat("J3"), "3")]
    for dc in (True, False):
        for sn in (True, False):
            for on in ("AB", ""):
                with rep.ob(f"making an energy keeps the Hamiltonian, double counting {dc}, normalised {sn}, on-site terms {on or 'none'}"):
                    nt = (dc, sn, sym("ef"), sym("of"))
                    H = build(c, few, on, nt)["H"]
                    s0 = observe(c, H)
                    n0 = c.run("n = H.notation", H=H)
                    r = c.run("E = Energy(H)\nE.magnetic_field = h\nv = E.ferro(s)\nw = E.optimize('ferro', initial_guess=s, max_iterations=0)", H=H, h=vec("h"), s=spins())
                    r.must_pass("making an energy")
                    s1 = observe(c, H)
                    loc = anchor(c, "Energy")
                    expect_terms(c, s1, [(Bond(k[0], k[1], s0.R[k], m, "present before"), m) for k, (g, m) in s0.ex.items()], {a: m for a, (g, m) in s0.on.items()}, "Hamiltonian after making an energy", loc)
                    q = c.run("n = H.notation", H=H)
                    q.must_pass("notation after making an energy")
                    c.same(q["n"], n0["n"], "notation after making an energy", loc=loc)
    # steps
    sd = {"ferro": arr([sym(f"g{i}") for i in range(6)]), "antiferro": arr([sym(f"g{i}") for i in range(9)]), "spiral": arr([sym(f"g{i}") for i in range(12)])}
    full = arr([list(r) for r in spins().data] + [list(vec("n").data)])
    for kind in sd:
        for step in ("t", "1", "0", "0.5"):
            with rep.ob(f"step of {kind} with length {step} keeps its arguments"):
                f = priv(c, f"_update_x_{kind}")
                x0 = Arr((spins() if kind == "ferro" else full).data.copy())
                e = {"x0": x0, "q": Arr(args["q"].data.copy()), "g": Arr(sd[kind].data.copy()), "f": f, "t": sym("t")}
                r = c.run("x = x0 if kind == 'ferro' else [x0, q]\ny = f(x, g, " + step + ")", kind=kind, **e)
                r.must_pass("step")
                loc = (f.module.name, f.node.lineno, f.node.name) if isinstance(f, Func) else None
                c.same(x0, spins() if kind == "ferro" else full, f"step of {kind}: configuration", loc=loc)
                c.same(e["q"], args["q"], f"step of {kind}: spiral vector", loc=loc)
                c.same(e["g"], sd[kind], f"step of {kind}: search direction", loc=loc)
                y = r["y"] if kind == "ferro" else r["y"].el[0][1]
                if shares(y, x0):
                    raise Bad(f"step of {kind} returns the caller's configuration", loc)
    # starting an optimisation
    starts = {
        "ferro": [("s", "s")],
        "antiferro": [("(s, n)", "s n"), ("[s, None]", "s"), ("(None, n)", "n")],
        "spiral": [("(s, n, q)", "s n q"), ("[s, None, None]", "s"), ("(None, n, None)", "n"), ("(None, None, q)", "q"), ("(s, None, q)", "s q")],
    }
    loc = anchor(c, "Energy.optimize")
    for kind, gs in starts.items():
        for gsrc, names in gs:
            for E_, n in ((E, 2), (E1, 1)):
                with rep.ob(f"starting {kind} from {gsrc} keeps the arrays ({n} spins)"):
                    e = fresh(s=spins(n))
                    e["a"] = vec("a")
                    r = c.run(f"G = {gsrc}\nv = E.optimize('{kind}', initial_guess=G, max_iterations=0, antiferro_q=a)", E=E_, **e)
                    r.must_pass(f"optimize({kind}) with max_iterations=0")
                    untouched({"s": spins(n), "n": args["n"], "q": args["q"], "a": vec("a")}, e, f"start of {kind}", loc)
                    out = r["v"]
                    for k, part in enumerate(out if isinstance(out, tuple) else ()):
                        for a in "snqa":
                            if shares(part, e[a]):
                                raise Bad(f"start of {kind}: result {k} shares memory with the caller's array {a}", loc)
                    # the guess itself is where it starts
                    u = [unit(list(row)) for row in spins(n).data]
                    if "s" in names.split():
                        c.same(out[0], arr(u), f"start of {kind}: spins", loc=loc)
                    if "n" in names.split():
                        c.same(out[1], arr(unit(list(args["n"].data))), f"start of {kind}: axis", loc=loc)
                    if "q" in names.split():
                        c.same(out[2], args["q"], f"start of {kind}: spiral vector", loc=loc)
                    if kind == "antiferro":
                        c.same(out[2], vec("a"), f"start of {kind}: spiral vector", loc=loc)
        with rep.ob(f"starting {kind} without a guess"):
            r = c.run(f"v = E.optimize('{kind}', max_iterations=0, antiferro_q=a)\nl = [x.shape for x in v]", E=E, a=vec("a"))
            r.must_pass(f"optimize({kind})")
            c.same(r["l"], PList([(TRUE, x) for x in (((2, 3),) if kind == "ferro" else ((2, 3), (3,), (3,)))]), "shapes of the random start", loc=loc)
            dirs_ = [list(row) for row in generic(c.I, r["v"][0]).data] + ([list(generic(c.I, r["v"][1]).data)] if kind != "ferro" else [])
            for d in dirs_:
                c.same(generic(c.I, d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), N.const(1), "squared length of a random starting direction", loc=loc)
        for E_, n in ((E1, 1),):
            with rep.ob(f"starting {kind} of a single spin from a flat vector"):
                e = fresh(s=arr(list(spins(1).data[0])))
                g = {"ferro": "s", "antiferro": "(s, n)", "spiral": "(s, n, q)"}[kind]
                r = c.run(f"v = E.optimize('{kind}', initial_guess={g}, max_iterations=0, antiferro_q=q)", E=E_, **e)
                r.must_pass(f"optimize({kind}) of a single spin from a flat vector")
                c.same(r["v"][0], arr([unit(list(spins(1).data[0]))]), f"start of {kind}: spins", loc=loc)
                untouched({"s": arr(list(spins(1).data[0])), "n": args["n"], "q": args["q"]}, e, f"start of {kind}", loc)
    bads = {
        "ferro": ["np.ones((1, 3))", "np.ones((3, 3))", "np.ones((2, 2))", "'abc'", "[[1, 2, 3]]", "np.ones(3)", "[[1, 2, 'a'], [1, 2, 3]]", "np.ones((2, 4))", "5"],
        "antiferro": ["(np.ones((3, 3)), n)", "(s, np.ones(2))", "(s, 'abc')", "(s, np.ones((1, 3)))", "(s,)", "(s, n, q)", "(np.ones((2, 2)), n)", "(s, 5)", "(s, [1])", "(s, np.ones((3, 3)))", "(s, np.ones(4))", "(s, [1, 2, 'x'])"],
        "spiral": ["(np.ones((3, 3)), n, q)", "(s, np.ones(2), q)", "(s, 'abc', q)", "(s, n, np.ones(4))", "(s, n, 'abc')", "(s,)", "(s, n)", "(s, n, np.ones((3, 1)))", "(np.ones((2, 4)), n, q)", "(s, 5, q)", "(s, [1], q)", "(s, np.ones((3, 3)), q)", "(s, n, 5)", "(s, n, [1])", "(s, n, np.ones((3, 3)))", "(s, n, np.ones((1, 3)))", "(s, n, np.ones(2))", "(s, n, q, q)", "(s, n, [1, 2, 'x'])"],
    }
    for kind, bs in bads.items():
        for b in bs:
            with rep.ob(f"starting {kind} from {b} is rejected"):
                c.run(f"v = E.optimize('{kind}', initial_guess={b}, max_iterations=0, antiferro_q=[0, 0, 0])", E=E, **fresh()).must_raise(f"{kind} from {b}", "ValueError")
    for b in ("None", "[1, 2]", "'abc'", "np.ones((1, 3))", "5", "[1]", "np.ones((3, 3))", "np.ones((3, 1))", "[1, 2, 3, 4]"):
        with rep.ob(f"antiferro with antiferro_q = {b} is rejected"):
            c.run(f"v = E.optimize('antiferro', initial_guess=(s, n), max_iterations=0, antiferro_q={b})", E=E, **fresh()).must_raise("antiferro without a correct q", "ValueError")
    rep.minimum = 100
