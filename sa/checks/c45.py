"""Value numbering of call sequences on one energy object: whatever was evaluated, optimised, refused or set and set back before
(on the same object or on another one), every energy and optimisation gives the values a new object gives,
and results handed out earlier are not changed by later calls."""
from .c18 import *
from .c37 import positive

ALL = {"energy ferro": "E.ferro(s)", "energy antiferro": "E.antiferro(s, n, q)", "energy spiral": "E.spiral(s, n, q)",
       "optimize ferro": "E.optimize('ferro', initial_guess=s, max_iterations=2, tolerance=t2)",
       "optimize antiferro": "E.optimize('antiferro', initial_guess=(s, n), antiferro_q=q, max_iterations=1, tolerance=t3)",
       "optimize spiral": "E.optimize('spiral', initial_guess=(s, n, q), max_iterations=1, tolerance=t3)"}
REFUSE = "try:\n    {}\nexcept (ValueError, TypeError, IndexError):\n    pass\n"
BEFORE = {"nothing": "",
          "refused guesses": "".join(REFUSE.format(x) for x in ("E.optimize('ferro', initial_guess=[[1, 2]])", "E.optimize('spiral', initial_guess=(s2, n2))", "E.optimize('antiferro', initial_guess=(s2, [1, 2]), antiferro_q=q2)", "E.optimize('antiferro', antiferro_q=[1, 2])")),
          "refused tolerances and kinds": "".join(REFUSE.format(x) for x in ("E.optimize('spiral', initial_guess=(s2, n2, q2), tolerance=(1, 1))", "E.optimize('ferro', initial_guess=s2, tolerance=(1, 1, 1))", "E.optimize('cone', initial_guess=s2)")),
          "refused settings": "".join(REFUSE.format(x) for x in ("E.spins = [1]", "E.spins = [5, 'x']", "E.g_factors = [5, 'x']", "E.magnetic_field = [1, 2, 'x']", "E.g_factors = [1, 2, 3]", "E.magnetic_field = [1, 2]", "E.m = 'x'", "E.wolfe_c1 = 'x'", "E.wolfe_c2 = [1, 2]")),
          "the caller changes what was passed as a setting": "f, a, b = E.magnetic_field, E.spins, E.g_factors\nF, A, B = np.array(f), list(a), list(b)\nE.magnetic_field, E.spins, E.g_factors = F, A, B\nF[0] = 7\nA[0] = 7\nB[0] = 7\n",
          "no iteration": "E.optimize('ferro', initial_guess=s2, max_iterations=0)\nE.optimize('spiral', initial_guess=(s2, n2, q2), max_iterations=0)\n",
          "one iteration": "E.optimize('spiral', initial_guess=(s2, n2, q2), max_iterations=1, tolerance=t3)\n",
          "a longer optimisation": "E.optimize('ferro', initial_guess=s2, max_iterations=4, tolerance=t2)\n",
          "settings and back": "a = E.spins\nb = E.g_factors\nE.magnetic_field, f = None, E.magnetic_field\nE.spins = [2, 3]\nE.g_factors = [1, 3]\nE.ferro(s2)\nE.spins, E.g_factors, E.magnetic_field = a, b, f\n",
          "another object": "O = magnopy.Energy(H2)\nO.m = 3\nO.spins = [2, 3]\nO.magnetic_field = n2\nO._lambda = E._lambda\nO.ferro(s2)\nO.antiferro(s2, n2, q2)\nO.optimize('spiral', initial_guess=(s2, n2, q2), max_iterations=1, tolerance=t3)\n"}
SET = {"magnetic field": "E.magnetic_field = b2\n", "no magnetic field": "E.magnetic_field = None\n", "spins": "E.spins = [x1, x2]\n", "g-factors": "E.g_factors = [x1, x2]\n",
       "size of the memory": "E.m = 1\n", "Wolfe constants": "E.wolfe_c1 = 0.01\nE.wolfe_c2 = 0.7\n"}
STEP = "def lam(*a, **k):\n    return step\nE._lambda = lam\n"


def leaves(I, v):
    if isinstance(v, list):
        return v
    v = generic(I, v)
    if isinstance(v, tuple):
        return [("t", len(v))] + [y for x in v for y in leaves(I, x)]
    if isinstance(v, PList):
        return leaves(I, tuple(x for g, x in v.el if feasible(g)))
    if isinstance(v, Arr):
        return [("a", v.data.shape)] + list(v.data.reshape(-1))
    return [v]


def near(c, got, want, what, loc):
    """The same computation on the same numbers: compared by value, not up to the error bound of the numbers (which grows
    with every iteration of an optimisation)."""
    a, b = leaves(c.I, got), leaves(c.I, want)
    if len(a) != len(b):
        raise Bad(f"{what}: {len(a)} values instead of {len(b)}", loc)
    for x, y in zip(a, b):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if x != y:
                raise Bad(f"{what}: shape {x} instead of {y}", loc)
            continue
        for k in range(5):
            u, w = value_at(x, k), value_at(y, k)
            if not isinstance(w, (int, float, complex)):
                raise Undecided(f"{what}: not a number: {y}")
            if not isinstance(u, (int, float, complex)) or not abs(u - w) <= 1e-4 * max(1, abs(w)):
                raise Bad(f"{what}: got {u}, expected {w}", loc)


def check(rep):
    ASK = {k: v.replace('max_iterations=1', 'max_iterations=2') if rep.thorough else v for k, v in ALL.items()}
    N.general()
    c = rep.ctx()
    loc = anchor(c, "Energy.optimize")
    before = BEFORE
    s0, n0, q0 = unitrows(2), arr(unit([sym("n" + x) for x in "xyz"])), vec("q")
    E0 = setup(c, 2, True, "AB", None)
    with rep.ob("the line search can be replaced by a given step"):
        if E0.cls.lookup("_lambda") is None:
            # without it optimisations cannot be followed; only the energies are asked
            ASK = {k: v for k, v in ASK.items() if k.startswith("energy")}
            before = {k: v for k, v in BEFORE.items() if "max_iterations=1" not in v and "max_iterations=4" not in v}
            raise Undecided("Energy._lambda does not exist")
    from .c23 import system, RING
    H2 = system(c, 2, RING[:3], [1], (True, False, sym("ef"), sym("of")), "n")["H"]
    env = {"H2": H2, "step": positive("step") / 1000, "b2": vec("b2"), "x1": positive("x1"), "x2": positive("x2"), "t2": (Fraction_(1, 10 ** 30),) * 2, "t3": (Fraction_(1, 10 ** 30),) * 3}

    s1, n1 = unitrows(2, "f"), arr(unit([sym("m" + x) for x in "xyz"]))

    def args():
        return dict(env, s2=Arr(s1.data.copy()), n2=Arr(n1.data.copy()), q2=vec("p"), s=Arr(s0.data.copy()), n=Arr(n0.data.copy()), q=Arr(q0.data.copy()))

    def new(pre=""):
        E = setup(c, 2, True, "AB", None)
        c.run("import magnopy\n" + STEP + pre, E=E, **args()).must_pass("preparing the energy object")
        return E

    def ask(E, what):
        r = c.run(f"v = {ASK[what]}", E=E, **args())
        r.must_pass(what)
        return r["v"]

    def keep(v):
        """The values of a result now, independent of the arrays in it."""
        return leaves(c.I, v)

    def settings(E):
        r = c.run("v = (E.m, E.wolfe_c1, E.wolfe_c2, np.array(E.spins), np.array(E.g_factors), np.array(E.magnetic_field))", E=E)
        r.must_pass("settings")
        return generic(c.I, r["v"])
    ref, s_ref = {}, settings(E0)
    for what in ASK:
        with rep.ob(f"{what} of a new object"):
            ref[what] = keep(ask(new(), what))
    for name, pre in before.items():
        with rep.ob(f"after {name}"):
            E = new(pre)
            got = {}
            for what in list(ASK) + list(ASK)[::-1]:
                if what not in ref:
                    continue
                v = ask(E, what)
                near(c, keep(v), ref[what], f"{what} after {name}" + (" and other evaluations" if got else ""), loc=loc)
                got[what] = v
            c.same(settings(E), s_ref, f"settings after {name} and evaluations", loc=loc)
            for what, v in got.items():
                near(c, keep(v), ref[what], f"result of {what}, handed out earlier, after later evaluations", loc=loc)
    for name, pre in SET.items():
        with rep.ob(f"new {name} after evaluations"):
            E = new()
            todo = [x for x in ASK if "ferro" in x and "anti" not in x] if name in ("size of the memory", "Wolfe constants") else list(ASK)
            for what in todo:
                ask(E, what)
            c.run(pre, E=E, **args()).must_pass(name)
            for what in todo:
                near(c, keep(ask(E, what)), keep(ask(new(pre), what)), f"{what} with new {name} set after evaluations", loc=loc)
    rep.minimum = 16
