"""Abstract interpretation of the line search.  Energies and gradients along the search direction are replaced by scripted ones
that are free (symbolic) at the first points the search looks at and acceptable afterwards; the step it returns is a gated value
over the outcomes of all comparisons, and on every way through them the documented conditions must hold at that step - with the
constants the user has set, which are symbols as well."""
from .c18 import *
from .c37 import positive

class Line:
    """Energies and gradients along the search direction: free at the first n steps that are looked at, as given at the others."""

    def __init__(self, f0, g0, n, energy, grad, final, gfinal):
        self.f0, self.g0, self.n, self.energy_, self.grad_, self.final, self.gfinal = f0, g0, n, energy, grad, final, gfinal
        self.steps = {}
        self.calls = {"E": 0, "G": 0}

    def where(self, t):
        t = N.const(t)
        if not t.const:
            raise Undecided(f"the trial step {t} is not a number")
        return self.steps.setdefault(f"{t.v[0].real:.12g}", len(self.steps))

    def energy(self, I, a, k):
        self.calls["E"] += 1
        return I.lift(lambda t: self.f0 if t is None else self.energy_(self.where(t)) if self.where(t) < self.n else self.final, a[0])

    def grad(self, I, a, k):
        self.calls["G"] += 1
        g = I.lift(lambda t: Arr((self.g0 if t is None else self.grad_(self.where(t)) if self.where(t) < self.n else self.gfinal).data.copy()), a[0])
        if k.get("gradient_vector") is not None:
            raise Undecided("gradient in place within the line search")
        return (g, arr([[0, 0, 0]]))

    def update(self, I, a, k):
        names = ["x", "search_direction", "step"]
        for x, v in zip(names, a):
            k[x] = v
        if k.get("x") is not None:
            raise Undecided("the trial point is not computed from the current one")
        return k.get("step", N.const(1))

    def env(self):
        return {"energy": HostFn("energy", self.energy), "grad": HostFn("grad", self.grad), "update": HostFn("update", self.update),
                "unpack": HostFn("unpack", lambda I, a, k: (a[0],)), "f0": self.f0, "g0": self.g0}


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "Energy.optimize")
    call = "E._lambda(None, np.array(d), energy=energy, _unpack=unpack, _update=update, _grad=grad)"
    size = 3
    for n in (1, 2, 3, 4) if rep.thorough else (1, 2, 3):
        for conds in ("both", "energy", "slope"):
            for consts in ("symbolic", "default"):
                with rep.ob(f"{n} free trial points, free {conds}, {consts} constants"):
                    c.I.maxsteps = c.I.steps + 30_000
                    E = setup(c, 1, False, "A", None)
                    if E.cls.lookup("_lambda") is None:
                        raise Undecided("Energy._lambda does not exist")
                    # first-order model: the direction descends, g0.d > 0
                    d = [positive(f"d{i}") for i in range(size)]
                    g0 = [positive(f"g{i}") for i in range(size)]
                    line = Line(sym("f0"), arr(g0), n, (lambda i: sym(f"E{i}")) if conds != "slope" else (lambda i: N.const(float("-inf"))),
                                (lambda i: arr([sym(f"s{i}{k}") for k in range(size)])) if conds != "energy" else (lambda i: arr([0] * size)), N.const(float("-inf")), arr([0] * size))
                    c1, c2 = (positive("c1") / 10, positive("c2")) if consts == "symbolic" else (Fraction_(1, 10000), Fraction_(9, 10))
                    setc = "E.wolfe_c1 = c1\nE.wolfe_c2 = c2\n" if consts == "symbolic" else ""
                    src = setc + f"""
t = {call}
slope0 = -(np.array(g0) @ np.array(d))
used = [energy(t), grad(t)[0]]
ok1 = used[0] <= f0 + c1 * t * slope0
ok2 = abs(used[1] @ np.array(d)) <= c2 * abs(slope0)
pos = t > 0
"""
                    try:
                        r = c.run(src, E=E, d=arr(d), c1=c1, c2=c2, **line.env())
                    except Undecided as e:
                        if len(line.steps) > n + 50:
                            raise Bad(f"line search has tried {len(line.steps)} steps, those after the first {n} satisfy both conditions, and accepts none", loc)
                        raise
                    r.must_pass("the line search")
                    if not line.calls["E"] or not line.calls["G"]:
                        raise Undecided("the line search does not use the functions it is given")
                    for v, what in ((r["ok1"], "the energy is not lowered as required by wolfe_c1"), (r["ok2"], "the slope is not reduced as required by wolfe_c2"), (r["pos"], "the step is not positive")):
                        g = c.I.truth(v)
                        bad = M.neg(g)
                        # comparisons of free values are independent of each other as long as the constants are free
                        if bad != FALSE and (consts == "symbolic" or feasible(bad)):
                                w = M.describe(bad)[:150]
                                raise Bad(f"line search with {n} free trial points accepts a step although {what} ({w})", loc)
    # ------------------------------------------------------------- no acceptable step
    for limit in (0, 1, 5):
        for why in ("energy", "slope"):
            with rep.ob(f"no acceptable step ({why}), at most {limit} trials"):
                c.I.maxsteps = c.I.steps + 30_000
                E = setup(c, 1, False, "A", None)
                if E.cls.lookup("_lambda") is None or "_wolfe_iter_max" not in E.fields:
                    raise Undecided("private names of the line search")
                bad = {"energy": (N.const(float("inf")), [0, 0, 0]), "slope": (N.const(float("-inf")), [-100, -100, -100])}[why]
                line = Line(sym("f0"), arr([1, 1, 1]), 0, None, None, bad[0], arr(bad[1]))
                try:
                    r = c.run(f"E._wolfe_iter_max = limit\nt = {call}", E=E, d=arr([1, 1, 1]), limit=limit, **line.env())
                except Undecided as e:
                    if len(line.steps) > limit + 50:
                        raise Bad(f"line search has tried {len(line.steps)} steps, no one acceptable, with a limit of {limit}", loc)
                    raise
                if not r.failures():
                    raise Bad(f"line search returns {short(r['t'])} although no step satisfies the condition on the {why}", loc)
    c.I.maxsteps = c.I.steps + 1_000_000
    # ------------------------------------------------------------- constants
    for name in ("wolfe_c1", "wolfe_c2"):
        other = {"wolfe_c1": "wolfe_c2", "wolfe_c2": "wolfe_c1"}[name]
        for val, want in ((sym("v"), sym("v")), (1, N.const(1)), ("0.25", N.const(Fraction_(1, 4)))):
            with rep.ob(f"Energy.{name} = {val!r}"):
                r = c.run(f"o = E.{other}\nm0 = E.m\nE.{name} = v\na = E.{name}\nb = E.{other}\nm = E.m", E=setup(c, 1, False, "A", None), v=val)
                r.must_pass("setting the constant")
                at = anchor(c, f"Energy.{name}")
                c.same(r["a"], want, f"Energy.{name}", loc=at)
                c.same(r["b"], r["o"], f"Energy.{other} after setting {name}", loc=at)
                c.same(r["m"], r["m0"], f"Energy.m after setting {name}", loc=at)
        for val in ("'x'", "None", "[1, 2]", "{}", "(1, 2)", "1j"):
            with rep.ob(f"Energy.{name} = {val} is refused"):
                r = c.run(f"E.{name} = 0.5\nok = False\ntry:\n    E.{name} = {val}\nexcept ValueError:\n    ok = True\na = E.{name}", E=setup(c, 1, False, "A", None))
                r.must_pass("refusing the constant")
                if r["ok"] is not True:
                    raise Bad(f"Energy.{name} accepts {val}", anchor(c, f"Energy.{name}"))
                c.same(r["a"], N.const(Fraction_(1, 2)), f"Energy.{name} after a refused value", loc=anchor(c, f"Energy.{name}"))
    with rep.ob("documented default constants"):
        r = c.run("a, b, m = E.wolfe_c1, E.wolfe_c2, E.m", E=setup(c, 1, False, "A", None))
        c.same(r["a"], N.const(Fraction_(1, 10000)), "Energy.wolfe_c1", loc=anchor(c, "Energy.wolfe_c1"))
        c.same(r["b"], N.const(Fraction_(9, 10)), "Energy.wolfe_c2", loc=anchor(c, "Energy.wolfe_c2"))
