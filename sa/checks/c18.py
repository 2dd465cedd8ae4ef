"""Value numbering of the gradients: the perturbed components come back to their own terms, the torques are
the cross products of the directions with the derivative of the energy, and for an arbitrary (symbolic) search
direction the scalar product with the gradient vector is minus the derivative of the energy along the step the
optimiser takes - so gradient, step and energy agree about the meaning and the sign of every entry."""
from .c17 import *

KIND = ("ferro", "antiferro", "spiral")
CALL = {"ferro": "s", "antiferro": "s, n, q", "spiral": "s, n, q"}


def close(c, got, want, scale, what, loc, tol=3e-6):
    """Loose comparison of numbers at every sample point (truncation error of differences)."""
    for k in range(N.K):
        x, y = value_at(got, k), value_at(want, k)
        z = max((abs(value_at(v, k)) for v in scale), default=0) + 1e-12
        if not isinstance(x, complex) or not isinstance(y, complex):
            raise Undecided(f"{what}: not a number: {got} {want}")
        if not abs(x - y) <= tol * z:
            raise Bad(f"{what}: got {x.real:.8g}, expected {y.real:.8g}", loc)


def unitrows(n, tag="e"):
    return arr([unit([sym(f"{tag}{i}{x}") for x in "xyz"]) for i in range(n)])


def dd(f, h=1e-3):
    """Derivative at zero of a host function of a small number (fourth order)."""
    h = N.const(Fraction_(h))
    return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)


def check(rep):
    N.general()
    c = rep.ctx()
    cases = [("two spins", 2, True, "A", None), ("two spins, no field", 2, False, "AB", None), ("one spin", 1, True, "A", None)]
    for name, n, field, on, _ in cases:
        for kind in KIND:
            # cell and q of the antiferro energy are such that 2q is a reciprocal lattice vector
            exact = kind == "antiferro"
            cell = arr([[1, 0, 0], [1, 1, 0], [0, -1, 1]]) if exact else None
            E = setup(c, n, field, on, cell)
            q0 = arr([N.const(math.pi), 0, N.const(math.pi)]) if exact else vec("q")
            s0, n0 = unitrows(n), arr(unit([sym("n" + x) for x in "xyz"]))
            loc = anchor(c, f"Energy._{kind}_grad")

            def fresh(**k):
                d = {"E": E, "s": Arr(s0.data.copy()), "n": Arr(n0.data.copy()), "q": Arr(q0.data.copy())}
                d.update(k)
                return d

            def E_of(s, nn=None, q=None):
                r = c.run(f"v = E.{kind}({CALL[kind]})", **fresh(s=s, n=nn if nn is not None else Arr(n0.data.copy()), q=q if q is not None else Arr(q0.data.copy())))
                r.must_pass("energy")
                return r["v"]
            size = 3 * n + {"ferro": 0, "antiferro": 3, "spiral": 6}[kind]
            nt = n + (kind != "ferro")
            with rep.ob(f"gradient of {kind}: {name}"):
                if E.cls.lookup(f"_{kind}_grad") is None:
                    raise Undecided(f"Energy._{kind}_grad does not exist")
                start = c.run(f"E.optimize('{kind}', initial_guess=g, max_iterations=0, antiferro_q=a)", **fresh(g=None, a=Arr(q0.data.copy())))
                start.must_pass("optimize with no iterations")
                e = fresh()
                r = c.run(f"G, T = E._{kind}_grad({CALL[kind]})", **e)
                r.must_pass("gradient")
                for a, v in (("s", s0), ("n", n0), ("q", q0)):
                    c.same(e[a], v, f"gradient of {kind}: input {a}", loc=loc)
                Gv, T = r["G"], r["T"]
                if Gv.data.shape != (size,) or T.data.shape != (nt, 3):
                    raise Bad(f"gradient of {kind}: shapes {Gv.data.shape}, {T.data.shape}, expected {(size,)}, {(nt, 3)}", loc)
                # filled in place: whatever was there
                e = fresh(G=arr([sym(f"old{i}") for i in range(size)]), T=mat("oldT", nt, 3))
                p = c.run(f"R = E._{kind}_grad({CALL[kind]}, gradient_vector=G, torques=T)", **e)
                p.must_pass("gradient in place")
                c.same(e["G"], Gv, f"gradient of {kind}: gradient vector filled in place", loc=loc)
                c.same(e["T"], T, f"gradient of {kind}: torques filled in place", loc=loc)
                for a, v in (("s", s0), ("n", n0), ("q", q0)):
                    c.same(e[a], v, f"gradient of {kind} (in place): input {a}", loc=loc)
            with rep.ob(f"torques of {kind}: {name}"):
                def grad(which, i):
                    out = []
                    for j in range(3):
                        def f(h):
                            s, nn = Arr(s0.data.copy()), Arr(n0.data.copy())
                            t = s.data[i] if which == "s" else nn.data
                            t[j] = t[j] + h
                            return E_of(s, nn)
                        out.append(dd(f))
                    return out
                for i in range(nt):
                    which = "s" if i < n else "n"
                    d = s0.data[i] if which == "s" else n0.data
                    g = grad(which, i)
                    t = [d[1] * g[2] - d[2] * g[1], d[2] * g[0] - d[0] * g[2], d[0] * g[1] - d[1] * g[0]]
                    for j in range(3):
                        close(c, T.data[i][j], t[j], g, f"torque of {kind} on {'spin ' + str(i) if which == 's' else 'the axis'}, component {j}", loc)
            with rep.ob(f"gradient of {kind} is minus the derivative along the step: {name}"):
                up = priv(c, f"_update_x_{kind}")
                # every single entry and one arbitrary combination
                for m in list(range(size)) + [None]:
                    sd = arr([(1 if i == m else 0) for i in range(size)]) if m is not None else arr([sym(f"d{i}") for i in range(size)])

                    def along(h):
                        x0 = Arr(np.array(list(s0.data) + ([n0.data] if kind != "ferro" else []), dtype=object))
                        u = c.run("x = x0 if k == 'ferro' else [x0, q]\ny = f(x, d, h)\n" + ("a = y\nb = 0\nz = 0" if kind == "ferro" else "a = y[0][:-1]\nb = y[0][-1]\nz = y[1]"),
                                  f=up, x0=x0, q=Arr(q0.data.copy()), d=Arr(sd.data.copy()), h=h, k=kind)
                        u.must_pass("step")
                        y = generic(c.I, u["a"])
                        return E_of(y, generic(c.I, u["b"]) if kind != "ferro" else None, u["z"] if kind != "ferro" else None)
                    want = dd(along, Fraction_(1, 256))
                    got = N.const(0)
                    for x, y in zip(Gv.data, sd.data):
                        got = got - x * y
                    sc = list(Gv.data) if m is None else [Gv.data[m]] + list(T.data.reshape(-1))
                    sc = sc + [x * N.const(Fraction_(3)) for x in sd.data] if m is None else sc
                    close(c, got, want, sc, f"{kind}: derivative of the energy along {'an arbitrary direction' if m is None else f'entry {m} of the search direction'}", loc, tol=2e-5)
    rep.minimum = 15
