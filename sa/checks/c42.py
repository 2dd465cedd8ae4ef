"""Value numbering of the search directions.  Energy, gradients and line search of the driver are replaced by scripted ones
(symbolic gradients and step lengths, the curvature along every step of chosen sign), so that the only code that produces the
directions is the one under analysis; the direction of every iteration is compared, term by term, with the limited-memory
BFGS inverse applied to the gradient (recursive definition over the last m pairs since the last restart)."""
from .c18 import *
from .c37 import positive

SCRIPT = '''
dirs = []
grads = []
calls = {"G": 0, "L": 0}

def energy(*a):
    return 0

def grad(*a, gradient_vector=None, torques=None):
    k = calls["G"]
    calls["G"] += 1
    if k == 0:
        g = np.array(g0)
    else:
        g = grads[-1] - np.array(D[k - 1]) * (steps[k - 1] * dirs[-1])
    grads.append(np.array(g))
    if gradient_vector is None or torques is None:
        return np.array(g), np.zeros((E._torque_size, 3))
    gradient_vector[:] = g
    torques[:] = 1

def lam(*a, **kw):
    k = calls["L"]
    calls["L"] += 1
    d = kw.get("search_direction")
    if d is None:
        d = a[1]
    dirs.append(np.array(d))
    return steps[k]

setattr(E, kind, energy)
setattr(E, "_" + kind + "_grad", grad)
E._lambda = lam
'''


def inverse(pairs, v):
    """Limited-memory BFGS inverse applied to v; pairs = [(s, y)], oldest first."""
    s, y = pairs[-1]

    def rec(ps, v):
        if not ps:
            c = dot(s, y) / dot(y, y)
            return [c * x for x in v]
        a, b = ps[-1]
        rho = 1 / dot(a, b)
        al = rho * dot(a, v)
        w = rec(ps[:-1], [x - al * z for x, z in zip(v, b)])
        be = rho * dot(b, w)
        return [x + z * (al - be) for x, z in zip(w, a)]
    return rec(pairs, v)


def flat(x):
    return [N.const(v) for v in x.data.reshape(-1)]


def check(rep):
    N.general()
    c = rep.ctx()
    c.I.region = True
    loc = anchor(c, "Energy.optimize")
    todo = []
    for m in (1, 2, 3, 4) if rep.thorough else (1, 2, 3):
        n = m + 3
        pats = ["+" * n] + ["+" * i + "-" + "+" * (n - i - 1) for i in range(n)] + (["+-" * n, "--" + "+" * n, "++--" + "+" * n] if m == 2 else [])
        todo += [("ferro", m, p[:n]) for p in pats]
    todo += [("ferro", None, "+" * 12), ("antiferro", 2, "+++-++"), ("spiral", 2, "+++-++"), ("spiral", 3, "+++++"), ("antiferro", 1, "++++"), ("ferro", 12, "+++"), ("ferro", 25, "+-++")]
    for kind, m, pat in todo:
        with rep.ob(f"{kind}: memory of {'default size' if m is None else m}, curvature {pat}"):
            E = setup(c, 1, False, "A", None)
            for x in ("_lambda", f"_{kind}_grad"):
                if E.cls.lookup(x) is None:
                    raise Undecided(f"Energy.{x} does not exist")
            size = {"ferro": 3, "antiferro": 6, "spiral": 9}[kind]
            its = len(pat) + 1
            g0 = arr([sym(f"g{i}") for i in range(size)])
            D = [arr([positive(f"D{k}{i}") * (1 if ch == "+" else -1) for i in range(size)]) for k, ch in enumerate(pat)]
            steps = [positive(f"t{k}") for k in range(its)]
            guess = {"ferro": "s", "antiferro": "(s, n)", "spiral": "(s, n, q)"}[kind]
            tol = (Fraction_(1, 4),) * (2 if kind == "ferro" else 3)
            r = c.run(SCRIPT + ("E.m = m\n" if m is not None else "") + f"""
v = E.optimize(kind, initial_guess={guess}, tolerance=tol, max_iterations=its, antiferro_q=q)
mem = E.m
for x in (kind, "_" + kind + "_grad", "_lambda"):
    delattr(E, x)
""", E=E, kind=kind, m=m, its=its, tol=tol, g0=g0, D=PList([(TRUE, x) for x in D]), steps=PList([(TRUE, x) for x in steps]), s=arr([[0, 0, 1]]), n=arr([0, 1, 0]), q=vec("q"))
            r.must_pass(f"optimize({kind})")
            dirs = [generic(c.I, x) for g, x in r["dirs"].el]
            grads = [generic(c.I, x) for g, x in r["grads"].el]
            if len(dirs) != its or len(grads) != its:
                raise Undecided(f"{len(dirs)} directions and {len(grads)} gradients were recorded in {its} iterations")
            mem = r["mem"]
            if not isinstance(mem, int):
                raise Undecided(f"size of the memory is {mem}")
            if m is not None and mem != m:
                raise Bad(f"Energy.m is {mem} after it was set to {m}", anchor(c, "Energy.m"))
            pairs = []
            for k in range(its):
                if k:
                    s = [steps[k - 1] * x for x in flat(dirs[k - 1])]
                    y = [a - b for a, b in zip(flat(grads[k - 1]), flat(grads[k]))]
                    pairs = (pairs + [(s, y)])[-mem:] if pat[k - 1] == "+" else []
                want = inverse(pairs, flat(grads[k])) if pairs else flat(grads[k])
                what = f"{kind}, memory {mem}, curvature {pat[:k] or 'of the first step'}: search direction of iteration {k}"
                c.same(dirs[k], arr(want), what, loc=loc)
                slope = generic(c.I, dot(want, flat(grads[k])))
                for j in range(N.K):
                    if not value_at(slope, j).real > 0:
                        raise Undecided("the reference direction is not a descent direction")
    for m0, m1 in ((None, 13), (1, 3), (3, 2), (2, 12)):
        with rep.ob(f"size of the memory changed from {m0 or 'default'} to {m1} between two optimisations"):
            E = setup(c, 1, False, "A", None)
            g0, steps = arr([sym(f"g{i}") for i in range(3)]), [positive(f"t{k}") for k in range(9)]
            pat = "++++++++"
            D = [arr([positive(f"D{k}{i}") for i in range(3)]) for k in range(8)]
            def once(m, its):
                r = c.run(SCRIPT + ("E.m = m\n" if m is not None else "") + """
v = E.optimize('ferro', initial_guess=s, tolerance=tol, max_iterations=its)
for x in (kind, "_" + kind + "_grad", "_lambda"):
    delattr(E, x)
""", E=E, kind="ferro", m=m, its=its, tol=(Fraction_(1, 4),) * 2, g0=g0, D=PList([(TRUE, x) for x in D]), steps=PList([(TRUE, x) for x in steps]), s=arr([[0, 0, 1]]), n=arr([0, 1, 0]), q=vec("q"))
                r.must_pass("optimize")
                return [generic(c.I, x) for g, x in r["dirs"].el], [generic(c.I, x) for g, x in r["grads"].el]
            once(m0, 3)
            dirs, grads = once(m1, 5)
            pairs = []
            for k in range(len(dirs)):
                if k:
                    pairs = (pairs + [([steps[k - 1] * x for x in flat(dirs[k - 1])], [a - b for a, b in zip(flat(grads[k - 1]), flat(grads[k]))])])[-m1:]
                c.same(dirs[k], arr(inverse(pairs, flat(grads[k])) if pairs else flat(grads[k])), f"search direction {k} of the second optimisation", loc=loc)
    # ------------------------------------------------------------- size of the memory
    for val, want in ((5, 5), (N.const(7), 7), ("3", 3)):
        with rep.ob(f"Energy.m = {val!r}"):
            r = c.run("E.m = v\nm = E.m", E=setup(c, 1, False, "A", None), v=val)
            r.must_pass("setting the size of the memory")
            c.same(r["m"], want, "Energy.m", loc=anchor(c, "Energy.m"))
    for val in ("'x'", "None", "[1, 2]", "(1,)", "{}"):
        with rep.ob(f"Energy.m = {val} is refused"):
            r = c.run(f"E.m = 4\nok = False\ntry:\n    E.m = {val}\nexcept ValueError:\n    ok = True\nm = E.m", E=setup(c, 1, False, "A", None))
            r.must_pass("refusing the size of the memory")
            if r["ok"] is not True:
                raise Bad(f"Energy.m accepts {val}", anchor(c, "Energy.m"))
            c.same(r["m"], 4, "Energy.m after a refused value", loc=anchor(c, "Energy.m"))
