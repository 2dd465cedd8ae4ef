"""Abstract interpretation of the driver of the optimisation.  (1) Routing: with an arbitrary (symbolic) step
length the first iteration of every case must be the step of that case along the gradient of that case,
term by term.  (2) Stopping: energies, gradients and line search are replaced by scripted ones that depend on
the configuration only; for every pattern of met and missed tolerances and every iteration limit the number of
iterations, the configuration returned and the recorded history are those of the rule."""
import itertools

from .c18 import *

SCRIPT = '''
def where(s):
    x, y = s[0][0], s[0][1]
    if x > 0.5:
        return 0
    if y < -0.5:
        return 1
    if x < -0.5:
        return 2
    return 3

calls = {"E": 0, "G": 0, "L": 0, "D": 0}
seen = []

def energy(*a):
    calls["E"] += 1
    seen.append([np.array(x) for x in a])
    return es[where(a[0])]

def grad(*a, gradient_vector=None, torques=None):
    calls["G"] += 1
    t = ts[where(a[0])]
    g = np.zeros(size)
    g[0] = np.pi / 2
    if kind == "spiral":
        g[-1] = 0.125
    if gradient_vector is None or torques is None:
        return g, np.array(t)
    gradient_vector[:] = g
    torques[:] = t

def lam(*a, **k):
    calls["L"] += 1
    return 1

def direction(k, gradient_vector, *a, **kw):
    calls["D"] += 1
    return k, gradient_vector

setattr(E, kind, energy)
setattr(E, "_" + kind + "_grad", grad)
E._lambda = lam
E._compute_search_direction = direction
'''
TOL = (Fraction_(1, 4), Fraction_(1, 2), Fraction_(1, 8))


def script(kind, pat, TOL=TOL, n=2):
    """Energies and torques at four configurations; pat[k] = (energy met, spins met, axis met)."""
    es, ts = [Fraction_(0)], []
    for k in range(3):
        e, s, a = pat[k]
        sg = -1 if k % 2 == 0 else 1
        es.append(es[-1] + sg * (TOL[0] if e is True else TOL[0] / 2 if e == "less" else TOL[0] * Fraction_(5, 4)))
    for k in range(4):
        e, s, a = pat[min(k, 2)]
        small, big = [0, -TOL[1] * Fraction_(3, 4), 0], [TOL[1] * Fraction_(3, 4)] * 2 + [-TOL[1] * Fraction_(1, 4)]
        exact = [0, 0, TOL[1]]
        i = s[1] if isinstance(s, tuple) else None
        t = [small, exact] + [small] * (n - 2)
        if i is not None:
            t[i] = big
        if kind != "ferro":
            t.append([TOL[2], 0, 0] if a else [TOL[2] * Fraction_(7, 8), -TOL[2] * Fraction_(7, 8), 0])
        ts.append(t)
    return es, ts


def met(p, kind):
    e, s, a = p
    return bool(e) and s is True and (bool(a) or kind == "ferro")


def patterns(kind, thorough):
    ok = (True, True, True)
    one = [(e, s, a) for e in (True, "less", False) for s in (True, ("big", 0), ("big", 1)) for a in ((True, False) if kind != "ferro" else (True,))]
    out = [(p, ok, ok) for p in one]
    bad = [p for p in one if not met(p, kind)]
    out += [(b, p, ok) for b in (bad if thorough else bad[:1] + bad[-2:]) for p in one]
    out += [(bad[0], bad[-1], p) for p in one if met(p, kind)]
    return out


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "Energy.optimize")
    names = {"ferro": 0, "antiferro": 1, "spiral": 2}
    for kind, num in names.items():
        exact = kind == "antiferro"
        cell = arr([[1, 0, 0], [1, 1, 0], [0, -1, 1]]) if exact else None
        a0 = arr([N.const(math.pi), 0, N.const(math.pi)])
        for n in (2, 1):
            E = setup(c, n, True, "A", cell)
            s0, n0, q0 = unitrows(n), arr(unit([sym("n" + x) for x in "xyz"])), a0 if exact else vec("q")
            guess = {"ferro": "s", "antiferro": "(s, n)", "spiral": "(s, n, q)"}[kind]
            for case in (repr(kind), str(num)):
                with rep.ob(f"first iteration of case {case}, {n} spins"):
                    g = E.cls.lookup(f"_{kind}_grad")
                    if g is None or E.cls.lookup("_lambda") is None:
                        raise Undecided("private methods of the optimisation")
                    up = priv(c, f"_update_x_{kind}")
                    r = c.run(f"""
                        calls = [0]
                        def lam(*a, **k):
                            calls[0] += 1
                            return t
                        E._lambda = lam
                        v = E.optimize({case}, initial_guess={guess}, max_iterations=1, antiferro_q=a)
                        n_calls = calls[0]
                        del E._lambda
                        G, T = E._{kind}_grad({CALL[kind]})
                        x = s if kind == 'ferro' else [np.concatenate([s, [n]]), q]
                        y = up(x, G, t)
                        w = (y,) if kind == 'ferro' else (y[0][:-1], y[0][-1], y[1])
                        """, E=E, s=s0, n=n0, q=q0, a=a0, t=sym("t"), up=up, kind=kind)
                    r.must_pass(f"optimize({case})")
                    if r["n_calls"] != 1:
                        raise Undecided("the step length is not taken from Energy._lambda once")
                    v, w = r["v"], r["w"]
                    if not isinstance(v, tuple) or len(v) != len(w):
                        raise Bad(f"optimize({case}) returns {short(v)}, expected {len(w)} arrays", loc)
                    for k, (x, y) in enumerate(zip(v, w)):
                        c.same(generic(c.I, x), generic(c.I, y), f"optimize({case}) after one iteration, part {k}", loc=loc)
        # ------------------------------------------------------------- stopping
        Es = {n: setup(c, n, False, "A", cell) for n in (2, 5)}
        more = {"ferro": 0, "antiferro": 3, "spiral": 6}[kind]
        s0s = {n: arr([[1, 0, 0]] + [[0, 0, 1]] * (n - 1)) for n in Es}
        n0, q0 = arr([0, 0, 1]), a0 if exact else arr([Fraction_(1, 2), 0, Fraction_(-1, 4)])
        runs = [(p, m, False, 1) for p in patterns(kind, rep.thorough) for m in (None, 10)]
        never = ((False, ("big", 0), False),) * 3
        late = patterns(kind, False)
        late = [p for p in late if not met(p[0], kind) and not met(p[1], kind) and met(p[2], kind)][0]
        runs += [(never, m, False, 1) for m in (0, 1, 2, 3)] + [(late, m, False, 1) for m in (0, 1, 2, 3)]
        runs += [(late, None, h, 1) for h in (1, 2, 3, 1000)] + [(never, m, h, 1) for m in (1, 2, 3) for h in (1, 2, 1000)]
        # very small and large tolerances, and those that apply when none are given
        runs += [(p, None, False, f) for f in (Fraction_(1, 2**40), Fraction_(2**20), "default") for p in (late, patterns(kind, False)[-1], patterns(kind, False)[0])]
        runs += [(never, 3, False, "default")]
        rot4 = [[1, 0, 0], [0, -1, 0], [-1, 0, 0], [0, 1, 0]]
        runs = [x + (2,) for x in runs] + [(((True, ("big", i), True), (True, True, True), (True, True, True)), None, h, 1, 5) for i in (2, 3, 4) for h in (False, 1)]
        for pat, limit, hist, f, nspins in runs:
            E, s0, size = Es[nspins], s0s[nspins], 3 * nspins + more
            with rep.ob(f"{kind}: tolerances met {pat}, at most {limit} iterations{', history every ' + str(hist) if hist else ''}{', tolerances times ' + str(f) if f != 1 else ''}{f', {nspins} spins' if nspins != 2 else ''}"):
                full = (Fraction_(95, 10**7),) * 3 if f == "default" else tuple(x * f for x in TOL)
                tol = None if f == "default" else full[:2] if kind == "ferro" else full
                for m in ("_lambda", "_compute_search_direction", f"_{kind}_grad"):
                    if E.cls.lookup(m) is None:
                        raise Undecided(f"Energy.{m} does not exist")
                es, ts = script(kind, pat, full, nspins)
                stop = next((k + 1 for k in range(3) if met(pat[k], kind)), None)
                its = min(x for x in (stop, limit) if x is not None)
                extra = f", save_history=True, history_filename='history.txt', history_step={hist}" if hist else ""
                c.I.fs.clear()
                r = c.run(SCRIPT + f"""
v = E.optimize(kind, initial_guess={guess}, tolerance=tol, max_iterations=limit, antiferro_q=a{extra})
for m in (kind, "_" + kind + "_grad", "_lambda", "_compute_search_direction"):
    delattr(E, m)
last = seen[-1]
lines = []
""" + ("with open('history.txt') as f:\n    lines = f.read().split('\\n')\n" if hist else ""),
                          E=E, kind=kind, size=size, limit=limit, a=a0, s=Arr(s0.data.copy()), n=Arr(n0.data.copy()), q=Arr(q0.data.copy()), tol=tol,
                          es=arr(es), ts=PList([(TRUE, arr(t)) for t in ts]))
                r.must_pass(f"optimize({kind})")
                cnt = r["calls"]
                cnt = {k: cnt.d[k][1] for k in cnt.d} if isinstance(cnt, PDict) else {}
                if 0 in [cnt.get(k, 0) for k in "E"] or (its and 0 in [cnt.get(k, 0) for k in "GLD"]):
                    raise Undecided(f"the optimisation does not use the replaced methods: {cnt}")
                v = r["v"]
                want = [arr([rot4[its]] + [[0, 0, 1]] * (nspins - 1)), n0, arr([q0.data[0], q0.data[1], q0.data[2] + (N.const(Fraction_(its, 8)) if kind == "spiral" else 0)])][:1 if kind == "ferro" else 3]
                if not isinstance(v, tuple) or len(v) != len(want):
                    raise Bad(f"optimize({kind}) returns {short(v)}", loc)
                for k, (x, y) in enumerate(zip(v, want)):
                    c.same(x, y, f"{kind}, tolerances met {pat}, limit {limit}: part {k} of the result ({its} iterations expected)", loc=loc)
                if cnt["G"] != its:
                    raise Undecided(f"number of gradients {cnt['G']}")
                c.same(PList([(TRUE, x) for x in (r["last"].el[k][1] for k in range(len(want)))]), PList([(TRUE, x) for x in v]), f"{kind}: the last configuration evaluated is returned", loc=loc)
                if hist:
                    lines = [x for g, x in r["lines"].el]
                    if not all(isinstance(x, str) for x in lines):
                        raise Undecided(f"history {lines[:2]}")
                    rows_ = [x.split() for x in lines if x.strip()]
                    ncol = len(rows_[0])
                    if len(rows_) != its + 2:
                        raise Bad(f"{kind}: history of {its} iterations (limit {limit}, step {hist}) has {len(rows_) - 1} records, expected {its + 1}", loc)
                    for k, row in enumerate(rows_[1:]):
                        if len(row) != ncol:
                            raise Bad(f"{kind}: record {k} of the history has {len(row)} values, the header {ncol}", loc)
                        conf = rot4[k] + [0, 0, 1] * (nspins - 1) + ([0, 0, 1] + [value_at(x, 0).real for x in q0.data[:2]] + [value_at(q0.data[2], 0).real + (k / 8 if kind == "spiral" else 0)] if kind != "ferro" else [])
                        nn = 1 + len(tol) - 1
                        if abs(float(row[0]) - float(es[k])) > 1e-6:
                            raise Bad(f"{kind}: record {k} of the history has energy {row[0]}, expected {float(es[k])}", loc)
                        for x, y in zip(row[nn:], conf):
                            if abs(float(x) - y) > 1e-6:
                                raise Bad(f"{kind}: record {k} of the history holds {row[nn:]}, expected {conf}", loc)
    # ------------------------------------------------------------- arguments
    E = setup(c)
    env = {"E": E, "s": unitrows(2), "n": vec("n"), "q": vec("q"), "a": vec("a")}
    for bad in ("'fm'", "'Ferro'", "3", "-1", "None", "'0'", "''", "'spiral '", "0.5", "(0,)", "['ferro']"):
        with rep.ob(f"case {bad} is rejected"):
            c.run(f"E.optimize({bad}, max_iterations=0, antiferro_q=a)", **env).must_raise(f"optimize({bad})", "ValueError")
    for kind in KIND:
        for k in (1, 2, 3, 4):
            good = k == (2 if kind == "ferro" else 3)
            with rep.ob(f"{kind}: tolerance of size {k} is {'accepted' if good else 'rejected'}"):
                r = c.run(f"E.optimize('{kind}', tolerance=(1e-3,) * {k}, max_iterations=0, antiferro_q=a)", **env)
                if good:
                    r.must_pass(f"tolerance of size {k}")
                else:
                    r.must_raise(f"{kind} with tolerance of size {k}", "ValueError")
    rep.minimum = 60
