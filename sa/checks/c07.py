"""Abstract interpretation of filter() and filtered() on Hamiltonians with bonds of every class and
symbolic geometry: the guard under which each term survives is compared, at every sample point of the
symbols, with the required condition on its length and on the custom filter; with exactly known
geometry the bounds themselves are compared (inclusive)."""
import itertools

from ..ham import *


def holds_at(g, k):
    """Truth of a guard at sample k (None: depends on something else)."""
    if g <= 1:
        return g == TRUE
    asg = {}
    for v in M.support(g):
        b = atom_at(M.names[v], k)
        if b is None:
            return None
        asg[v] = b
    return M.restrict(g, asg) == TRUE


def dist(b, cell, pos):
    """Distance from atom 1 in the cell 0 to atom 2 in the cell R."""
    R = [N.const(x) for x in b.R]
    rel = [R[i] + pos[b.b].data[i] - pos[b.a].data[i] for i in range(3)]
    car = [sum((rel[i] * cell.data[i, j] for i in range(3)), N.const(0)) for j in range(3)]
    return N.sqrt(sum((x * x for x in car), N.const(0)))


CALLS = {"filter": "H.filter({a})", "filtered": "H = H.filtered({a})"}


def check(rep):
    c = rep.ctx()
    ef, of = sym("ef"), sym("of")
    bonds = universe((("A", "B"), ("B", "A"), ("A", "A"), ("B", "B")), PATTERNS if rep.thorough else [(0, 0, 0), (1, 0, 0), (0, -1, 0), (1, -1, 0), (0, 1, 1), (-1, 0, 1), (-1, -1, -1)])
    cell, pos = mat("cell"), {a: vec("pos" + a) for a in "AB"}
    for i, b in enumerate(bonds):
        b.J = mat("J" + b.tag)
    t = sym("t")
    D = [sym(f"d{n}", positive=True, lo=lo, hi=hi) for n, (lo, hi) in enumerate(((0.3, 2), (2, 8), (5, 15), (9, 25)))]
    filters = {None: None, "iso": ("lambda p: p.iso > t", lambda m: m[0, 0] + m[1, 1] + m[2, 2] - N.const(3) * t), "zz": ("lambda p: p.zz < t", lambda m: t - m[2, 2]),
               "xz": ("lambda p: p.xz < t", lambda m: t - m[0, 2]), "dmi": ("lambda p: p.dmi[2] > t", lambda m: m[0, 1] - m[1, 0] - N.const(2) * t)}
    one_way = ("xz", "dmi")                           # tell a bond from its mirror: without double counting only
    spec = {"undefined": None, "off": (False, False, ef, of), "on": (True, False, ef, of)}
    cases = []
    for mx, mn, f in itertools.product((None, 0, 1, 2, 3), (None, 0, 1, 2), filters):
        if sum(x is not None for x in (mx, mn, f)) == 3 and (mx, mn) not in ((2, 0), (3, 1)) and not rep.thorough:
            continue
        cases.append((mx, mn, f))
    def probe(H, b):
        """Guard of presence and matrix of a bond, or of the on-site term of an atom."""
        key = "(a, b, R)" if isinstance(b, Bond) else "a"
        e = {"a": b.a, "b": b.b, "R": b.R} if isinstance(b, Bond) else {"a": b}
        q = c.run(f"k = {key}\np = k in H\nm = np.array(H[k].matrix) if p else None", H=H, **e)
        q.must_pass("looking a term up")
        g = c.I.truth(q["p"])
        return g, q["m"]
    # every bond for itself (with on-site terms), so that guards stay small
    for nt, nv in spec.items():
        r0s = {}
        for mx, mn, f in cases:
            if f in one_way and (nt == "on" or mn is not None or mx not in (None, 2)):
                continue
            if nt == "undefined" and mx is not None and mn is not None and not rep.thorough:
                continue
            args = ", ".join(x for x in (f"max_distance=D{mx}" if mx is not None else "", f"min_distance=D{mn}" if mn is not None else "", f"custom_filter={filters[f][0]}" if f else "") if x)
            for b in bonds:
                for how, call in CALLS.items():
                    if how == "filtered" and not rep.thorough and b.tag not in ("AB(0,0,0)", "BA(0,-,0)", "AA(+,-,0)"):
                        continue
                    with rep.ob(f"{nt}: {how}({args}) {b.tag}"):
                        loc = anchor(c, f"SpinHamiltonian.{how}")
                        if b.tag not in r0s:
                            r = build(c, [b], "AB", nv)
                            r0s[b.tag] = (r, observe(c, r["H"]))
                        r0, st0 = r0s[b.tag]
                        q = c.run("H = H0.copy()\nH1 = H\n" + call.format(a=args) + "\nn = [x.name for x in H.atoms]", H0=r0["H"], t=t, **{f"D{n}": d for n, d in enumerate(D)})
                        q.must_pass(f"{how}({args})")
                        for x in ([b] if b.self_mirror else [b, b.mirror]):
                            k = x.key(c.I)
                            g, m = probe(q["H"], x)
                            if k not in st0.ex:
                                if feasible(g):
                                    raise Bad(f"{how}({args}) makes a new bond {x}", loc)
                                continue
                            if g != FALSE:
                                c.same(m, st0.ex[k][1], f"{how}({args}): parameter of {x}", pc=g, loc=loc)
                            d = dist(x, cell, pos)
                            for s in range(N.K):
                                want = True
                                if mx is not None:
                                    want &= bool(d.v[s] <= D[mx].v[s])
                                if mn is not None:
                                    want &= bool(d.v[s] >= D[mn].v[s])
                                if f:
                                    want &= bool(filters[f][1](st0.ex[k][1].data).v[s] > 0)
                                h = holds_at(g, s)
                                if h is None:
                                    raise Undecided("survival of a bond depends on something unknown: " + M.describe(g)[:100])
                                if h != want:
                                    raise Bad(f"{how}({args}): bond {x} of length {d.v[s]:.4g} {'stays' if h else 'is removed'} for max={mx is not None and D[mx].v[s]}, min={mn is not None and D[mn].v[s]}, filter={f}", loc)
                        for a, (g0, m0) in st0.on.items():
                            g, m = probe(q["H"], a)
                            if g != FALSE:
                                c.same(m, m0, f"{how}({args}): on-site parameter of {a}", pc=g, loc=loc)
                            for s in range(N.K):
                                want = mn is None and (not f or bool(filters[f][1](m0.data).v[s] > 0))
                                h = holds_at(g, s)
                                if h is None:
                                    raise Undecided("survival of an on-site term depends on something unknown")
                                if h != want:
                                    raise Bad(f"{how}({args}): on-site term of {a} {'stays' if h else 'is removed'}", loc)
                        if how == "filtered":
                            expect_terms(c, observe(c, q["H1"]), [(x, st0.ex[x.key(c.I)][1]) for x in ([b] if b.self_mirror else [b, b.mirror]) if x.key(c.I) in st0.ex],
                                         {a: m for a, (g, m) in st0.on.items()}, f"original after filtered({args})", loc)
                        c.same(q["n"], PList([(TRUE, "A"), (TRUE, "B")]), "atoms after filtering", loc=loc)
    # exact geometry: bounds are inclusive
    ident = arr([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    z = arr([0, 0, 0])
    pB = arr([0, 0, Fraction_(1, 2)])
    ex = [Bond("A", "A", (1, 0, 0), mat("J1"), "1"), Bond("A", "A", (3, 4, 0), mat("J2"), "5"), Bond("B", "B", (0, 0, -2), mat("J3"), "2"), Bond("A", "B", (0, 0, 0), mat("J4"), "0.5"),
          Bond("B", "A", (0, 0, 1), mat("J5"), "0.5 "), Bond("A", "B", (0, 0, 1), mat("J6"), "1.5"), Bond("A", "A", (0, 0, 0), mat("J7"), "0"), Bond("B", "A", (-2, -1, Fraction_(0) if False else -2 + 1), mat("J8"), "?")]
    ex = ex[:-1]
    lens = {b.tag: Fraction_(b.tag.strip()) for b in ex}
    bounds = [Fraction_(x) for x in ("0", "0.25", "0.499999", "0.5", "0.500001", "0.75", "0.99999", "1", "1.00001", "1.5", "1.75", "2", "3", "4.9999", "5", "5.0001", "6")]
    for nt, nv in spec.items():
        r0 = build(c, ex, "AB", nv, env={"cell": ident, "posA": z, "posB": pB})
        st0 = observe(c, r0["H"])
        bob = {}
        for b in ex:
            bob[b.key(c.I)] = b
            bob.setdefault(b.mirror.key(c.I), Bond(b.b, b.a, b.mirror.R, b.mirror.J, b.tag))
        for mx in [None] + bounds:
            for mn in [None] + bounds:
                if mx is not None and mn is not None and nt != "off":
                    continue
                args = ", ".join(x for x in (f"max_distance={float(mx)}" if mx is not None else "", f"min_distance={float(mn)}" if mn is not None else "") if x)
                with rep.ob(f"{nt}: exact lengths, filter({args})"):
                    loc = anchor(c, "SpinHamiltonian.filter")
                    q = c.run(f"H = H0.filtered({args})", H0=r0["H"])
                    q.must_pass(f"filtered({args})")
                    ok = lambda L: (mx is None or L <= mx) and (mn is None or L >= mn)
                    want = [(bob[k], m) for k, (g, m) in st0.ex.items() if ok(lens[bob[k].tag])]
                    expect_terms(c, observe(c, q["H"]), want, {a: m for a, (g, m) in st0.on.items() if ok(0)}, f"filter({args})", loc)
    # lengths that are no round numbers: a bound that differs in any digit counts
    uneven = arr([[Fraction_(12345678, 10**7), 0, 0], [0, Fraction_(30003, 10**4), 0], [0, 0, Fraction_(1000000123, 10**9)]])
    odd = {"x": (Bond("A", "A", (1, 0, 0), mat("J1"), "x"), Fraction_(12345678, 10**7)), "y": (Bond("B", "B", (0, -2, 0), mat("J2"), "y"), Fraction_(60006, 10**4)),
           "z": (Bond("A", "B", (0, 0, 0), mat("J3"), "z"), Fraction_(1000000123, 2 * 10**9))}
    for nt, nv in spec.items():
        for tag, (b, L) in odd.items():
            for d in (Fraction_(1, 10**3), Fraction_(1, 10**5), Fraction_(1, 10**6)):
                for s in (1, -1):
                    for kind in ("max", "min"):
                        with rep.ob(f"{nt}: bond of length {float(L)}, {kind}_distance {float(L + s * d)}"):
                            r0 = build(c, [b], "", nv, env={"cell": uneven, "posA": z, "posB": pB})
                            st0 = observe(c, r0["H"])
                            c.run(f"H.filter({kind}_distance=d)", H=r0["H"], d=N.const(L + s * d)).must_pass("filter")
                            st = observe(c, r0["H"])
                            stays = (s > 0) == (kind == "max")
                            expect_terms(c, st, [(Bond(k[0], k[1], st0.R[k], m, tag), m) for k, (g, m) in st0.ex.items()] if stays else [], {},
                                         f"{kind}_distance={float(L + s * d)} with a bond of length {float(L)}", anchor(c, "SpinHamiltonian.filter"))
    # filters by truth value
    for nt, nv in spec.items():
        for f, keep in (("lambda p: True", True), ("lambda p: False", False), ("lambda p: 1", True), ("lambda p: None", False), ("lambda p: []", False)):
            with rep.ob(f"{nt}: custom filter {f}"):
                r0 = build(c, ex, "AB", nv)
                st0 = observe(c, r0["H"])
                bob = {k: Bond(k[0], k[1], st0.R[k], m, "") for k, (g, m) in st0.ex.items()}
                c.run(f"H.filter(custom_filter={f})", H=r0["H"]).must_pass("filter")
                expect_terms(c, observe(c, r0["H"]), [(bob[k], m) for k, (g, m) in st0.ex.items()] if keep else [], {a: m for a, (g, m) in st0.on.items()} if keep else {}, f"custom filter {f}", anchor(c, "SpinHamiltonian.filter"))
    rep.minimum = 200
