"""Value numbering of the three steps: the map applied to every direction is computed from its action on the
coordinate axes, so orthogonality, determinant and rotation vector are read off as terms in the symbolic search
direction and step length."""
from .c18 import *

SIZES = {"ferro": (1, 2, 3), "antiferro": (1, 2), "spiral": (1, 2)}


def rot(c, kind, up, n, sd, step, rows_, q):
    x0 = arr(rows_)
    r = c.run("x = x0 if k == 'ferro' else [x0, q]\ny = f(x, d" + ("" if step is None else ", t") + ")\n" + ("a = y\nz = 0" if kind == "ferro" else "a = y[0]\nz = y[1]"),
              f=up, x0=x0, q=Arr(q.data.copy()), d=Arr(sd.data.copy()), t=step, k=kind)
    r.must_pass("step")
    return generic(c.I, r["a"]), r["z"]


def det(m):
    return sum((m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3)), N.const(0))


def rodrigues(w):
    """Matrix of the rotation with rotation vector w."""
    th = N.sqrt(dot(w, w))
    k = kmat([x / th for x in w])
    return madd([[N.const(int(i == j)) for j in range(3)] for i in range(3)], msc(k, N.sin(th)), msc(mm(k, k), 1 - N.cos(th)))


def check(rep):
    N.SCALE[6] = 1                                    # no large angles: nothing is left of their digits
    c = rep.ctx()
    q0 = vec("q")
    for kind in KIND:
        for n in SIZES[kind]:
            nrow = n + (kind != "ferro")
            size = 3 * nrow + (3 if kind == "spiral" else 0)
            sdv = arr([sym(f"d{i}") for i in range(size)])
            for sn, step in (("symbolic step", sym("t")), ("unit step", None), ("negative step", N.const(-2)), ("small step", N.const(Fraction_(1, 1000)))):
                with rep.ob(f"step of {kind}, {n} spins, {sn}"):
                    up = priv(c, f"_update_x_{kind}")
                    loc = (up.module.name, up.node.lineno, up.node.name) if isinstance(up, Func) else None
                    t = N.const(1) if step is None else step
                    cols = []
                    for j in range(3):
                        y, z = rot(c, kind, up, n, sdv, step, [[int(i == j) for i in range(3)]] * nrow, q0)
                        cols.append(y)
                    any_, z = rot(c, kind, up, n, sdv, step, [[sym(f"v{i}{x}") for x in "xyz"] for i in range(nrow)], q0)
                    if any_.data.shape != (nrow, 3):
                        raise Bad(f"step of {kind} returns shape {any_.data.shape}", loc)
                    for i in range(nrow):
                        who = f"step of {kind}: {'spin ' + str(i) if i < n else 'axis'}"
                        R = [[cols[j].data[i][r] for j in range(3)] for r in range(3)]
                        RtR = mm([list(x) for x in zip(*R)], R)
                        c.same(arr(RtR), arr(EYE), f"{who}: lengths and angles", loc=loc)
                        c.same(generic(c.I, det(R)), N.const(1), f"{who}: determinant", loc=loc)
                        a12, a13, a23 = [sdv.data[3 * i + m] * t for m in range(3)]
                        c.same(arr(R), arr(rodrigues([-a23, a13, -a12])), f"{who}: rotation by its generators", loc=loc)
                        v = [sym(f"v{i}{x}") for x in "xyz"]
                        c.same(Arr(any_.data[i].copy()), arr(mv(R, v)), f"{who}: action on an arbitrary direction", loc=loc)
                        c.same(generic(c.I, dot(list(any_.data[i]), list(any_.data[i]))), dot(v, v), f"{who}: length", loc=loc)
                    if kind == "antiferro":
                        c.same(z, q0, "step of antiferro: spiral vector", loc=loc)
                    if kind == "spiral":
                        c.same(z, arr([q0.data[i] + sdv.data[3 * nrow + i] * t for i in range(3)]), "step of spiral: spiral vector", loc=loc)
            zero = arr([0] * size)
            for sn, sd, step in (("zero step", sdv, N.const(0)), ("integer zero step", sdv, 0), ("zero direction", zero, sym("t")), ("zero direction, unit step", zero, None)):
                with rep.ob(f"step of {kind}, {n} spins: {sn} changes nothing"):
                    up = priv(c, f"_update_x_{kind}")
                    loc = (up.module.name, up.node.lineno, up.node.name) if isinstance(up, Func) else None
                    v = [[sym(f"v{i}{x}") for x in "xyz"] for i in range(nrow)]
                    y, z = rot(c, kind, up, n, sd, step, v, q0)
                    c.same(y, arr(v), f"step of {kind}: {sn}", loc=loc)
                    if kind != "ferro":
                        c.same(z, q0, f"step of {kind}: {sn}, spiral vector", loc=loc)
            # only some of the directions turn
            for lazy in range(nrow):
                with rep.ob(f"step of {kind}, {n} spins: direction {lazy} has no generators"):
                    up = priv(c, f"_update_x_{kind}")
                    loc = (up.module.name, up.node.lineno, up.node.name) if isinstance(up, Func) else None
                    v = [[sym(f"v{i}{x}") for x in "xyz"] for i in range(nrow)]
                    sd = arr([N.const(0) if i // 3 == lazy else sdv.data[i] for i in range(size)])
                    y, z = rot(c, kind, up, n, sd, sym("t"), v, q0)
                    for i in range(nrow):
                        t = sym("t")
                        a12, a13, a23 = [sd.data[3 * i + m] * t for m in range(3)]
                        want = v[i] if i == lazy else mv(rodrigues([-a23, a13, -a12]), v[i])
                        c.same(Arr(y.data[i].copy()), arr(want), f"step of {kind}: direction {i} when direction {lazy} stays", loc=loc)
    rep.minimum = 40
