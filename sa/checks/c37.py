"""Value numbering of the spherical angles: for vectors of every sign pattern with symbolic components the modulus and the
angles must give the vector back, lie in their ranges, and agree between degrees and radians."""
import itertools
import math

from ..en import *


def positive(name):
    x = sym(name)
    return N.sqrt(x * x)


def vectors():
    for signs in itertools.product((-1, 0, 1), repeat=3):
        yield f"signs {signs}", [positive("xyz"[i]) * N.const(s) if s else N.const(0) for i, s in enumerate(signs)], signs
    for s in (1, -1):
        for t in (N.const(Fraction_(1, 100)), N.const(Fraction_(1, 2000))):
            for u in itertools.product((-1, 0, 1), repeat=2):
                if any(u):
                    yield f"close to the {'+' if s > 0 else '-'}z axis {u} {t}", [positive("x") * N.const(u[0]) * t, positive("y") * N.const(u[1]) * t, (positive("x") + positive("y")) * N.const(s)], None
    # short and long ones
    for f in (Fraction_(1, 10**5), Fraction_(10**5), Fraction_(1, 10**9)):
        for signs in ((1, 1, 1), (-1, 1, -1), (1, -1, 0), (0, 0, 1), (0, 0, -1), (0, -1, 0), (-1, -1, 1)):
            yield f"signs {signs}, times {float(f)}", [positive("xyz"[i]) * N.const(s * f) if s else N.const(0) for i, s in enumerate(signs)], signs
    # any vector
    yield "any", [sym("x"), sym("y"), sym("z")], None


def check(rep):
    N.general()
    c = rep.ctx()
    loc = anchor(c, "geometry.vector_to_angles")
    two_pi = 2 * math.pi
    for name, v, signs in vectors():
        for deg in (True, False, None):
            for kind in ("array", "list"):
                if kind == "list" and deg is not True:
                    continue
                with rep.ob(f"{name}, {'degrees' if deg else 'radians' if deg is False else 'default'}, {kind}"):
                    call = "vector_to_angles(v" + ("" if deg is None else f", in_degrees={deg}") + ")"
                    r = c.run("from magnopy.geometry import vector_to_angles\nr, t, p = " + call, v=arr(v) if kind == "array" else PList([(TRUE, x) for x in v]))
                    r.must_pass("converting the vector")
                    m, t, p = [N.const(generic(c.I, r[x])) for x in "rtp"]
                    c.same(m, N.sqrt(dot(v, v)), f"modulus ({name})", loc=loc)
                    f = N.const(1) if deg is False else N.const(math.pi / 180)
                    t, p = t * f, p * f
                    got = [m * N.sin(t) * N.cos(p), m * N.sin(t) * N.sin(p), m * N.cos(t)]
                    for k in range(N.K):
                        size = value_at(m, k).real
                        for g, w, a in zip(got, v, "xyz"):
                            if abs(value_at(g, k) - value_at(w, k)) > 1e-7 * max(size, 1e-300):
                                raise Bad(f"component {a} from the angles is {value_at(g, k).real}, that of the vector {value_at(w, k).real} ({name})", loc)
                        if not -1e-12 <= value_at(t, k).real <= math.pi + 1e-12:
                            raise Bad(f"polar angle {value_at(t, k).real}", loc)
                        if not -1e-12 <= value_at(p, k).real <= two_pi + 1e-12:
                            raise Bad(f"azimuthal angle {value_at(p, k).real}", loc)
