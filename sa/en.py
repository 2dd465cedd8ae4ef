"""Reference expressions for the energies (built from the stored terms, host side)."""
import math

from .ham import *

SI = {"BOHR_MAGNETON": 9.2740100783e-24, "ELECTRON_VOLT": 1.602176634e-19}


def mub(c):
    """Bohr magneton in internal units, as the package defines both."""
    si = c.I.load("magnopy.units.si").vars
    ins = c.I.load("magnopy.units.inside").vars
    return N.const(si["BOHR_MAGNETON"]) / N.const(ins["ENERGY"])


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), N.const(0))


def mv(m, v):
    return [dot(m[i], v) for i in range(3)]


def mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(3)), N.const(0)) for j in range(3)] for i in range(3)]


def madd(*ms):
    out = [[N.const(0)] * 3 for _ in range(3)]
    for m in ms:
        out = [[out[i][j] + m[i][j] for j in range(3)] for i in range(3)]
    return out


def msc(m, f):
    f = N.const(f)
    return [[x * f for x in r] for r in m]


def unit(v):
    n = N.sqrt(dot(v, v))
    return [x / n for x in v]


def rows(a):
    return [[x for x in r] for r in a.data]


def kmat(n):
    z = N.const(0)
    return [[z, -n[2], n[1]], [n[2], z, -n[0]], [-n[1], n[0], z]]


def quad(a, m, b):
    return dot(a, mv(m, b))


def terms(st, notation, S):
    """[(atom 1, atom 2, R, energy coefficient matrix)]: E = sum e1 M e2."""
    dc, sn, ef, of = notation
    out = []
    for k, (g, m) in st.ex.items():
        f = N.const(ef)
        if not sn:
            f = f * S[k[0]] * S[k[1]]
        out.append((k[0], k[1], st.R[k], msc(rows(m), f)))
    for a, (g, m) in st.on.items():
        f = N.const(of)
        if not sn:
            f = f * S[a] * S[a]
        out.append((a, a, (0, 0, 0), msc(rows(m), f)))
    return out


def energy(kind, ts, e, n=None, q=None, cell=None):
    """kind: ferro, antiferro, spiral; e: {atom: direction}."""
    total = N.const(0)
    e = {a: unit(v) for a, v in e.items()}
    if kind != "ferro":
        n = unit(n)
        nn = [[n[i] * n[j] for j in range(3)] for i in range(3)]
        K = kmat(n)
        P = msc(mm(K, K), -1)
    for a, b, R, M_ in ts:
        if kind == "ferro":
            C = M_
        else:
            d = [sum((N.const(R[i]) * cell[i][j] for i in range(3)), N.const(0)) for j in range(3)]
            phi = dot(q, d)
            co, si = N.cos(phi), N.sin(phi)
            if kind == "antiferro":
                C = madd(mm(nn, mm(M_, nn)), msc(mm(P, mm(M_, P)), co))
            else:
                h = N.const(Fraction_(1, 2))
                C = madd(mm(nn, mm(M_, nn)), msc(madd(mm(P, mm(M_, P)), msc(mm(K, mm(M_, K)), -1)), co * h), msc(madd(mm(P, mm(M_, K)), mm(K, mm(M_, P))), si * h))
        total = total + quad(e[a], C, e[b])
    return total


def zeeman(kind, c, atoms, e, S, g, h, n=None):
    total = N.const(0)
    for a in atoms:
        u = unit(e[a])
        if kind != "ferro":
            nn = unit(n)
            s = dot(nn, u)
            u = [x * s for x in nn]
        total = total + mub(c) * g[a] * S[a] * dot(h, u)
    return total
