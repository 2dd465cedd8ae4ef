"""Fault analysis of the diagonalisation: every decomposition may fail or succeed independently (guards), and every
combination is followed; the matrices handed to the diagonalisation and the results of every outcome are compared with
the specification, and matrices whose definiteness is known are value-numbered."""
import numpy as np

from .. import num as N

N.general()

from .c31 import *
from .c39 import family, to_arr

OPTIONS = [{}, {"zeros_to_none": True}, {"return_G": True}, {"return_imaginary": True}, {"zeros_to_none": True, "return_G": True},
           {"zeros_to_none": True, "return_imaginary": True}, {"return_G": True, "return_imaginary": True},
           {"zeros_to_none": True, "return_G": True, "return_imaginary": True}]
IMPORT = "from magnopy.magnons.diagonalization import solve_via_colpa\nfrom magnopy.exceptions import ColpaFailed\n"


def cases(v):
    return [(g, x) for g, x in v.cases if feasible(g)] if isinstance(v, G) else [(TRUE, v)]


def mats(I, a):
    """One complex matrix per sample point."""
    a = generic(I, a)
    out = [np.empty(a.data.shape, dtype=complex) for _ in range(N.K)]
    for idx in np.ndindex(*a.data.shape):
        v = N.const(generic(I, a.data[idx])).v * np.ones(N.K)
        for s in range(N.K):
            out[s][idx] = v[s]
    return out


def csym_(name):
    return sym(name + "r") + N.const(1j) * sym(name + "i")


def check(rep):
    # -- the diagonalisation itself
    for n in (1, 2, 3):
        c = rep.ctx()
        loc = anchor(c, "magnons.diagonalization.solve_via_colpa")
        D = arr([[csym_(f"d{i}{j}") for j in range(2 * n)] for i in range(2 * n)])
        with rep.ob(f"{2 * n} x {2 * n}: a failing decomposition is reported as ColpaFailed"):
            c.I.linalg_fail["cholesky"] = True
            q = c.run(IMPORT + "E, G = solve_via_colpa(D)\nE, G = np.array(E), np.array(G)\nes, gs = E.shape, G.shape", D=D)
            bad = [x for x in q.exc_names() if x != "ColpaFailed"]
            if bad:
                raise Bad(f"the decomposition fails and {', '.join(bad)} comes out", loc)
            if "ColpaFailed" not in q.exc_names():
                raise Bad("a failing decomposition is not reported", loc)
            for x, want in (("es", (2 * n,)), ("gs", (2 * n, 2 * n))):
                for g, v in cases(q[x]):
                    if isinstance(v, tuple) and v != want:
                        raise Bad(f"a result of shape {v}, expected {want}", loc)
        c = rep.ctx()
        c.I.linalg_fail["cholesky"] = "numeric"
        pd = dict((name, ms) for name, ms, real in family(n) if name in ("generic", "real", "the identity"))
        for name, ms in pd.items():
            proj = np.eye(2 * n)
            proj[0, 0] = 0
            neg_ = {"negated": [-m for m in ms], "one negative energy": [m - np.eye(2 * n) * (np.linalg.eigvalsh(m)[0] + 0.1) for m in ms],
                    "positive semidefinite": [m @ proj @ m.conj().T for m in ms], "zero": [np.zeros((2 * n, 2 * n))] * N.K}
            for kind, x in neg_.items():
                with rep.ob(f"{2 * n} x {2 * n}, {name}, {kind}"):
                    q = c.run(IMPORT + "solve_via_colpa(D)", D=to_arr(x))
                    q.must_raise(f"a matrix that is not positive definite ({kind})", "ColpaFailed")
    # -- the chain of attempts, every decomposition failing or not
    for s in HAM[:3]:
        c = rep.ctx()
        loc = anchor(c, "MagnonDispersion.omega")
        with rep.ob(f"{s[0]}: building the dispersion"):
            H, names = make_(c, s, None)
            n = len(names)
            q = c.run("D = MagnonDispersion(H)\nh = D.h(k)", H=H, k=vec("k"))
            q.must_pass("building the dispersion")
            D, h = q["D"], mats(c.I, q["h"])
        c.I.linalg_fail["cholesky"] = True
        for o in OPTIONS if s is HAM[0] or rep.thorough else OPTIONS[::3]:
            opt = "".join(f", {k}={v}" for k, v in o.items())
            on = ", ".join(o) or "no options"
            with rep.ob(f"{s[0]}, {on}: every outcome of the attempts"):
                del c.I.effects[:]
                src = f"r = D.omega(k{opt})\n" + ("w, G = r\nG = np.array(G)\ngs = G.shape\n" if "return_G" in o else "w = r\n") + "w = np.array(w)\nws = w.shape\n"
                q = c.run(src, D=D, k=vec("k"))
                q.must_pass("magnon energies")
                m = 2 * n if "return_G" in o else n
                for x, want in (("ws", (m,)),) + ((("gs", (2 * n, 2 * n)),) if "return_G" in o else ()):
                    for g, v in cases(q[x]):
                        if tuple(v) != want:
                            raise Bad(f"{s[0]}, {on}: a result of shape {tuple(v)} instead of {want}", loc)
                att = [e for e in c.I.effects if e[0] == "cholesky"]
                want = [("h", h, 1), ("h shifted", h, 1), ("-h", h, -1), ("-h shifted", h, -1)]
                if len(att) != 4:
                    raise Bad(f"{s[0]}, {on}: {len(att)} attempts to diagonalise, expected h, shifted h, -h and shifted -h", loc)
                for i, (e, (nm, ref, sg)) in enumerate(zip(att, want)):
                    got = mats(c.I, e[2])
                    for a, b in zip(got, ref):
                        d = a - sg * b
                        if np.abs(d - np.diag(np.diag(d))).max() > 1e-9 * np.abs(b).max():
                            raise Bad(f"{s[0]}, {on}: attempt {i + 1} does not diagonalise {nm}", loc)
                        x = np.diag(d)
                        if i % 2 == 0 and np.abs(x).max() > 1e-12 * np.abs(b).max():
                            raise Bad(f"{s[0]}, {on}: attempt {i + 1} does not diagonalise {nm}", loc)
                        if i % 2 and (np.abs(x - x[0]).max() > 1e-11 * np.abs(b).max() or not 1e-12 < x[0].real < 1e-5):
                            raise Bad(f"{s[0]}, {on}: attempt {i + 1} does not raise all energies by the same small amount", loc)
                    if i:
                        if M.conj(e[1], M.neg(att[i - 1][1])) != FALSE:
                            raise Bad(f"{s[0]}, {on}: attempt {i + 1} is made without attempt {i} before", loc)
                        if M.implies(att[i - 1][1], e[1]):
                            raise Bad(f"{s[0]}, {on}: attempt {i + 1} is made although attempt {i} succeeds", loc)
    # -- matrices of known definiteness
    for s in HAM[:1] + HAM[2:4]:
        c = rep.ctx()
        c.I.linalg_fail["cholesky"] = "numeric"
        loc = anchor(c, "MagnonDispersion.omega")
        with rep.ob(f"{s[0]}: building the dispersion"):
            H, names = make_(c, s, None)
            n = len(names)
            q = c.run("D = MagnonDispersion(H)", H=H)
            q.must_pass("building the dispersion")
            D = q["D"]
        fam = dict((name, ms) for name, ms, real in family(n))
        eye = np.eye(2 * n)
        fam["small energies"] = [m * 1e-4 for m in fam["generic"]]
        for name in ("generic", "all energies equal", "the identity", "small energies"):
            ms = fam[name]
            proj = eye.copy()
            proj[0, 0] = proj[n, n] = 0
            semi = [np.linalg.cholesky(m) @ proj @ np.linalg.cholesky(m).conj().T for m in ms]
            kinds = {"positive definite": (ms, 1, False), "negative definite": ([-m for m in ms], -1, False), "positive semidefinite": (semi, 1, True), "negative semidefinite": ([-m for m in semi], -1, True),
                     "indefinite": ([m @ np.diag([1.0] + [-1.0] * (2 * n - 1)) @ m.conj().T for m in ms], 0, False)}
            for kind, (x, sign, loose) in kinds.items():
                if name == "small energies" and (loose or not sign):
                    continue
                for o in OPTIONS if name == "generic" else OPTIONS[2:3] + OPTIONS[4:5]:
                    opt = "".join(f", {k}={v}" for k, v in o.items())
                    on = ", ".join(o) or "no options"
                    with rep.ob(f"{s[0]}, {name}, {kind}, {on}"):
                        src = f"D.h = lambda k: 1 * X\nr = D.omega(k{opt})\n" + ("w, G = r\nG = np.array(G)\n" if "return_G" in o else "w = r\n") + "w = np.array(w)\n"
                        q = c.run(src, D=D, k=vec("k"), X=to_arr(x))
                        q.must_pass("magnon energies")
                        m = 2 * n if "return_G" in o else n
                        w = generic(c.I, q["w"])
                        if w.data.shape != (m,):
                            raise Bad(f"{s[0]}, {kind}, {on}: {w.data.shape} energies, expected {(m,)}", loc)
                        w = mats(c.I, w)
                        G = mats(c.I, q["G"]) if "return_G" in o and not (sign == 0 and "zeros_to_none" in o) else None
                        if sign == 0:
                            for y in w:
                                if "zeros_to_none" in o and not np.isnan(y).all():
                                    raise Bad(f"{s[0]}, {kind}, {on}: energies {y}, expected undefined values", loc)
                                if "zeros_to_none" not in o and np.abs(y).max() > 0:
                                    raise Bad(f"{s[0]}, {kind}, {on}: energies {y}, expected zeros", loc)
                            if G is not None and max(np.abs(y).max() for y in G) > 0:
                                raise Bad(f"{s[0]}, {kind}, {on}: a transformation that is not zero", loc)
                            continue
                        for i, y in enumerate(w):
                            tol = 1e-6 if not loose else 1e-3
                            if np.isnan(y).any() or np.abs(y.imag).max() > tol:
                                raise Bad(f"{s[0]}, {kind}, {on}: energies {y}", loc)
                            a = x[i] * sign
                            ev = np.linalg.eigvals(np.diag([1.0] * n + [-1.0] * n) @ a).real
                            ref = np.concatenate((np.sort(ev)[::-1][:n], -np.sort(ev)[::-1][n:])) * sign
                            if np.abs(y.real - ref[:m]).max() > tol * ((name != "small energies") + np.abs(ref).max()) + loose * (name == "small energies"):
                                raise Bad(f"{s[0]}, {kind}, {on}: energies {y.real}, expected {ref[:m]}", loc)
                            if G is not None:
                                d = G[i].conj().T @ np.diag(y) @ G[i] - x[i]
                                if np.abs(d).max() > tol * (1 + np.abs(x[i]).max()):
                                    raise Bad(f"{s[0]}, {kind}, {on}: the energies do not belong to the transformation", loc)
    # -- several wave vectors at once
    c = rep.ctx()
    c.I.linalg_fail["cholesky"] = "numeric"
    loc = anchor(c, "MagnonDispersion.omegas")
    with rep.ob("several wave vectors"):
        H, names = make_(c, HAM[0], None)
        n = len(names)
        fam = dict((name, ms) for name, ms, real in family(n))
        X, Y = to_arr(fam["generic"]), to_arr([m @ np.diag([1.0] + [-1.0] * (2 * n - 1)) @ m.conj().T for m in fam["generic"]])
        env = {"b": mat("b"), "X": X, "Y": Y, "p": sym("p", positive=True), "H": H}
        src = "from wulfric import Kpoints\nD = MagnonDispersion(H)\nK = Kpoints(b[0], b[1], b[2], coordinates=[[0, 0, 0], [0.5, 0, 0], [0.5, 0.25, 0]], names=['G', 'X', 'M'], path='G-X|M-G')\nL = [[p, 0, 0], [2 * p, 0, p], [3 * p, p, 0]]\n"
        for who, h in (("every matrix positive definite", "D.h = lambda k: (1 + k @ k) * X\n"), ("no matrix definite", "D.h = lambda k: (1 + k @ k) * Y\n")):
            for o in ("", ", zeros_to_none=True", ", zeros_to_none=False"):
                for pts, lst in (("L", "L"), ("np.array(L)", "L"), ("K", "K.points()"), ("L[:1]", "L[:1]")):
                    for call in ("D.omegas", "D"):
                        with rep.ob(f"several wave vectors, {who}{o}, {pts}, {call}"):
                            q = c.run(src + h + f"got = np.array({call}({pts}{o}))\nwant = [D.omega(k{o}) for k in {lst}]\nsh = got.shape", **env)
                            q.must_pass("energies of several wave vectors")
                            want = [generic(c.I, x) for g, x in q["want"].el]
                            got = generic(c.I, q["got"])
                            if tuple(q["sh"]) != (n, len(want)):
                                raise Bad(f"a result of shape {q['sh']} for {len(want)} wave vectors and {n} atoms", loc)
                            for i, w in enumerate(want):
                                for j in range(n):
                                    a, b = (np.array(N.const(generic(c.I, x)).v * np.ones(N.K), dtype=complex) for x in (got.data[j, i], w.data[j]))
                                    if not np.allclose(a, b, rtol=1e-9, equal_nan=True):
                                        raise Bad(f"energy {j} of wave vector {i}", loc)
