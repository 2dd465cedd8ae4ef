"""Value numbering of the diagonalisation: for symbolic positive definite matrices of several sizes and multiplicities the
energies and the transformation must satisfy the defining identities, whatever eigenvectors, in whatever order, the
decompositions return within their specification."""
import numpy as np

from ..en import *


def numbers(name, n):
    """Matrices of generic complex values, one per sample point."""
    out = []
    base = [[(sym(f"{name}r{i}{j}"), sym(f"{name}i{i}{j}")) for j in range(n)] for i in range(n)]
    for s in range(N.K):
        out.append(np.array([[complex(re.v[s]) + 1j * complex(im.v[s]) for re, im in r] for r in base]) / 6)
    return out


def to_arr(ms, real=False):
    n = ms[0].shape[0]
    d = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            v = np.array([m[i, j].real if real else m[i, j] for m in ms])
            d[i, j] = N.Num(v, (np.abs(v) + 1) * 1e-13, "?", None, False, False, "entry", ())
    return Arr(d, "float" if real else "complex")


def metric(n):
    return np.diag([1.0] * n + [-1.0] * n)


def bosonic(ms):
    """A bosonic transformation from positive definite matrices (host side, an orthonormal basis)."""
    out = []
    for d in ms:
        n = len(d) // 2
        k = np.linalg.cholesky(d).conj().T
        w, u = np.linalg.eigh(k @ metric(n) @ k.conj().T)
        w, u = w[::-1], u[:, ::-1]
        out.append(np.linalg.inv(np.linalg.inv(k) @ u @ np.diag(np.sqrt(np.abs(w)))))
    return out


def family(n):
    X = numbers(f"X{n}", 2 * n)
    Y = numbers(f"Y{n}", 2 * n)
    eye = np.eye(2 * n)
    pd = [x @ x.conj().T + eye * 0.3 for x in X]
    T = bosonic([y @ y.conj().T + eye * 0.3 for y in Y])
    real = [x.real @ x.real.T + eye * 0.3 for x in X]
    TR = bosonic([y.real @ y.real.T + eye * 0.3 for y in Y])
    yield "generic", pd, False
    yield "real", real, True
    deg = lambda T, e: [t.conj().T @ np.diag(e) @ t for t in T]
    yield "all energies equal", deg(T, [2.0] * (2 * n)), False
    yield "real, all energies equal", deg(TR, [2.0] * (2 * n)), True
    yield "the identity", [eye] * N.K, True
    yield "diagonal", [np.diag([1.0 + 0.5 * i for i in range(n)] * 2)] * N.K, True
    yield "diagonal, other order", [np.diag([3.0 - 0.5 * i for i in range(n)] + [0.5 + i for i in range(n)])] * N.K, True
    if n > 1:
        yield "two energies equal", deg(T, ([3.0, 3.0, 1.0, 2.0][:n] + [3.0, 3.0, 1.0, 2.0][:n])), False
        yield "equal among the first only", deg(T, [2.0] * n + [1.0 + 0.7 * i for i in range(n)]), False
        yield "equal among the last only", deg(T, [1.0 + 0.7 * i for i in range(n)] + [2.0] * n), False
        yield "very different sizes", deg(T, [1e-3 * 30 ** i for i in range(n)] * 2), False


def check(rep):
    for n in (1, 2, 3) if not rep.thorough else (1, 2, 3, 4, 5):
        for name, ms, real in family(n):
            c = rep.ctx()
            c.I.linalg_fail["cholesky"] = "numeric"
            loc = anchor(c, "magnons.diagonalization.solve_via_colpa")
            tag = f"{2 * n} x {2 * n}, {name}"
            D = to_arr(ms, real)
            before = D.data.copy()
            with rep.ob(f"{tag}: energies and transformation"):
                q = c.run("from magnopy.magnons.diagonalization import solve_via_colpa\nE, G = solve_via_colpa(D)\nE, G = np.array(E), np.array(G)\nes, gs = E.shape, G.shape", D=D)
                q.must_pass("diagonalising a positive definite matrix")
                if tuple(q["es"]) != (2 * n,) or tuple(q["gs"]) != (2 * n, 2 * n):
                    raise Bad(f"{tag}: results of shape {q['es']} and {q['gs']}", loc)
                E, G = [generic(c.I, x) for x in q["E"].data], [[generic(c.I, x) for x in r] for r in q["G"].data]
                for s in range(N.K):
                    e = np.array([complex(N.const(x).v[s]) for x in E])
                    if np.abs(e.imag).max() > 1e-9 * np.abs(e).max() or e.real.min() <= 0:
                        raise Bad(f"{tag}: energies {e} are not real and positive", loc)
                    e = e.real
                    tol = 1e-9 * e.max()
                    if any(e[i] < e[i + 1] - tol for i in range(n - 1)):
                        raise Bad(f"{tag}: the first {n} energies {e} are not in descending order", loc)
                    if any(e[i] > e[i + 1] + tol for i in range(n, 2 * n - 1)):
                        raise Bad(f"{tag}: the last {n} energies {e} are not in ascending order", loc)
                for i in range(2 * n):
                    for j in range(2 * n):
                        got = sum((N.conj(G[l][i]) * E[l] * G[l][j] for l in range(2 * n)), N.const(0))
                        near(got, N.const(c.I.restrict(D.data[i, j])), f"{tag}: G^+ E G [{i}, {j}]", loc)
                        got = sum((G[i][l] * N.conj(G[j][l]) * N.const(1 if l < n else -1) for l in range(2 * n)), N.const(0))
                        near(got, N.const(0 if i != j else (1 if i < n else -1)), f"{tag}: G g G^+ [{i}, {j}]", loc)
                c.same(D, to_arr(ms, real), f"{tag}: matrix of the caller", loc=loc)
                if any(D.data[i] is not before[i] for i in np.ndindex(*before.shape)):
                    raise Bad(f"{tag}: entries of the caller's matrix are overwritten", loc)
            with rep.ob(f"{tag}: given as nested lists"):
                q2 = c.run("from magnopy.magnons.diagonalization import solve_via_colpa\nE, G = solve_via_colpa([[x for x in r] for r in D])", D=to_arr(ms, real))
                q2.must_pass("diagonalising a positive definite matrix")
                c.same(q2["E"], q["E"], f"{tag}: energies", loc=loc)
                c.same(q2["G"], q["G"], f"{tag}: transformation", loc=loc)


def near(a, b, what, loc, tol=1e-7):
    a, b = N.const(a), N.const(b)
    d = max(abs(complex(x) - complex(y)) for x, y in zip(a.v * np.ones(N.K), b.v * np.ones(N.K)))
    m = 1 + max(abs(complex(y)) for y in b.v * np.ones(N.K))
    if not d <= tol * m:
        raise Bad(f"{what}: differs by {d:.3g}", loc)
