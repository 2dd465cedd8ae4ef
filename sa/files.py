"""Text files with symbolic numbers, and the reference meaning of units."""
import re
import itertools

from .en import *

SEP = "=" * 20
SUB = "-" * 20


def T(lines):
    """Text of a file; a line is a string or a sequence of tokens (strings or numbers)."""
    parts = []
    for ln in lines:
        if isinstance(ln, (str, TStr)):
            parts.append(ln)
        else:
            for k, t in enumerate(ln):
                if k:
                    parts.append(" ")
                if isinstance(t, (str, TStr)):
                    parts.append(t)
                elif isinstance(t, int):
                    parts.append(str(t))
                else:
                    parts.append(TStr((Hole(t, ""),)))
        parts.append("\n")
    return mkstr(parts)


def si(c, name):
    return N.const(c.I.load("magnopy.units.si").vars[name])


def inside(c, name):
    v = c.I.load("magnopy.units.inside").vars[name]
    return v if isinstance(v, str) else N.const(v)


def length_factor(c, unit):
    """unit: 'A' or 'B'."""
    return (si(c, "ANGSTROM") if unit == "A" else si(c, "BOHR_RADIUS")) / inside(c, "LENGTH")


def energy_factor(c, unit):
    j = {"meV": N.const(Fraction_(1, 1000)) * si(c, "ELECTRON_VOLT"), "eV": si(c, "ELECTRON_VOLT"), "J": N.const(1), "K": si(c, "K_BOLTZMANN"),
         "Ry": si(c, "PLANK_CONSTANT") * si(c, "SPEED_OF_LIGHT") * si(c, "RYDBERG_CONSTANT")}[unit]
    return j / inside(c, "ENERGY")


def load(c, lines, extra="", name="model.txt", **env):
    """Write the file and read it with the text reader; H is the Hamiltonian."""
    c.I.fs.clear()
    text = lines if isinstance(lines, (str, TStr)) else T(lines)
    return c.run(f"from magnopy import io\nwith open('{name}', 'w') as f_:\n    f_.write(text_)\nH = io.load_spinham('{name}'{extra})", text_=text, **env)


def section(*lines):
    return [SEP] + list(lines)


def cellsec(unit=None, scale=None, tag="cell"):
    out = [SEP, "Cell" + (f" {unit}" if unit else "")]
    if scale is not None:
        out.append(tuple(scale))
    m = mat(tag)
    return out + [tuple(m.data[i]) for i in range(3)]


ATOMSEC = [SEP, "Atoms", "name r1 r2 r3 Sx Sy Sz", ("A", sym("posAx"), sym("posAy"), sym("posAz"), sym("sAx"), sym("sAy"), sym("sAz")),
           ("B", sym("posBx"), sym("posBy"), sym("posBz"), sym("sBx"), sym("sBy"), sym("sBz"))]
NOTSEC = [SEP, "Notation", "double-counting false", "spin-normalized true", ("exchange-factor", sym("ef")), ("on-site-factor", sym("of"))]
NOT = (False, True, sym("ef"), sym("of"))
OBSATOMS = """
cell_ = np.array(H.cell)
atoms_ = [(a.name, np.array(a.position), np.array(a.position) @ H.cell, np.array(a.spin_vector), a.g_factor, a.charge) for a in H.atoms]
"""


def content(c, r):
    q = c.run(OBSATOMS, H=r["H"])
    q.must_pass("reading the Hamiltonian")
    return q["cell_"], [x for g, x in q["atoms_"].el]


def mvec(m, v):
    """Row vector times matrix (rows are lattice vectors)."""
    return [sum((N.const(v[i]) * m[i][j] for i in range(3)), N.const(0)) for j in range(3)]


def coarse(text, least, exponent=False):
    """Formats of the numbers in a text that keep fewer decimals than `least` (or no exponent where one is needed)."""
    out = []
    for h in text.parts if isinstance(text, TStr) else ():
        v = h.value if isinstance(h, Hole) else None
        if not isinstance(v, Num) or v.isint and not v.npf or h.spec == "" and not exponent:
            continue
        m = re.search(r"(?:\.(\d+))?([eEfFgGdn%]?)$", h.spec)
        kind, n = m.group(2), int(m.group(1)) if m.group(1) else 6
        if h.spec == "" or kind == "" and not m.group(1):
            continue                                  # shortest text that reads back as the same number
        if kind in "gGn" or kind == "":
            n -= 1
        if n < least or exponent and kind in "fF%d":
            out.append(h.spec)
    return out
