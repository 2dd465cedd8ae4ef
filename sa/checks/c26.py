"""Gated evaluation of verification and reader on files in which one line is a free choice between many forms
(well-formed or not): whatever the choice, either the dedicated exception is raised or the file is read."""
from .c25 import *

ODD = ["1_0", "+1", "1e4", "-", "--", "0x1", "1,5", "x", ".", "1d0", "_", "True", "-0", "00", "1.", ".5", "0", "A", "B", "q", "1e", "#", "1#2", "é", "２"]


def forms(line):
    t = line.split()
    out = []
    for i in range(len(t)):
        for o in ODD:
            out.append(" ".join(t[:i] + [o] + t[i + 1:]))
        out.append(" ".join(t[:i] + t[i + 1:]))
        out += [" ".join(t[:i] + [t[i].upper()] + t[i + 1:]), " ".join(t[:i] + [t[i].lower()] + t[i + 1:]), " ".join(t[:i] + [t[i][:1]] + t[i + 1:]), " ".join(t[:i] + [t[i] + "s"] + t[i + 1:])]
        out.append(" ".join(t[:i] + [t[i]] + t[i:]))
        for j in range(i + 1, len(t)):
            out.append(" ".join(t[:i] + [t[j]] + t[i + 1:j] + [t[i]] + t[j + 1:]))
    for u in ("a", "b", "r", "m", "e", "j", "k", "Ry", "angstromic", "Rel", "meV", "eV", "MEV", "Bohr"):
        out.append(line + " " + u)
        if t:
            out.append(t[0] + " " + u)
    out += [line + "   ", "  " + line, line.replace(" ", "\t"), line + " # comment", line + "#comment"]
    seen = {line}
    return [x for x in out if x.split("#")[0].strip() and not (x in seen or seen.add(x))]


SECT = {"cell": (["cell", "atoms"], (None, 1, 3), (0,)), "atoms": (["cell", "atoms"], (1,), (0, 1)), "notation": (["cell", "atoms", "notation", "exchange", "on-site"], (None,), (0,)),
        "exchange": (["notation", "exchange", "cell", "atoms"], (None,), (0,)), "on-site": (["cell", "on-site", "atoms", "notation"], (None,), (0,)), "cone-axis": (["cell", "atoms", "cone-axis"], (1,), (0,)),
        "spiral-vector": (["cell", "atoms", "spiral-vector"], (1,), (0,))}


def single(c, ls, k, alts, tag):
    """Guard variables: line k takes exactly one of its forms."""
    out = []
    for i, ln in enumerate(ls):
        t = first([ln])[0]
        if i != k:
            out.append(G([(TRUE, t + "\n")]))
            continue
        cases, rest = [], TRUE
        for j, a in enumerate(alts):
            v = M.var(("choice " + tag, i, j, f"line {i + 1} is {a!r}"))
            cases.append((M.conj(rest, v), a + "\n"))
            rest = M.diff(rest, v)
        out.append(G(cases + [(rest, t + "\n")]))
    return out


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "io.load_spinham_txt")
    for s, (sections, scales, heads) in SECT.items():
        for scale in scales:
            for head in heads:
                ls = lines_of(sections, scale, head)
                k0 = start(ls, sections, s)
                k1 = next((i for i in range(k0 + 1, len(ls)) if ls[i] is None), len(ls))
                for k in range(k0 + 1, k1):
                    if ls[k] is None or isinstance(ls[k], str):
                        continue
                    for base in ls[k][0] if rep.thorough else ls[k][0][:1]:
                        one = list(ls)
                        one[k] = ([base], [])
                        alts = [a for a in forms(base) if k > k0 + 1 or a.split("#")[0].split()[:1] and a.split("#")[0].split()[0].lower() == base.split()[0].lower()]
                        for part in range(0, len(alts), 40):
                            with rep.ob(f"section {s}, line {k - k0} ({base}); scale {scale}; header {head}; forms {part + 1}-{min(part + 40, len(alts))} of {len(alts)}"):
                                part_ = alts[part:part + 40]
                                try:
                                    r, g, other = verify(c, single(c, one, k, part_, f"{s}{scale}{head}{base}{part}"))
                                except Undecided:
                                    other = []
                                    for a in part_:        # one form at a time
                                        plain = first(one)
                                        plain[k] = a
                                        r, g, o = verify(c, text(plain))
                                        other += [(h, e, a) for h, e in o]
                                for h, e, *a in other:
                                    raise Bad(f"{c.I.show_exc(e)} for {a[0] if a else witness(h)}", loc)
    # which data of the atoms is given, and for which atoms it is missing
    n = 0
    for pos in ("r1 r2 r3", "x y z", "x y z r1 r2 r3", "R1 R2 R3"):
        for spin in ("", "sx sy sz", "s", "s sp st", "s sx sy sz", "sx sy sz s sp st", "l lp lt", "j"):
            for more in ("", "q", "g q", "lx ly lz", "foo"):
                n += 1
                if not rep.thorough and (pos[0] in "R" or more in ("lx ly lz",) and spin or pos == "x y z r1 r2 r3" and more):
                    continue
                with rep.ob(f"columns name {pos} {spin} {more}"):
                    cols = f"{pos} {spin} {more}".split()
                    head = " ".join(cols[:n % (len(cols) + 1)] + ["name"] + cols[n % (len(cols) + 1):])
                    rows_, rest = [], TRUE
                    sets = [m for m in range(2 ** len(cols)) if len(cols) < 6 or bin(m).count("1") in (0, 1, 2, len(cols))]
                    for m in sets:
                        v = [("-" if m >> i & 1 else f"{i % 3 + 1}.5") for i in range(len(cols))]
                        rows_.append(" ".join(v[:n % (len(cols) + 1)] + ["A"] + v[n % (len(cols) + 1):]))
                    good = rows_[0]
                    for part in range(0, len(rows_), 16):
                        lines = first(lines_of(["cell", "atoms", "cone-axis"], None, 0))
                        k = lines.index(HEADS[0][0][0])
                        lines[k:k + 3] = [head, good, good.replace("A", "B")]
                        g0 = text(lines)
                        cases, rest = [], TRUE
                        for j, w in enumerate(rows_[part:part + 16]):
                            v = M.var(("choice col", n, part + j, f"atom is {w!r}"))
                            cases.append((M.conj(rest, v), w + "\n"))
                            rest = M.diff(rest, v)
                        g0[k + 1] = G(cases + [(rest, good + "\n")])
                        try:
                            r, g, other = verify(c, g0)
                        except Undecided:
                            other = []
                            for w in rows_[part:part + 16]:
                                lines[k + 1] = w
                                r, g, o = verify(c, text(lines))
                                other += [(h, e, w) for h, e in o]
                        for h, e, *a in other:
                            raise Bad(f"{c.I.show_exc(e)} for {a[0] if a else witness(h)}", loc)
    rep.minimum = 40
