"""Gated evaluation of the verification on a file in which every line is a free choice between a well-formed
form and the malformed ones.  One evaluation covers every combination of choices at once (a choice is a boolean
of the guards); decided: the exception is raised exactly when at least one malformed line was chosen, and every
error reported to the log implies the exception."""
import ast

from ..files import *

MAJ, MIN = "=" * 12, "-" * 12
# line: (well-formed forms, malformed forms)
CELL = (["Cell", "cell Angstrom", "CELL bohr", "Cell A"], ["cell m", "cell A B", "Cell 1", "cell nm"])
SCALES = {None: None, 1: (["2.0", "-1.5", "1e-1"], ["0", "0.0", "a", "1 2", "1 2 3 4"]), 3: (["1 2 3", "1.0 .5 2e3"], ["1 0 2", "1 2 -3", "-1 2 3", "1 2", "1 2 three", "1,2,3", "-1 -2 3", "1 2 0", "0 1 1", "1 -1 -1"])}
VECTORS = [([v], [v[:-2], v + " 0", v[:-1] + "x", "-"]) for v in ("4 0 0", "0.5 3.0 0", "0 1e-1 +5")]
ATOMS = (["Atoms", "atoms relative", "ATOMS Angstrom", "Atoms BOHR"], ["atoms m", "atoms a b", "Atoms nano"])
HEADS = [(["name r1 r2 r3 sx sy sz", "Name R1 R2 R3 sx sy sz"], ["name r1 r2 r3 sx sy sx", "nam r1 r2 r3 sx sy sz", "name r1 r2 x sx sy sz", "name r1 r2 r3 sx sy q", "name r1 r2 r3 sx lx sz", "name r1 r2 r3 sx sy jz", "r1 r2 r3 sx sy sz q",
          "name x r2 r3 sx sy sz"]),
         (["name g x y z q s sp st", "name z y x q st sp s g", "name g x y z q l lp lt", "name q x y z j jp jt g"], ["name g x y z q s sp sx", "name x x y z q s sp st", "name g x y z s sx sy st", "name g x y z q s l j1", "name g x y r3 q s sp st"]),
         (["name r1 r2 r3 s sx sy sz", "name x y z l lx ly lz", "name x y z j jx jy jz", "NAME r1 r2 r3 g q s l"], ["name x y z q g sp st", "name x y z s sx sy q", "name r1 r2 r3 sx sy sz st", "name x y z s sp q g", "name x y z st s q g", "name x y z lp lt s q", "name q g l s sx sy sz", "name r1 r2 z s sx sy sz"]),
         (["name x y z s sp st sx sy sz", "name r1 r2 r3 x y z s sp st", "name r1 r2 r3 lt lp l lx lz ly", "name x y z j l s jx jy jz"], ["name x y z q sp st sx sy sz", "name x y z s sp st sx sy q", "name r1 r2 r3 s sp sx sy sz q", "name x y z s sx sy sz lx ly", "name x y z l sp st sx sy sz", "name x y r1 r2 q s sp st g"])]
# what only makes sense for some headers is malformed everywhere in these lines
ATOMLINES = [[("A", " 0 0 0 0 0 1"), ("B", " 0.5 .5 1e-1 -1 0 0")], [("A", " 2 0 0 0 1 1 90 0"), ("B", " 2.0 0.5 .5 1e-1 1 - - -")],
             [("A", " 2 0 0 1 1 1 90"), ("B", " 2.0 0.5 .5 1e-1 1 - -")], [("A", " 2 0 0 1 1 1 90 0 7"), ("B", " 2.0 0.5 .5 1e-1 1 1 2 - -")]]


def atomline(n, rest):
    return [n + rest], [n + rest[:-2], n + rest + " 1", n + rest.replace(" 0", " x", 1).replace(" 0.5", " y", 1), "_" + n + rest, n + "__" + rest, "#".join(("", n + rest)) and ("@" + n + rest)]


NOTATION = [(["Notation"], ["notation A", "notation a b"]), (["double-counting true", "d no", "Double False"], ["double-counting", "double-counting 7", "double-counting yes no", "spin-normalised maybe"]),
            (["spin-normalized false", "s yes"], ["spin-normalized perhaps", "spin-normalized", "d no"]), (["exchange-factor 0.5", "e -1", "ex 1e3"], ["exchange-factor half", "exchange-factor 1 2", "x-factor 1", "d true"]),
            (["on-site-factor 1", "o -.5"], ["on-site-factor one", "on-site-factor", "d false"])]
EXCHANGE = [(["Exchange", "exchange meV", "Exchange eV", "EXCHANGE joule", "exchange K", "exchange Rydberg"], ["exchange x", "exchange m eV", "exchange 1"]), None,
            (["A B 0 0 1", "A A 1 0 0", "B A -2 +3 0"], ["A B 0 0", "A B 0 0 0.5", "A B 0 0 x", "C B 0 0 1", "A c 0 0 1", "a b 0 0 1", "A B 1 0 0 1", "_A B 0 0 1", "A @B 1 1 1"]),
            (["isotropic 1.5", "i -1", "Iso 1e-3"], ["isotropic", "isotropic 1 2", "isotropic x", "dmi 1 2 3"]),
            (["dmi 1 2 3", "DMI -1 .5 1e1", "d 0 0 0"], ["dmi 1 2", "dmi 1 2 3 4", "dmi x 1 2", "symm 1 2 3 4 5"]),
            (["symmetric-anisotropy 1 2 3 4 5", "S 1 2 3 4 -5"], ["symmetric-anisotropy 1 2 3 4", "symm 1 2 3 4 5 6", "symm 1 2 3 4 x", "iso 1 2"]), None,
            (["B B 0 1 0"], ["B B 0 1", "D B 0 1 0"]), (["Matrix", "m"], ["matrix 1", "m 1 2 3"]), (["1 2 3", "1e1 -2 .3"], ["1 2", "1 2 3 4", "1 x 3"]), (["4 5 6"], ["4 5", "4 5 6 7", "a b c"]), (["7 8 9"], ["7 8", "7 8 9 0", "7 8 z"]), (["dmi 1 2 3", "D 3 2 1"], ["dmi 1 2", "d x 1 2"]), (["Isotropic 2", "i 0"], ["iso", "isotropic 1 2", "I x", "symm 1 2"])]
ONSITE = [(["On-site", "on-site eV", "ON-SITE Kelvin", "on-site j"], ["on-site x", "on-site m e"]), None, (["A"], ["A B", "C", "a", "_A"]), (["1 2 3 4 5 6", "1e1 -2 .3 4 5 6"], ["1 2 3 4 5", "1 2 3 4 5 6 7", "1 2 3 4 5 x"]), None,
          (["B"], ["B 1", "E", "b"]), (["6 5 4 3 2 1"], ["6 5 4 3 2", "6 5 4 3 2 1 0", "six 5 4 3 2 1"])]
CONE = [(["Cone-axis", "cone-axis absolute", "Cone-axis A"], ["cone-axis 1", "cone-axis a b", "cone-axis x"]), (["0 0 1", "1 2 3", "30 45"], ["1", "1 2 3 4", "0 0 z"])]
SPIRAL = [(["Spiral-vector", "spiral-vector relative", "Spiral-vector R", "spiral-vector Absolute"], ["spiral-vector 1", "spiral-vector r a", "spiral-vector x"]), (["0 0 0.5", "1 -2 .3"], ["0 0", "0 0 0 1", "0 0 z"])]


def lines_of(sections, scale, head, sep=MAJ):
    out = []
    for s in sections:
        out.append(None)
        if s == "cell":
            out += [CELL] + ([SCALES[scale]] if scale else []) + VECTORS
        elif s == "atoms":
            out += [ATOMS, ([HEADS[head][0][0]], [])] + [atomline(*a) for a in ATOMLINES[head]]
        elif s == "notation":
            out += NOTATION if "exchange" in sections else [(g, [t for t in w if t != "x-factor 1"]) for g, w in NOTATION]
        elif s == "exchange":
            out += EXCHANGE[:1] + [x if x is not None else "-" for x in EXCHANGE[1:]]
        elif s == "on-site":
            out += ONSITE[:1] + [x if x is not None else "-" for x in ONSITE[1:]]
        elif s == "cone-axis":
            out += CONE
        elif s == "spiral-vector":
            out += SPIRAL
    return out


def choices(tag, lines, forms=None):
    """Gated lines and the guard 'at least one malformed line'."""
    out, bad, n = [], FALSE, 0
    for i, ln in enumerate(lines):
        if ln is None or isinstance(ln, str):
            out.append(G([(TRUE, (MAJ if ln is None else MIN) + "\n")]))
            continue
        good, wrong = ln
        if forms is not None:
            good = [good[forms % len(good)]]
        rest, cases = TRUE, []
        for j, (w, t) in enumerate([(True, t) for t in wrong] + [(False, t) for t in good[1:]]):
            v = M.var(("choice " + tag, i, j, f"line {i + 1} is {t!r}"))
            n += 1
            g = M.conj(rest, v)
            cases.append((g, t + "\n"))
            if w:
                bad = M.disj(bad, g)
            rest = M.diff(rest, v)
        cases.append((rest, good[0] + "\n"))
        out.append(G(cases))
    return out, bad, n


def witness(g):
    """The chosen lines of one satisfying assignment."""
    out = []
    for v in sorted(M.support(g)):
        if M.restrict(g, {v: False}) != FALSE:
            g = M.restrict(g, {v: False})
        else:
            g = M.restrict(g, {v: True})
            out.append(M.names[v][-1])
    return "; ".join(out) or "well-formed file"


def verify(c, lines):
    """(guard of the dedicated exception, other failures, guards of logged errors)"""
    c.I.fs.clear()
    c.I.opened.clear()
    c.I.fs[c.I.hkey("model.txt")] = PList([(TRUE, x) for x in lines], TRUE)
    c.I.fs_names[c.I.hkey("model.txt")] = "model.txt"
    c.I.logged.clear()
    r = c.run("from magnopy import io\nH = io.load_spinham('model.txt')")
    g, other = FALSE, []
    for h, e in r.excs:
        if e.cls.name == "FailedToVerifyTxtModelFile":
            g = M.disj(g, h)
        elif feasible(h):
            other.append((h, e))
    return r, g, other


REQ = ["cell", "atoms"]
FILES = [(REQ, None, 0), (REQ[::-1], 1, 1), (REQ + ["notation", "exchange"], 3, 0), (["exchange", "cell", "notation", "atoms"], None, 1), (["on-site", "atoms", "notation", "cell"], 1, 0),
         (REQ + ["cone-axis", "spiral-vector"], None, 0), (["spiral-vector", "cone-axis", "atoms", "cell"], 3, 1), (["cell", "atoms", "notation", "exchange", "on-site", "cone-axis", "spiral-vector"], 1, 0),
         (["spiral-vector", "on-site", "exchange", "notation", "cone-axis", "cell", "atoms"], 3, 0)]


def decide(c, lines, bad, loc, reached, total=None):
    r, g, other = verify(c, lines)
    for h, e in other:
        raise Bad(f"{c.I.show_exc(e)} for {witness(h)}", loc)
    lost = M.diff(bad, g)
    if feasible(lost):
        raise Bad(f"malformed file passes the verification: {witness(lost)}", loc)
    extra = M.diff(g, bad)
    if feasible(extra):
        raise Bad(f"well-formed file is rejected: {witness(extra)}", loc)
    for h, l in c.I.logged:
        reached.add(l)
        if feasible(M.diff(h, g)):
            raise Bad(f"reported error does not fail the verification: {witness(M.diff(h, g))}", l)


def text(lines):
    """Choices with one form only."""
    return [G([(TRUE, x + "\n")]) for x in lines]


def first(lines):
    """The well-formed file without choices."""
    return [MAJ if x is None else (MIN if isinstance(x, str) else x[0][0]) for x in lines]


def short(n, s):
    return s * n


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "io.load_spinham_txt")
    reached = set()
    total = 0
    for sections, scale, head in FILES:
        for forms in (0, 1, 2) if rep.thorough else (0,):
            with rep.ob(f"sections {', '.join(sections)}; scale {scale}; header {head}; default form {forms}"):
                lines, bad, n = choices("a", lines_of(sections, scale, head), forms)
                decide(c, lines, bad, loc, reached)
                total += n
    # the header of the data selects what the other lines mean: one file per header, other lines free
    for head, (good, wrong) in enumerate(HEADS):
        for sections, scale in ((["cell", "atoms", "cone-axis", "spiral-vector"], 1), (["on-site", "atoms", "notation", "cell"], None), (FILES[-1][0], 3)) if rep.thorough else ((FILES[-1][0], 1),):
            for h in good[1:] + wrong:
                with rep.ob(f"header of the atoms {h!r}; sections {', '.join(sections)}"):
                    ls = lines_of(sections, scale, head)
                    k = next(i for i, x in enumerate(ls) if isinstance(x, tuple) and x[0][0] == HEADS[head][0][0])
                    ls[k] = ([h], [])
                    if h in wrong:
                        lines, bad, n = choices("h", ls, 0)
                        decide(c, lines, TRUE, loc, reached)
                    else:
                        lines, bad, n = choices("h", ls, 0)
                        decide(c, lines, bad, loc, reached)
    # wrong structure: alone, and with every other error free
    for sections, scale, head in FILES if rep.thorough else FILES[3:]:
        base = lines_of(sections, scale, head)
        for k in range(len(base)):
            for what, new in (("is missing", []), ("is followed by a short separator (=)", [base[k], "!" + "=" * 9]), ("is followed by a short separator (-)", [base[k], "!" + "-" * 9]), ("is followed by a very short separator (=)", [base[k], "!="]), ("is followed by a very short separator (-)", [base[k], "!-"]), ("is given twice", [base[k], base[k]])):
                x = base[k]
                if x is None or isinstance(x, str):
                    if what == "is given twice" or what == "is missing" and x is None and k == 0:
                        continue
                inside_ = next(s for s in sections[::-1] if k > start(base, sections, s) or x is None and k == start(base, sections, s))
                if "(-)" in what and (inside_ not in ("exchange", "on-site") or x is None):
                    continue
                ok = verdict(base, sections, k, what, inside_)
                if ok is None:
                    continue
                with rep.ob(f"sections {', '.join(sections)}; line {k + 1} {what}"):
                    ls = base[:k] + new + base[k + 1:]
                    plain = [y[1:] if isinstance(y, str) and y[:1] == "!" else (MAJ if y is None else (MIN if isinstance(y, str) else y[0][0])) for y in ls]
                    decide(c, text(plain), FALSE if ok else TRUE, loc, reached)
    # every set of sections
    allsec = ["notation", "cell", "on-site", "atoms", "exchange", "spiral-vector", "cone-axis"]
    for m in range(1, 2 ** len(allsec)):
        use = [s for i, s in enumerate(allsec) if m >> i & 1]
        ok = "cell" in use and "atoms" in use and ("notation" in use or not ("exchange" in use or "on-site" in use))
        with rep.ob(f"set of sections {', '.join(use)}"):
            decide(c, text(first(lines_of(use, None, 0))), FALSE if ok else TRUE, loc, reached)
    for extra in (["exchange"], ["Exchange", MIN], ["exchange eV", MIN, MIN], ["on-site"], ["On-site", MIN], ["on-site K", MIN, "A"], ["exchange", MIN, "A B 0 0 1"], ["exchange", "A B 0 0 1", MIN, MIN]):
        for order in (0, 1):
            with rep.ob(f"section without parameters: {extra}; {'last' if order else 'first'}"):
                base, other = first(lines_of(["cell", "atoms", "notation"], None, 0)), [MAJ] + extra
                decide(c, text(base + other if order else other + base), TRUE, loc, reached)
    sites = error_sites(c)
    hit = {s for s in sites if any(l[0] == s[0] and s[1] <= l[1] <= s[2] for l in reached)}
    rep.notes.append(f"{total} free line choices; {len(hit)} of {len(sites)} places that report an error to the log reached" + (f"; not reached: {sorted((a.split('.')[-1], b) for a, b, _ in sites - hit)}" if sites - hit else ""))
    rep.minimum = 5


def error_sites(c):
    out = set()
    for name, m in c.I.modules.items():
        if not name.startswith("magnopy.io.txt.verify") or not hasattr(m, "tree"):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "error":
                out.add((name, n.lineno, n.end_lineno))
    return out


def start(base, sections, s):
    """Index of the separator before section s."""
    k = [i for i, x in enumerate(base) if x is None]
    return k[sections.index(s)]


def verdict(base, sections, k, what, s):
    """Is the file with one changed line well-formed (None: not specified)?"""
    if "short" in what:
        return False
    i = k - start(base, sections, s) - 1       # line within the section
    n = sum(1 for x in base[start(base, sections, s) + 1:] if True) if s == sections[-1] else start(base, sections, sections[sections.index(s) + 1]) - start(base, sections, s) - 1
    if base[k] is None:
        return None
    if isinstance(base[k], str):
        return None
    if i == 0:
        return None                # without its header the section is another one
    t = base[k][0][0]
    twice = what == "is given twice"
    if s == "cell":
        if not twice and n == 5:
            # without the scale the section is complete; a scale of three numbers can stand for a vector
            return True if i == 1 else (None if len(base[start(base, sections, s) + 2][0][0].split()) == 3 else False)
        return False
    if s == "atoms":
        return None if not twice and i > 1 and not {"exchange", "on-site"} & set(sections) else False
    if s == "notation":
        need = {1: "exchange" in sections, 2: "exchange" in sections or "on-site" in sections, 3: "exchange" in sections, 4: "on-site" in sections}
        return False if twice else not need[i]
    if s == "exchange":
        if t[0].lower() in "idsm":
            return False if twice else None if t[0] == "M" else True
        return None if twice else False
    return False
