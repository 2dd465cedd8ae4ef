"""Value numbering of the Vampire writer: the text written for Hamiltonians with symbolic content is read line by
line; every number must be the one Vampire's convention prescribes for the term it stands for."""
from .c23 import *

MAGN = [("two atoms, double counting", 2, RING[:3], [], (True, False, sym("ef"), sym("of"))), ("two atoms, single counting", 2, RING[:6], [0], (False, True, sym("ef"), sym("of"))),
        ("three atoms, everything", 3, RING[:4] + [(2, 0, (0, 0, 1)), (1, 2, (3, -2, 0)), (2, 2, (0, 1, 0))], [2, 0], (False, False, sym("ef"), sym("of"))), ("three atoms, vampire notation", 3, [(2, 0, (0, 0, 1)), (1, 2, (3, -2, 0))], [1], (True, True, -0.5, -1.0)),
        ("one of three atoms magnetic", 3, [(1, 1, (0, 0, 1))], [1], (True, False, sym("ef"), sym("of"))), ("only on-site", 2, [], [1], (True, False, sym("ef"), sym("of"))), ("twelve atoms", 12, [(11, 0, (0, 0, 1)), (1, 10, (0, 0, 0)), (9, 9, (1, 0, 0)), (3, 2, (0, 0, 0))], [4, 5, 6, 7, 8], (True, True, sym("ef"), sym("of")))]
PARSE = '''
rows_ = [l.split() for l in text.split("\\n") if len(l.split()) > 0 and not l.split()[0].startswith("#")]
'''


def parse(c, loc, text):
    q = c.run(PARSE, text=text)
    q.must_pass("reading the exported text")
    rows_ = []
    for g, r in q["rows_"].el:
        rows_.append([x for h, x in r.el])
    num = lambda x: c.run("v = float(x)", x=x)["v"]
    pos = 1 + 3
    if len(rows_) <= pos or not all(isinstance(x, str) for x in rows_[pos]):
        raise Bad("no line with the number of atoms", loc)
    size = [num(x) for x in rows_[0]]
    vectors = [[num(x) for x in r] for r in rows_[1:4]]
    n, m = [int(x) for x in rows_[4]]
    atoms = rows_[5:5 + n]
    head = rows_[5 + n] if len(rows_) > 5 + n else []
    if len(head) != 2 or not isinstance(head[0], str) or not head[0].isdigit() or head[1] != "tensorial":
        raise Bad(f"{n} atoms are announced, the line after them is {head}", loc)
    inter = rows_[6 + n:]
    c.formats = [[x for r in (*rows_[1:4], *(a[:4] for a in atoms)) for x in r], [x for r in inter for x in r[6:]]]
    if len(inter) != int(head[0]):
        raise Bad(f"{head[0]} interactions are announced, {len(inter)} are written", loc)
    return size, vectors, m, atoms, inter, num


def expected(c, H, dmi=True, aniso=True, mask=None):
    """{(atom, atom, R): matrix in Joule}: energy of each term in Vampire's notation."""
    st = observe(c, H)
    q = c.run("no = H.notation\nS = [(a.name, a.spin) for a in H.atoms]", H=H)
    q.must_pass("reading the Hamiltonian")
    dc, norm, ef, of = q["no"]
    S = {n: s for n, s in [x for g, x in q["S"].el]}
    one = N.const(1)
    joule = inside(c, "ENERGY")
    out = {}
    bonds = dict((k, (rows(m), k)) for k, (g, m) in st.ex.items() if feasible(g))
    for k, (m, _) in bonds.items():
        a, b = k[0], k[1]
        f = N.const(ef) / N.const(Fraction_(-1, 2)) * (one if norm else S[a] * S[b])
        R = tuple(int(x) for x in st.R[k])
        if dc:
            out[a, b, R] = msc(m, f)
        else:
            f = f * N.const(Fraction_(1, 2))
            t = [[m[j][i] for j in range(3)] for i in range(3)]
            out[a, b, R] = msc(m, f)
            out[b, a, tuple(-x for x in R)] = msc(t, f)
    for a, (g, m) in st.on.items():
        if feasible(g):
            out[a, a, (0, 0, 0)] = msc(rows(m), N.const(of) / N.const(Fraction_(-1, 2)) * (one if norm else S[a] * S[a]))
    for k, m in out.items():
        if mask is not None:
            m = mask(m)
        else:
            t = [[m[j][i] for j in range(3)] for i in range(3)]
            half = N.const(Fraction_(1, 2))
            sy, an = msc(madd(m, t), half), msc(madd(m, msc(t, N.const(-1))), half)
            iso = (m[0][0] + m[1][1] + m[2][2]) / N.const(3)
            si_ = [[iso if i == j else N.const(0) for j in range(3)] for i in range(3)]
            m = sy if aniso else si_
            if dmi:
                m = madd(m, an)
        out[k] = msc(m, joule)
    return out


def build_(c, s):
    name, n, bonds, onsite, notation = s
    r = system(c, n, bonds, onsite, None)
    src = "".join(f"H.{k} = v_{k}\n" for k in ("double_counting", "spin_normalized", "exchange_factor", "on_site_factor"))
    q = c.run(src, H=r["H"], **{f"v_{k}": v for k, v in zip(("double_counting", "spin_normalized", "exchange_factor", "on_site_factor"), notation)})
    q.must_pass("notation")
    return r["H"]


OPTS = [("", {}, None), (", dmi=False", {"dmi": False}, None), (", anisotropic=False", {"aniso": False}, None), (", dmi=False, anisotropic=False", {"dmi": False, "aniso": False}, None), (", decimals=9", {}, None),
        (", custom_mask=lambda m: 3 * np.array(m).T", {"mask": lambda m: [[m[j][i] * N.const(3) for j in range(3)] for i in range(3)]}, None), (", custom_mask=lambda m: 3 * np.array(m).T, dmi=False, anisotropic=False", {"mask": lambda m: [[m[j][i] * N.const(3) for j in range(3)] for i in range(3)]}, None),
        (", materials=", {}, "same"), (", materials=", {}, "two"), (", materials=", {}, "backwards")]


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "io.dump_ucf")
    for s in MAGN:
        H = build_(c, s)
        used = sorted({i for a, b, R in s[2] for i in (a, b)} | set(s[3]), reverse=True)     # index of atom i is n - i
        names = [f"X{i + 1}" for i in used]
        for o, want, kind in OPTS if rep.thorough or s[0].startswith("three atoms, every") else OPTS[:3] + OPTS[7:]:
            k = len(used)
            mats = {None: list(range(k)), "same": [0] * k, "two": [i % 2 for i in range(k)], "backwards": list(range(k))[::-1]}[kind]
            oo = o + (str(mats) if kind else "")
            for dest in ("returned", "file", "seed"):
                if dest != "returned" and o and not rep.thorough and not s[0].startswith("three atoms, every"):
                    continue
                with rep.ob(f"{s[0]}; options {oo or 'default'}; {dest}"):
                    c.I.fs.clear()
                    if dest == "returned":
                        r = c.run(f"from magnopy import io\ntext = io.dump_ucf(H, nologo=True{oo})", H=H)
                    elif dest == "file":
                        r = c.run(f"from magnopy import io\nnone = io.dump_ucf(H, filename='x.UCF'{oo})\nwith open('x.UCF') as f:\n    text = f.read()", H=H)
                    else:
                        r = c.run(f"from magnopy import io\nnone = io.dump_vampire(H, seedname='x'{oo})\nwith open('x.UCF') as f:\n    text = f.read()", H=H)
                    r.must_pass("export")
                    size, vectors, m, atoms, inter, num = parse(c, loc, r["text"])
                    if m != len(set(mats)):
                        raise Bad(f"{m} materials are announced, the atoms have {len(set(mats))}", loc)
                    cell = rows(mat("cell"))
                    if [int(a[0]) for a in atoms] != list(range(k)):
                        raise Bad(f"numbers of the atoms are {[a[0] for a in atoms]}, {k} atoms are magnetic", loc)
                    for i, (a, w) in enumerate(zip(atoms, used)):
                        c.same(arr([num(x) for x in a[1:4]]), vec(f"p{w}_"), f"position of atom {i} ({names[i]})", loc=loc)
                        if [int(x) for x in a[4:5]] != [mats[i]]:
                            raise Bad(f"material of atom {i} is {a[4:]}", loc)
                    if [int(x[0]) for x in inter] != list(range(len(inter))):
                        raise Bad(f"interactions are not numbered one after another: {[x[0] for x in inter]}", loc)
                    exp = expected(c, H, **want)
                    bad = [b for x in c.formats[0] for b in coarse(x, 4)] + [b for x in c.formats[1] for b in coarse(x, 9 if "decimals=9" in oo else 4, exponent=True)]
                    if bad:
                        raise Bad(f"a number is written with the format {bad[0]!r}", loc)
                    seen = set()
                    for x in inter:
                        if len(x) != 15:
                            raise Bad(f"line of interaction {x[0]} has {len(x)} entries", loc)
                        key = (names[int(x[1])], names[int(x[2])], tuple(int(y) for y in x[3:6]))
                        if key in seen or key not in exp:
                            raise Bad(f"unexpected interaction {key}", loc)
                        seen.add(key)
                        c.same(arr([[num(x[6 + 3 * i + j]) for j in range(3)] for i in range(3)]), arr(exp[key]), f"matrix of interaction {key}", loc=loc)
                    if set(exp) - seen:
                        raise Bad(f"interaction {sorted(set(exp) - seen)[0]} is missing", loc)
    # the file with the materials
    loc = anchor(c, "io.dump_mat")
    for s in MAGN if rep.thorough else MAGN[:3]:
        H = build_(c, s)
        used = sorted({i for a, b, R in s[2] for i in (a, b)} | set(s[3]), reverse=True)
        k = len(used)
        for mats in (None, [0] * k, [i % 2 for i in range(k)], list(range(k))[::-1]):
            for dest in ("returned", "file", "seed"):
                with rep.ob(f"materials of {s[0]}: {mats}; {dest}"):
                    c.I.fs.clear()
                    arg = "" if mats is None else f", materials={mats}"
                    r = c.run(f"from magnopy import io\n" + {"returned": f"text = io.dump_mat(H, nologo=True{arg})", "file": f"io.dump_mat(H, filename='x.mat'{arg})\nwith open('x.mat') as f:\n    text = f.read()",
                                                             "seed": f"io.dump_vampire(H, seedname='x'{arg})\nwith open('x.mat') as f:\n    text = f.read()"}[dest], H=H)
                    r.must_pass("export")
                    materials(c, loc, r["text"], [(f"X{w + 1}", vec(f"s{w}_")) for w in used], mats or list(range(k)))
    with rep.ob("materials of atoms without spin"):
        N.PLAIN.add("s")
        r = c.run("H = SpinHamiltonian(cell=cell)\na = Atom('A', index=1)\nb = Atom('B', spin=s, index=2)\nH.add_atom(a)\nH.add_atom(b)\nH.notation = 'vampire'\nH.add_exchange(a, b, (0, 0, 1), iso=1)\nfrom magnopy import io\ntext = io.dump_mat(H, nologo=True)", cell=mat("cell"), s=vec("s"))
        if not r.exc_names() or "ValueError" not in r.exc_names():
            r.must_pass("export")
        r = c.run("H = SpinHamiltonian(cell=cell)\na = Atom('A', spin=[0, 0, 0], index=1)\nb = Atom('B', spin=s, index=2)\nH.add_atom(a)\nH.add_atom(b)\nH.notation = 'vampire'\nH.add_exchange(a, b, (0, 0, 1), iso=1)\nfrom magnopy import io\ntext = io.dump_mat(H, nologo=True)", cell=mat("cell"), s=vec("s"))
        r.must_pass("export")
        materials(c, loc, r["text"], [("A", None), ("B", vec("s"))], [0, 1])
    with rep.ob("materials of atoms with half-integer and integer spins"):
        r = c.run("H = SpinHamiltonian(cell=cell)\nL = [Atom(f'M{i}', spin=[0, 0, S], index=i + 1) for i, S in enumerate([0.5, 1, 1.5, 2])]\nfor a in L:\n    H.add_atom(a)\nH.notation = 'vampire'\nfor a in L:\n    H.add_exchange(a, a, (0, 0, 1), iso=1)\nfrom magnopy import io\ntext = io.dump_mat(H, nologo=True)", cell=mat("cell"))
        r.must_pass("export")
        materials(c, loc, r["text"], [(f"M{i}", arr([N.const(0), N.const(0), N.const(1)])) for i in range(4)], [0, 1, 2, 3])
    rep.minimum = 15


def materials(c, loc, text, atoms, mats):
    """One block per material, with the name and direction of the first of its atoms."""
    q = c.run("L = [l.strip() for l in text.split('\\n')]\nL = [l.split('=', 1) for l in L if not l.startswith('#') and '=' in l]\nL = [(a.strip(), b.strip()) for a, b in L]", text=text)
    q.must_pass("reading the exported text")
    got = {}
    for g, (a, b) in q["L"].el:
        if a in got:
            raise Bad(f"{a} is given twice", loc)
        got[a] = b
    want = {m: atoms[mats.index(m)] for m in sorted(set(mats))}
    if str(got.get("material:num-materials")) != str(len(want)):
        raise Bad(f"{got.get('material:num-materials')} materials are announced, there are {len(want)}", loc)
    nums = {a[a.index("[") + 1:a.index("]")] for a in got if isinstance(a, str) and a.startswith("material[")}
    if nums != {str(m + 1) for m in want}:
        raise Bad(f"materials {sorted(nums)} are described, the atoms have {[m + 1 for m in want]}", loc)
    for m, (name, spin) in want.items():
        if got.get(f"material[{m + 1}]:material-name") != name:
            raise Bad(f"name of material {m + 1} is {got.get(f'material[{m + 1}]:material-name')}, its first atom is {name}", loc)
        d = got.get(f"material[{m + 1}]:initial-spin-direction")
        if spin is None:
            if d != "random":
                raise Bad(f"direction of material {m + 1} without spin is {d}", loc)
            continue
        v = c.run("d = [float(x) for x in d.split(',')]", d=d)
        v.must_pass("reading the direction")
        c.same(arr([x for g, x in v["d"].el]), arr(unit(list(spin.data))), f"direction of material {m + 1}", loc=loc)
