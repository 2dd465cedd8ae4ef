"""Abstract execution of every command line script with every option (models of the command line, the plotting library and
the file system): what a call does is compared with what its options ask for."""
import os
import tomllib

from .. import num as N

N.PLAIN |= {'ef', 'of'}

from .c23 import *
from . import c30

CONVERT, MINIMIZE, DISPERSION, MAIN = "magnopy-convert-tb2j", "magnopy-minimize-energy", "magnopy-magnon-dispersion", "magnopy"
DEFAULT = {CONVERT: "magnopy.score.convert_tb2j:main", MINIMIZE: "magnopy.score.minimize_energy:main", DISPERSION: "magnopy.score.magnon_dispersion:main", MAIN: "magnopy.__main__:main"}


def scripts(root):
    """Entry points as the package declares them."""
    try:
        with open(os.path.join(root, "pyproject.toml"), "rb") as f:
            got = tomllib.load(f)["project"]["scripts"]
    except (OSError, KeyError, ValueError):
        got = {}
    return {**DEFAULT, **got}


class Command:
    def __init__(self, rep, name):
        self.c = rep.ctx()
        self.name = name
        self.module, self.function = scripts(rep.root)[name].split(":")
        self.loc = anchor(self.c, self.module.replace("magnopy.", "", 1) + "." + self.function)

    def __call__(self, *words, pre="", **env):
        self.c.I.extmods["sys"].attrs["argv"] = self.c.I.mklist([self.name] + list(words))
        del self.c.I.stdout[:]
        return self.c.run(f"import {self.module} as script_\n" + pre + f"script_.{self.function}()", **env)

    def printed(self):
        return [a for g, a in self.c.I.stdout if feasible(g)]

    def refuse(self, rep, *words, **kw):
        with rep.ob(f"{self.name} {' '.join(map(str, words))} is refused"):
            self(*words, **kw).must_raise(f"{self.name} {' '.join(map(str, words))}", "SystemExit")


def write(c, name, text):
    c.run(f"with open({name!r}, 'w') as f_:\n    f_.write(text_)", text_=text).must_pass("writing the input file")


def files_(c):
    return {k if isinstance(k, str) else str(k) for k in c.I.fs} | {str(k) for k in hdf5(c)}


def hdf5(c):
    m = c.run("import h5py\nv = list(h5py._FILES)")["v"]
    return [x for g, x in m.el]


CONTENT = "v = (np.array(H.cell), [(a.name, np.array(a.position) @ H.cell) for a in H.atoms], [(a.name, b.name, R, np.array(p.matrix)) for a, b, R, p in H.exchange])\n"


def convert(rep):
    bonds = [(0, 2, (1, 0, -2), "iad"), (2, 2, (0, 0, 1), "i")]
    cases = [([], "spinham.txt", "txt"), (["-of", "x.txt"], "x.txt", "txt"), (["--output-filename", "d/x.hdf5"], "d/x.hdf5", "hdf5"), (["-of", "x"], "x", "txt"), (["-of", "x.dat"], "x.dat", "txt"),
             (["-of", "x.txt", "-f", "hdf5"], "x.hdf5", "hdf5"), (["-of", "x", "--format", "hdf5"], "x.hdf5", "hdf5"), (["-of", "x.hdf5", "-f", "hdf5"], "x.hdf5", "hdf5"), (["-f", "hdf5"], "spinham.hdf5", "hdf5"),
             (["-f", "txt"], "spinham.txt", "txt"), (["-of", "x.hdf5", "-f", "txt"], "x.hdf5", "txt"), (["-of", "a.txt.b", "-f", "hdf5"], "a.txt.b.hdf5", "hdf5"), (["-of", "x.hdf5.txt"], "x.hdf5.txt", "txt"), (["-of", "text.txt", "-f", "hdf5"], "text.hdf5", "hdf5")]
    for words, out, form in cases:
        for inp in ("-if", "--input-filename"):
            for v in ([], ["-v"], ["--verbose"]):
                words_ = [inp, "in/exchange.out"] + words + v
                if (v or inp != "-if") and words not in ([], ["-f", "hdf5"]):
                    continue
                with rep.ob(f"{CONVERT} {' '.join(words_)}"):
                    k = Command(rep, CONVERT)
                    c = k.c
                    write(c, "in/exchange.out", T(c30.text(bonds)))
                    k(*words_).must_pass(f"{CONVERT} {' '.join(words_)}")
                    talk = k.printed()
                    new = files_(c) - {"in/exchange.out"}
                    if new != {out}:
                        raise Bad(f"files {sorted(new)} are written, expected {out}", k.loc)
                    if bool(hdf5(c)) != (form == "hdf5"):
                        raise Bad(f"{out} is not written in the format {form}", k.loc)
                    if talk and not v:
                        raise Bad("details are printed without being asked for", k.loc)
                    if v and not talk:
                        raise Bad("details are not printed when asked for", k.loc)
                    q = c.run("from magnopy import io\nH = io.load_tb2j('in/exchange.out')\n" + CONTENT, )
                    q.must_pass("reading the input")
                    p = c.run(f"from magnopy import io\nH = io.load_spinham({out!r}, spinham_format={form!r})\n" + CONTENT)
                    p.must_pass("reading the output")
                    (cell, atoms, ex), (cell1, atoms1, ex1) = q["v"], p["v"]
                    c.same(cell1, cell, f"{out}: cell", loc=k.loc)
                    c.same(atoms1, atoms, f"{out}: atoms", loc=k.loc)
                    expect_terms(c, observe(c, p["H"]), [(Bond(a, b, R, None, f"{a} {b} {R}"), generic(c.I, m)) for a, b, R, m in [x for g, x in ex.el]], {}, f"{out}: terms", k.loc)
    for words in ([], ["-if", "exchange.out", "-f", "json"], ["-if", "exchange.out", "--no-such-option"], ["-if"], ["-if", "exchange.out", "-f", "tb2j"]):
        k = Command(rep, CONVERT)
        write(k.c, "exchange.out", T(c30.text(bonds)))
        k.refuse(rep, *words)



RECORD = """
import magnopy.spinham.energy as energy_
def optimize_(self, case, initial_guess=None, tolerance=None, max_iterations=None, save_history=False, history_filename=None, history_step=1000, antiferro_q=None):
    number_ = len(calls_)
    spins_, axis_, q_ = states_[number_]
    calls_.append((case, initial_guess, tolerance, max_iterations, save_history, history_filename, antiferro_q, self.magnetic_field))
    if case == "ferro":
        out_ = (spins_,)
        result_ = self.ferro(spins_)
    elif case == "antiferro":
        out_ = (spins_, axis_, antiferro_q)
        result_ = self.antiferro(spins_, axis_, antiferro_q)
    else:
        out_ = (spins_, axis_, q_)
        result_ = self.spiral(spins_, axis_, q_)
    found_.append(result_)
    return out_
energy_.Energy.optimize = optimize_
"""
FIELD = [-1.5, 0.25, 3.0]
GST = [([], ["ferro", "antiferro", "spiral"]), (["all"], ["ferro", "antiferro", "spiral"]), (["ferro"], ["ferro"]), (["spiral"], ["spiral"]), (["antiferro"], ["antiferro"]), (["ferro", "spiral"], ["ferro", "spiral"]),
       (["antiferro", "ferro"], ["antiferro", "ferro"]), (["spiral", "antiferro"], ["spiral", "antiferro"])]
SMALL = ("two atoms", 2, [(0, 1, (1, 0, 0)), (0, 0, (0, 1, 0))], [1], (False, True, ef, of), None)


def source(c, kind, name):
    """Hamiltonian in a file; what is in it (as the library reads it)."""
    if kind == "tb2j":
        write(c, name, T(c30.text([(0, 2, (1, 0, -2), "id")])))
        return
    c.run(f"from magnopy import io\nio.dump_spinham_{kind}(H, filename={name!r})", H=make(c, SMALL)).must_pass("writing the input")


def holes(text):
    """Numbers printed in a text, in order."""
    return [p.value for p in text.parts if isinstance(p, Hole) and is_number(p.value)] if isinstance(text, TStr) else []


def is_number(v):
    return isinstance(v, (int, float, complex, Fraction_, type(N.const(1)))) and not isinstance(v, bool)


def reported(c, name, loc):
    r = c.run("with open(name_) as f_:\n    v = f_.read()", name_=name)
    r.must_pass(f"reading {name}")
    return generic(c.I, r["v"])


def cubes():
    import itertools
    return [q for q in itertools.product((-1, 0, 1), repeat=3) if any(q)]


def minimize_one(rep, words, cases, field, seed, kind, name, explicit):
    k = Command(rep, MINIMIZE)
    c, loc = k.c, k.loc
    source(c, kind, name)
    before = files_(c)
    if not explicit:
        write(c, seed + "-results", "results of yesterday\n")
    n = sum(26 if x == "antiferro" else 1 for x in cases)
    na = 2
    states = PList([(TRUE, (mat_(f"s{i}_", na), vec(f"n{i}_"), vec(f"q{i}_"))) for i in range(n + 2)])
    r = k(*words, pre="calls_, found_ = [], []\n" + RECORD, states_=states)
    r.must_pass(f"{MINIMIZE} {' '.join(map(str, words))}")
    calls, found = [x for g, x in r["calls_"].el], [x for g, x in r["found_"].el]
    got = [x[0] for x in calls]
    short_ = [x for i, x in enumerate(got) if i == 0 or got[i - 1] != x]
    if sorted(short_) != sorted(cases):
        raise Bad(f"minimised: {short_}, asked for {cases}", loc)
    # antiferro: half reciprocal vectors, all that differ
    q = c.run(f"from magnopy import io\nH = io.load_spinham({name!r}, spinham_format={kind!r})\nrec = np.array(H.reciprocal_cell)")
    q.must_pass("reading the input")
    rec = rows(generic(c.I, q["rec"]))
    half = {t: arr([sum((N.const(Fraction_(t[i], 2)) * rec[i][j] for i in range(3)), N.const(0)) for j in range(3)]) for t in cubes()}
    seen = set()
    for x in calls:
        case, guess, tol, lim, save, hist, aq, mf = x
        for what, v in (("initial guess", guess), ("limit of iterations", lim), ("tolerance", tol)):
            if v is not None:
                raise Bad(f"{what} {short(v)} is set without being asked for", loc)
        if not save or hist is None:
            raise Bad(f"no history is kept for {case}", loc)
        if not isinstance(hist, str) or not hist.startswith(seed):
            raise Bad(f"history is written to {hist}, seedname {seed}", loc)
        if field is None and mf is not None:
            c.same(mf, arr([N.const(0)] * 3), "magnetic field", loc=loc)
        if field is not None:
            if mf is None:
                raise Bad("the magnetic field is not applied", loc)
            c.same(mf, arr([N.const(v) for v in field]), "magnetic field", loc=loc)
        if case == "antiferro":
            hit = [t for t, v in half.items() if equal(c, aq, v)]
            if not hit:
                raise Bad(f"q vector {short(aq)} of the antiferromagnetic minimisation is not half a reciprocal lattice vector", loc)
            seen.add(tuple(abs(v) for v in hit[0]))
    if "antiferro" in cases and len(seen) != 7:
        raise Bad(f"antiferromagnetic minimisation covers the halves {sorted(seen)} of the reciprocal lattice vectors only", loc)
    names = [x[5] for x in calls]
    if len(set(names)) != len(names):
        raise Bad("histories of two minimisations go to the same file", loc)
    new = files_(c) - before - set(names)
    if new != {seed + "-results"}:
        raise Bad(f"files {sorted(new)} are written, expected {seed}-results", loc)
    # the energies reported are those of the configurations found, in the order of the results
    text = reported(c, seed + "-results", loc)
    if isinstance(text, TStr) and any(isinstance(x, str) and "results of yesterday" in x for x in text.parts):
        raise Bad(f"the content of an older file {seed}-results is left in the results", loc)
    bad = coarse(text, 4)
    if bad:
        raise Bad(f"a number is written to {seed}-results with the format {bad[0]!r}", loc)
    nums = holes(text)
    tail = nums[-len(found):]
    if len(tail) != len(found):
        raise Bad(f"{len(nums)} numbers in the results of {len(found)} minimisations", loc)
    for i, (v, w) in enumerate(zip(tail, found)):
        c.same(v, w, f"energy {i + 1} ({got[i]}) in the summary of {seed}-results", loc=loc)
    # configurations
    groups = []
    for i, x in enumerate(calls):
        st = states.el[i][1]
        want = [v for row in rows(st[0]) for v in row] + ([] if x[0] == "ferro" else list(st[1].data) + (list(x[6].data) if x[0] == "antiferro" else list(st[2].data)))
        groups.append(want)
    body = nums[:-len(found)]
    at = 0
    for i, g in enumerate(groups):
        for v in g:
            while at < len(body) and not equal(c, body[at], v):
                at += 1
            if at >= len(body):
                raise Bad(f"the configuration of minimisation {i + 1} ({got[i]}) is not reported in {seed}-results", loc)
            at += 1


def equal(c, a, b):
    try:
        c.same(a, b, "")
        return True
    except Bad:
        return False


def mat_(tag, n):
    return arr([[sym(f"{tag}{i}{a}") for a in "xyz"] for i in range(n)])


def minimize(rep):
    for i, (g, cases) in enumerate(GST):
        kind = ("txt", "hdf5", "tb2j")[i % 3]
        name = {"txt": "in/spinham.txt", "hdf5": "a.hdf5", "tb2j": "exchange.out"}[kind]
        opt = ["-gst", "--ground-state-type"][i % 2]
        words = [["-sh", "--spinham"][i % 2], name] + ([opt] + g if g else [])
        field = None
        if i % 3 != 1:
            field = FIELD
            words += [["-mf", "--magnetic-field", "--magnetic_field"][i // 3 % 3]] + [str(x) for x in FIELD]
        seed = "minim"
        if i % 2:
            seed = "out/res"
            words += [["-os", "--output-seedname"][i // 2 % 2], seed]
        with rep.ob(f"{MINIMIZE} {' '.join(words)}"):
            minimize_one(rep, words, cases, field, seed, kind, name, False)
    # the format given wins over the extension
    for kind, name in (("txt", "a.hdf5.txt"), ("hdf5", "a.dat"), ("tb2j", "result.txt"), ("txt", "exchange.out")):
        words = ["-sh", name, ["-shf", "--spinham-format"][kind == "hdf5"], kind, "-gst", "ferro"]
        with rep.ob(f"{MINIMIZE} {' '.join(words)}"):
            minimize_one(rep, words, ["ferro"], None, "minim", kind, name, True)
    for words in ([], ["-gst", "ferro"], ["-sh", "a.txt", "-shf", "json"], ["-sh", "a.txt", "-gst", "fm"], ["-sh", "a.txt", "-mf", "1", "2"], ["-sh", "a.txt", "-mf", "1", "2", "x"], ["-sh", "a.txt", "-gst", "ferro", "fm"], ["-sh", "a.txt", "-x"]):
        k = Command(rep, MINIMIZE)
        source(k.c, "txt", "a.txt")
        k.refuse(rep, *words)



KPOINTS = [("Q1", "$Q_1$", "0.25", "-0.5", "1.0"), ("p2b", "P", "0.125", "0", "0.375")]
ONE = ("one atom", 1, [(0, 0, (1, 0, 0)), (0, 0, (0, 1, 0))], [0], (False, True, ef, of), None)
TWO = ("two atoms", 2, [(0, 1, (1, 0, 0)), (0, 0, (0, 1, 0))], [1], (True, False, ef, of), None)
S_MATRIX = [[0, 1, 0], [0, 0, 1], [1, 0, 0]]


def dispersion_one(rep, words, s, name, kind, outname, kps, path, txt, join, show, verbose):
    k = Command(rep, DISPERSION)
    c, loc = k.c, k.loc
    c.run(f"from magnopy import io\nio.dump_spinham_{kind}(H, filename={name!r})", H=make(c, s)).must_pass("writing the input")
    before = files_(c)
    content_ = dict(c.I.fs)
    del c.I.effects[:]
    c.run("import magnopy\nmagnopy.SpinHamiltonian._S_given = S_", S_=arr([[N.const(x) for x in r] for r in S_MATRIX])).must_pass("choosing the standard cell")
    what = f"{DISPERSION} {' '.join(map(str, words))}"
    r = k(*words, pre="import matplotlib\ndel matplotlib.CALLS[:]\n")
    r.must_pass(what)
    talk = k.printed()
    saved = [(a, kw) for e in c.I.effects if e[0] == "savetxt" and feasible(e[1]) for a, kw in [e[2:4]]]
    src = f"from magnopy import io\nimport matplotlib\nH = io.load_spinham({name!r}, spinham_format={kind!r})\nH.standardize()\nkp = H.kpoints\n"
    for p in kps:
        src += f"kp.add_hs_point(name={p[0]!r}, label={p[1]!r}, coordinates=[{', '.join(p[2:])}])\n"
    if path is not None:
        src += f"kp.path = {path!r}\n"
    q = c.run(src + "om = MagnonDispersion(H)(kp)\nxs, ticks, labels = kp.flatten_points(), kp.ticks(), kp.labels\nrel, ab = kp.points(relative=True), kp.points(relative=False)\ncalls = list(matplotlib.CALLS)\nnames = list(kp.hs_names)")
    q.must_pass("dispersion of the Hamiltonian in the file")
    calls = [x for g, x in q["calls"].el if feasible(g)]
    get = lambda n: [(a, kw) for m, a, kw in calls if m == n]
    om = generic(c.I, q["om"])
    modes = [arr(list(row)) for row in om.data]
    xs = generic(c.I, q["xs"])
    left = list(range(len(modes)))
    for a, kw in get("plot"):
        c.same(generic(c.I, a[0]), xs, f"{what}: abscissa of a curve", loc=loc)
        y = generic(c.I, a[1])
        for row in ([y] if len(y.data.shape) == 1 else [arr(list(y.data[:, j])) for j in range(y.data.shape[1])]):
            hit = [i for i in left if equal(c, row, modes[i])]
            if not hit:
                raise Bad(f"{what}: a curve that is not a magnon mode of the Hamiltonian along the path asked for is drawn", loc)
            left.remove(hit[0])
    if left:
        raise Bad(f"{what}: {len(left)} of {len(modes)} modes are not drawn", loc)
    t = get("set_xticks")
    if not t:
        raise Bad(f"{what}: the high symmetry points are not marked", loc)
    c.same(generic(c.I, t[-1][0][0]), generic(c.I, q["ticks"]), f"{what}: places of the labels", loc=loc)
    c.same(generic(c.I, t[-1][0][1]), generic(c.I, q["labels"]), f"{what}: labels", loc=loc)
    # where the results go
    shown, pngs = get("show"), [a[0] for a, kw in get("savefig")]
    if show and (pngs or not shown):
        raise Bad(f"{what}: the figure is not shown", loc)
    if not show and (shown or pngs != [outname + ".png"]):
        raise Bad(f"{what}: figures {pngs} are written, expected {outname}.png", loc)
    new = files_(c) - before
    names = [a[0] for a, kw in saved]
    want = [] if not txt else [outname + ".txt"] if join else [outname + "_data.txt"]
    if names != want:
        raise Bad(f"{what}: data is written to {names}, expected {want}", loc)
    if new - set(want) != ({outname + "_info.txt"} if txt and not join else set()):
        raise Bad(f"{what}: files {sorted(new)} are written", loc)
    if any(c.I.fs.get(x) is not content_[x] and c.I.fs.get(x) != content_[x] for x in content_):
        raise Bad(f"{what}: the input file changes", loc)
    if txt:
        a, kw = saved[0]
        cols = [xs] + modes + [arr(list(generic(c.I, q[n]).data[:, j])) for n in ("rel", "ab") for j in range(3)]
        data = generic(c.I, a[1])
        if data.data.shape != (len(xs.data), len(cols)):
            raise Bad(f"{what}: table of shape {data.data.shape}, expected {(len(xs.data), len(cols))}", loc)
        for j, col in enumerate(cols):
            c.same(arr(list(data.data[:, j])), col, f"{what}: column {j + 1} of the table", loc=loc)
        f = kw.get("fmt")
        if isinstance(f, str) and f.count("%") not in (1, len(cols)):
            raise Bad(f"{what}: {f.count('%')} formats for {len(cols)} columns", loc)
        for w in f.split("%")[1:] if isinstance(f, str) else [x for g, x in f.el] if isinstance(f, PList) else []:
            if isinstance(w, str) and coarse(mkstr([Hole(sym("xs"), w.strip().lstrip("%"))]), 4):
                raise Bad(f"{what}: numbers are written with the format {w!r}", loc)
        info = kw.get("header") if join else reported(c, outname + "_info.txt", loc)
        cell = c.run("v = np.array(H.cell)", H=q["H"])["v"]
        text = info if isinstance(info, str) else repr(info) if info is not None else ""
        p = c.run("v = kp.path_string", kp=q["kp"])["v"]
        if isinstance(p, str) and p not in text:
            raise Bad(f"{what}: the path is not described", loc)
        com = kw.get("comments")
        if not join and com == "":
            raise Bad(f"{what}: the header of the table is not a comment", loc)
    if verbose:
        q_ = [x for g, x in q["names"].el]
        said = " ".join(repr(x) for x in talk)
        if not all(n in said for n in q_):
            raise Bad(f"{what}: the high symmetry points are not listed", loc)


def dispersion(rep):
    runs = [(["-sh", "a.txt"], ONE, "a.txt", "txt", "dispersion", [], None, 0, 0, 0, 0), (["--spinham", "in/a.hdf5", "-st"], ONE, "in/a.hdf5", "hdf5", "in/dispersion", [], None, 1, 0, 0, 0),
            (["-sh", "in/a.txt", "-shf", "txt", "-os", "res", "--save-txt", "-jo", "-v"], ONE, "in/a.txt", "txt", "in/res", [], None, 1, 1, 0, 1),
            (["-sh", "a.txt", "--spinham-format", "hdf5", "--output-seedname", "out/d/res", "-i", "-kp", "X-G"], ONE, "a.txt", "hdf5", "out/d/res", [], "X-G", 0, 0, 1, 0),
            (["-sh", "a.txt", "-os", "out/", "--k-path", "G-M|R-X-G", "-st", "--join-output"], TWO, "a.txt", "txt", "out/dispersion", [], "G-M|R-X-G", 1, 1, 0, 0),
            (["-sh", "a.hdf5", "-kps", *KPOINTS[0], *KPOINTS[1], "-kp", "Q1-G-p2b", "--verbose"], ONE, "a.hdf5", "hdf5", "dispersion", KPOINTS, "Q1-G-p2b", 0, 0, 0, 1),
            (["-sh", "a.hdf5", "--k-points", *KPOINTS[1], "-st", "--interactive"], TWO, "a.hdf5", "hdf5", "dispersion", KPOINTS[1:], None, 1, 0, 1, 0),
            (["-sh", "in/a.txt", "-os", "out/d/res", "-st"], ONE, "in/a.txt", "txt", "out/d/res", [], None, 1, 0, 0, 0),
            (["-sh", "a.hdf5", "-jo"], ONE, "a.hdf5", "hdf5", "dispersion", [], None, 0, 1, 0, 0)]
    for words, *rest in runs:
        with rep.ob(f"{DISPERSION} {' '.join(words)}"):
            dispersion_one(rep, words, *rest)
    for words in ([], ["-kp", "G-X"], ["-sh", "a.txt", "-shf", "yaml"], ["-sh", "a.txt", "-x"], ["-sh", "a.txt", "-st", "yes"], ["-sh"]):
        k = Command(rep, DISPERSION)
        k.c.run("from magnopy import io\nio.dump_spinham_txt(H, filename='a.txt')", H=make(k.c, ONE)).must_pass("writing the input")
        k.refuse(rep, *words)


def main_(rep):
    info = lambda c, n: c.run(f"import magnopy\nfrom magnopy import _pinfo\nv = {n}")["v"]
    for words, want in ((["logo"], "_pinfo.logo()"), (["warranty"], "_pinfo.warranty()"), (["conditions"], "_pinfo.conditions()"), (["version"], "magnopy.__version__"), (["-v"], "magnopy.__version__"), (["--version"], "magnopy.__version__"),
                        (["-gc"], "magnopy.__git_commit__"), (["--git-commit"], "magnopy.__git_commit__"), ([], None)):
        with rep.ob(f"{MAIN} {' '.join(words)}"):
            k = Command(rep, MAIN)
            k(*words).must_pass(f"{MAIN} {' '.join(words)}")
            said = [x for a in k.printed() for x in a]
            if len(said) == 0:
                raise Bad(f"{MAIN} {' '.join(words)} prints nothing", k.loc)
            text = "\n".join(x if isinstance(x, str) else repr(x) for x in said)
            v = "<help>" if want is None else info(k.c, want)
            v = v if isinstance(v, str) else repr(v)
            if v not in text:
                raise Bad(f"{MAIN} {' '.join(words)} does not print {want or 'the help'}", k.loc)
    for words in (["licence"], ["-x"], ["logo", "version"]):
        Command(rep, MAIN).refuse(rep, *words)


def check(rep):
    convert(rep)
    minimize(rep)
    dispersion(rep)
    main_(rep)
