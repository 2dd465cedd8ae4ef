"""Effect analysis of the readers (abstract interpretation with a model of the file system): every file opened by a reader
is opened for reading only, its content afterwards is its content before, no other file appears; the filtered copy that
can be asked for is the only exception, it is written next to the original and reads as the same model."""
from ..files import *
from .c23 import system, take, same, RING
from . import c30

COMMENTED = ["# header", "", SEP, "Cell angstrom   # units", "# a comment between", ("cell", 0), ("cell", 1), "", ("cell", 2), SEP, "Atoms relative", "name r1 r2 r3 sx sy sz # columns",
             ("X1", 0), "   # indented comment", ("X2", 1), SEP, "Exchange meV", SUB, "X1 X2 1 0 -2 # 3.4", "Matrix",
             ("J", 0), ("J", 1), ("J", 2), SUB, SEP, "On-site meV", SUB, "X2", ("K",), SUB, SEP, "Notation", "Double-counting true", "Spin-normalized false", "Exchange-factor -1", "On-site-factor 1", "# end", ""]


def lines():
    cell, J, p, s = mat("cell"), mat("J0"), [vec("p0_"), vec("p1_")], [vec("s0_"), vec("s1_")]
    out = []
    for ln in COMMENTED:
        if isinstance(ln, str):
            out.append(ln)
        elif ln[0] == "cell":
            out.append(list(cell.data[ln[1]]))
        elif ln[0] == "J":
            out.append(list(J.data[ln[1]]) + (["# row"] if ln[1] == 1 else []))
        elif ln[0] == "K":
            out.append([sym(f"K{x}") for x in ("xx", "yy", "zz", "xy", "xz", "yz")])
        else:
            out.append([ln[0]] + list(p[ln[1]].data) + list(s[ln[1]].data))
    return out


def store(c):
    return {k: (c.I.fs_names.get(k), list(c.I.fs[k].el)) for k in c.I.fs}


def untouched(c, before, what, loc, new=()):
    """No file but the new ones was opened for writing, appeared, changed or went."""
    for f, g, where in c.I.opened:
        mode, name = f.fields["mode"], f.fields["name"]
        if not isinstance(mode, str) or not isinstance(name, str):
            raise Undecided("file name or mode")
        if feasible(g) and ("w" in mode or "a" in mode or "x" in mode or "+" in mode) and norm(name) not in new:
            raise Bad(f"{what}: {name!r} is opened with mode {mode!r}", loc)
    after = store(c)
    for k, (name, el) in before.items():
        if k not in after:
            raise Bad(f"{what}: {name!r} is gone", loc)
        if norm(name) in new:
            continue
        c.same(mkstr([x for g, x in after[k][1]]), mkstr([x for g, x in el]), f"{what}: content of {name!r}", loc=loc)
    for k, (name, el) in after.items():
        if k not in before and norm(name) not in new:
            raise Bad(f"{what}: {name!r} is created", loc)


def norm(name):
    import posixpath
    return posixpath.normpath(name)


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "io.load_spinham")
    names = [("model.txt", "filtered_model.txt"), ("some/where/model.txt", "some/where/filtered_model.txt"), ("./model.txt", "filtered_model.txt"), ("../model.txt", "../filtered_model.txt"),
             ("/data/model.txt", "/data/filtered_model.txt"), ("filtered_model.txt", "filtered_filtered_model.txt"), ("Dir/My-Model_2.TXT", "Dir/filtered_My-Model_2.TXT"), ("my model.v2.txt", "filtered_my model.v2.txt"), ("model.dir/model", "model.dir/filtered_model")]

    def put(name, text):
        c.I.fs.clear()
        c.I.fs_names.clear()
        c.run("with open(name_, 'w') as f_:\n    f_.write(text_)\nwith open('other.txt', 'w') as f_:\n    f_.write('other')", name_=name, text_=text).must_pass("writing the file")
        c.I.opened.clear()
        return store(c)
    for name, copy in names:
        for call in ("io.load_spinham_txt(name_{})", "io.load_spinham(name_, spinham_format='txt'{})", "io.load_spinham(name_{})"):
            if call == "io.load_spinham(name_{})" and not name.lower().endswith(".txt"):
                continue
            for o in ("", ", save_filtered=True", ", save_filtered=False"):
                with rep.ob(f"{call.format(o)}, {name}"):
                    before = put(name, T(lines()))
                    r = c.run("from magnopy import io\nH = " + call.format(o), name_=name)
                    r.must_pass("reading")
                    new = {norm(copy)} if "True" in o else set()
                    untouched(c, before, f"{call.format(o)}, {name}", loc, new)
                    if new:
                        k = [k for k in c.I.fs if norm(c.I.fs_names[k]) == norm(copy)]
                        if len(k) != 1:
                            raise Bad(f"filtered copy of {name!r} is not {copy!r}", loc)
                        q = c.run("with open(name_) as f_:\n    t = f_.read()\nn = t.count('#')\nG = io.load_spinham(name_, spinham_format='txt')", name_=c.I.fs_names[k[0]], io=r["io"])
                        q.must_pass("reading the filtered copy")
                        c.same(q["n"], 0, "comments left in the filtered copy", loc=loc)
                        same(c, take(c, r["H"]), take(c, q["G"]), "filtered copy", loc, skip_atoms=True)
    # files that cannot be read
    bad = [("section missing", [x for x in lines() if not (isinstance(x, str) and x.startswith("Notation"))]), ("broken bond", [x if x != "X1 X2 1 0 -2 # 3.4" else "X1 X2 1 0" for x in lines()]), ("empty", []), ("only comments", ["# nothing", ""])]
    for what, ls in bad:
        with rep.ob(f"unreadable text file: {what}"):
            before = put("model.txt", T(ls) if ls else "")
            c.run("from magnopy import io\ntry:\n    io.load_spinham('model.txt')\nexcept Exception:\n    pass").must_pass("failed reading")
            untouched(c, before, what, loc)
    for fn in ("io.load_spinham('absent.txt')", "io.load_spinham_txt('absent.txt')", "io.load_spinham_txt('absent.txt', save_filtered=True)", "io.load_tb2j('absent.out')", "io.load_spinham('absent.hdf5')", "io.load_spinham_hdf5('absent.hdf5')", "io.load_spinham_hdf5('absent.hdf5', groupname='g')"):
        with rep.ob(f"file that does not exist: {fn}"):
            before = put("model.txt", T(lines()))
            r = c.run(f"from magnopy import io\nimport h5py\nh5py._FILES.clear()\nkind = ''\ntry:\n    {fn}\nexcept OSError:\n    kind = 'missing'\nn = len(h5py._FILES)")
            r.must_pass("reading a file that does not exist")
            c.same(r["kind"], "missing", "reading a file that does not exist fails with an OSError", loc=loc)
            c.same(r["n"], 0, "files created by reading", loc=loc)
            untouched(c, before, fn, loc)
    # TB2J
    for call in ("io.load_tb2j(name_)", "io.load_tb2j(name_, quiet=False)", "io.load_spinham(name_, spinham_format='tb2j')"):
        for name in ("exchange.out", "dir/exchange.out"):
            with rep.ob(f"{call}, {name}"):
                t = tb2j()
                before = put(name, t)
                c.run("from magnopy import io\nH = " + call, name_=name).must_pass("reading TB2J output")
                untouched(c, before, call, loc)
    # HDF5
    DUMP = """
def tree(g):
    out = [sorted((k, g.attrs[k]) for k in g.attrs.keys())]
    for k in sorted(g.keys()):
        x = g[k]
        if hasattr(x, 'keys'):
            out.append((k, tree(x)))
        else:
            v = x[()]
            out.append((k, v.decode() if isinstance(v, bytes) else v))
    return out
"""
    for gn in ("", ", groupname='g'"):
        for call in ("io.load_spinham('o.hdf5'{})", "io.load_spinham_hdf5('o.hdf5'{})"):
            if gn and "load_spinham(" in call:
                continue
            with rep.ob(f"{call.format(gn)}"):
                H = system(c, 2, RING[:3], [1, 0], (True, False, sym("ef"), sym("of")), "qn")["H"]
                before = put("model.txt", T(lines()))
                r = c.run(DUMP + "from magnopy import io\nimport h5py\nh5py._FILES.clear()\nio.dump_spinham_hdf5(H, 'o.hdf5', groupname='g')\nwith h5py.File('o.hdf5', 'r') as f:\n    A = tree(f)\n"
                          f"h5py._OPEN.clear()\nG = {call.format(gn)}\nmodes = [f.mode for f in h5py._OPEN]\nn = len(h5py._FILES)\nwith h5py.File('o.hdf5', 'r') as f:\n    B = tree(f)", H=H)
                r.must_pass("reading HDF5")
                m = [x for g, x in r["modes"].el if feasible(g)]
                if not m or any(x != "r" for x in m):
                    raise Bad(f"the HDF5 file is opened with modes {m}", loc)
                c.same(r["n"], 1, "number of HDF5 files", loc=loc)
                c.same(r["B"], r["A"], "content of the HDF5 file after reading", loc=loc)
                untouched(c, before, call, loc)
    rep.minimum = 40


def tb2j():
    return T(c30.text([(0, 2, (1, 0, -2), "iad"), (1, 1, (0, 1, 0), "i")]))
