"""Value numbering of the generic loader: for every combination of file name and format argument the content
written in exactly one format must arrive (a different reader fails or gives different values)."""
from . import c22, c30
from .c23 import *

NAMES = ["model.txt", "model.hdf5", "exchange.out", "a.exchange.out", "model", "exchange.out.txt", "model.hdf5.bak", "hdf5", "model.h5", "exchange.dat", "my.hdf5.txt", "x/exchange.out/model.hdf5", "my_exchange.out", "other.out", "spinham.out.txt", "MODEL.HDF5", "EXCHANGE.OUT", "model.hdf5.txt", "tb2j"]


def guessed(name):
    return "hdf5" if name.endswith(".hdf5") else ("tb2j" if name.endswith("exchange.out") else "txt")


def put(c, name, fmt):
    """Write the same cell in one format, with values that tell the formats apart."""
    c.I.fs.clear()
    c.I.opened.clear()
    c.run("import h5py\nh5py._FILES.clear()")
    if fmt == "txt":
        c.run("with open(name_, 'w') as f_:\n    f_.write(text_)", text_=T(cellsec("Angstrom") + ATOMSEC), name_=name).must_pass("writing (model)")
    elif fmt == "tb2j":
        c.run("with open(name_, 'w') as f_:\n    f_.write(text_)", text_=T(c30.text(c30.BONDS[1][1])), name_=name).must_pass("writing (model)")
    else:
        H = make(c, SYSTEMS[1])
        c.run("import h5py\nh5py._FILES.clear()\nfrom magnopy import io\nio.dump_spinham_hdf5(H, filename=name_, groupname='model')", H=H, name_=name).must_pass("writing (model)")


ATOMS = {"txt": ["A", "B"], "tb2j": c30.NAMES, "hdf5": ["X1", "X2"]}


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "io.load_spinham")
    for name in NAMES:
        for given in (None, "txt", "hdf5", "tb2j", "TXT", "Hdf5", "TB2J", "HDF5", "Txt"):
            if not rep.thorough and given in ("Txt", "HDF5") and name not in NAMES[:3]:
                continue
            fmt = given.lower() if given else guessed(name)
            for style in ("named", "positional"):
                if given is None and style == "positional" or style == "positional" and not rep.thorough and given not in ("txt", "Hdf5"):
                    continue
                with rep.ob(f"file {name}, format {given} ({style}): read as {fmt}"):
                    put(c, name, fmt)
                    arg = "" if given is None else (f", spinham_format='{given}'" if style == "named" else f", '{given}'")
                    r = c.run(f"from magnopy import io\nH = io.load_spinham('{name}'{arg})\nnames_ = [a.name for a in H.atoms]")
                    r.must_pass(f"reading {name} as {fmt}")
                    if [x for g, x in r["names_"].el] != ATOMS[fmt]:
                        raise Bad(f"{name} with format {given} is not read as {fmt}", loc)
    for bad in ("", "json", "hdf", "text", ".txt", "tb2j ", "vampire", "h5", "txthdf5"):
        for name in NAMES[:3]:
            with rep.ob(f"file {name}, format {bad!r} is rejected"):
                put(c, name, guessed(name))
                c.run(f"from magnopy import io\nH = io.load_spinham('{name}', spinham_format={bad!r})").must_raise("unknown format", "ValueError")
    # further arguments reach the reader
    with rep.ob("group name reaches the HDF5 reader"):
        H = make(c, SYSTEMS[1])
        G = make(c, SYSTEMS[4])
        r = c.run("from magnopy import io\nio.dump_spinham_hdf5(H, filename='f.hdf5', groupname='one')\nio.dump_spinham_hdf5(G, filename='f.hdf5', groupname='two/three')\nA_ = io.load_spinham('f.hdf5', groupname='one')\nB_ = io.load_spinham('f.hdf5', groupname='two/three')\na_ = [a.name for a in A_.atoms]\nb_ = [a.name for a in B_.atoms]", H=H, G=G)
        r.must_pass("reading groups")
        if ([x for g, x in r["a_"].el], [x for g, x in r["b_"].el]) != (["X1", "X2"], ["X1", "X2", "X3"]):
            raise Bad("the group name does not select the model", loc)
    for kw, fmt, name in (("quiet=True", "tb2j", "exchange.out"), ("quiet=False", "tb2j", "exchange.out"), ("bravais_type='CUB'", "tb2j", "exchange.out"), ("save_filtered=False", "txt", "model.txt"), ("groupname='x'", "hdf5", "model.hdf5")):
        with rep.ob(f"argument {kw} reaches the reader of {fmt}"):
            put(c, name, fmt)
            n0 = len(c.I.stdout)
            own = {"tb2j": "load_tb2j", "txt": "load_spinham_txt", "hdf5": "load_spinham_hdf5"}[fmt]
            a = c.run(f"from magnopy import io\nH = io.load_spinham('{name}', {kw})")
            n1 = len(c.I.stdout)
            b = c.run(f"from magnopy import io\nH = io.{own}('{name}', {kw})")
            n2 = len(c.I.stdout)
            fa, fb = a.exc_names(), b.exc_names()
            if fa != fb or n1 - n0 != n2 - n1:
                raise Bad(f"load_spinham with {kw} behaves differently from {own}", loc)
    for kw, fmt, name in (("nonsense_argument=1", "tb2j", "exchange.out"), ("nonsense_argument=1", "txt", "model.txt"), ("nonsense_argument=1", "hdf5", "model.hdf5")):
        with rep.ob(f"argument that the reader of {fmt} does not know"):
            put(c, name, fmt)
            c.run(f"from magnopy import io\nH = io.load_spinham('{name}', {kw})").must_raise("unknown argument", "TypeError")
    rep.minimum = 40
