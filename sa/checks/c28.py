"""Value numbering of every exporter: the observable state of the Hamiltonian after the call - finished or ended
by an exception at any reachable point - is the state before it; an existing HDF5 group is touched on request only."""
from .c23 import *

CALLS = [("io.dump_spinham_txt(H, 'o.txt'{})", ("", ", write_iso=True, write_dmi=True, write_symm=True, write_matrix=False", ", write_distance=True, write_spin_angles=True")),
         ("io.dump_spinham_txt(H, print_if_none=False{})", ("",)),
         ("io.dump_spinham_hdf5(H, filename='o.hdf5', groupname='g'{})", ("",)),
         ("io.dump_ucf(H{})", (", nologo=True", ", filename='o.UCF', nologo=True", ", dmi=False, nologo=True", ", anisotropic=False, nologo=True", ", dmi=False, anisotropic=False, nologo=True, decimals=3", ", custom_mask=lambda m: 2 * m, nologo=True", ", nologo=False")),
         ("io.dump_vampire(H, seedname='o', nologo=True{})", ("", ", dmi=False"))]
# calls that end with an exception somewhere
FAIL = [("io.dump_ucf(H, custom_mask=bad, nologo=True)", "custom mask raises"), ("io.dump_ucf(H, custom_mask=late(), nologo=True)", "custom mask raises at the second bond"), ("io.dump_ucf(H, custom_mask=lambda m: None, nologo=True)", "custom mask returns nothing"),
        ("io.dump_ucf(H, materials=[0], nologo=True)", "too few materials"), ("io.dump_vampire(H, materials=[], nologo=True)", "no materials"), ("io.dump_ucf(H, decimals='many', nologo=True)", "wrong number of decimals"),
        ("io.dump_vampire(H, seedname=None, nologo=True)", "no seedname")]
PRE = '''
def bad(m):
    raise RuntimeError("stop")
def late():
    seen = []
    def f(m):
        seen.append(1)
        if len(seen) > 1:
            raise RuntimeError("stop")
        return m
    return f
'''


def check(rep):
    c = rep.ctx()
    for s in SYSTEMS if rep.thorough else [x for x in SYSTEMS if x[0] in ("exchange", "everything", "everything, single counting", "eleven bonds, double counting", "on-site")]:
        full = s[4] is not None and None not in s[4]
        for call, opts in CALLS:
            name = call.split("(")[0]
            loc = anchor(c, name)
            if "ucf" in call or "vampire" in call:
                if not full:
                    # without a complete notation the export may fail, and leaves no trace
                    opts = opts[:1]
            for o in opts if rep.thorough or s[0].startswith("everything") else opts[:2]:
                with rep.ob(f"{s[0]}: {call.format(o)}"):
                    H = make(c, s)
                    snap = (take(c, H), Snapshot(c, H))
                    c.I.fs.clear()
                    r = c.run("from magnopy import io\nimport h5py\nh5py._FILES.clear()\n" + call.format(o), H=H)
                    if full or "spinham" in call:
                        r.must_pass("export")
                    same(c, snap[0], take(c, H), "Hamiltonian after the export", loc)
                    snap[1].compare(Snapshot(c, H), "Hamiltonian after the export", loc)
        if full:
            for call, why in FAIL:
                loc = anchor(c, call.split("(")[0])
                with rep.ob(f"{s[0]}: {why}"):
                    H = make(c, s)
                    snap = (take(c, H), Snapshot(c, H))
                    r = c.run(PRE + f"from magnopy import io\ntry:\n    {call}\nexcept Exception:\n    pass", H=H)
                    r.must_pass("failed export")
                    same(c, snap[0], take(c, H), "Hamiltonian after the failed export", loc)
                    snap[1].compare(Snapshot(c, H), "Hamiltonian after the failed export", loc)
    # an existing group
    loc = anchor(c, "io.dump_spinham_hdf5")
    for over in ("", ", overwrite=False", ", overwrite=True"):
        for group in ("g", "one/two"):
            with rep.ob(f"export into the existing group {group}{over}"):
                A, B_ = make(c, SYSTEMS[1]), make(c, SYSTEMS[5])
                a, b = take(c, A), take(c, B_)
                c.run("import h5py\nh5py._FILES.clear()")
                r = c.run(f"from magnopy import io\nio.dump_spinham_hdf5(A_, filename='o.hdf5', groupname='{group}')\nio.dump_spinham_hdf5(A_, filename='o.hdf5', groupname='other')\ntry:\n    io.dump_spinham_hdf5(B_, filename='o.hdf5', groupname='{group}'{over})\n    done = True\nexcept FileExistsError:\n    done = False\nX = io.load_spinham_hdf5('o.hdf5', groupname='{group}')\nY = io.load_spinham_hdf5('o.hdf5', groupname='other')", A_=A, B_=B_)
                r.must_pass("export into an existing file")
                if r["done"] is not ("True" in over):
                    raise Bad("group is " + ("overwritten without request" if r["done"] else "not overwritten on request"), loc)
                same(c, b if "True" in over else a, take(c, r["X"]), "content of the group", loc)
                same(c, a, take(c, r["Y"]), "content of the other group", loc)
    rep.minimum = 20
