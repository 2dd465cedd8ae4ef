"""Value numbering of the composition of the text writer and reader on Hamiltonians with symbolic content:
the writer's output is a string with formatted symbolic numbers (precision is checked only for the formats of the numbers), it
must pass the verification and read back as the same terms."""
from .c23 import *

OPTS = [("", "matrix"), ("write_matrix=True", "matrix"), ("write_iso=True", ""), ("write_dmi=True", ""), ("write_symm=True", ""), ("write_matrix=False, write_iso=True, write_dmi=True, write_symm=True", "parts"), ("write_iso=True, write_dmi=True, write_symm=True", ""),
        ("write_distance=True", ""), ("write_spin_angles=True", "angles"), ("write_distance=True, write_spin_angles=True, write_iso=True", "angles")]


def check(rep):
    c = rep.ctx()
    loc = anchor(c, "io.dump_spinham_txt")
    for s in SYSTEMS:
        for o, kind in OPTS if rep.thorough or s[0] in ("exchange", "everything", "one atom") or s[0].startswith("spiral vector z") else OPTS[:2] + OPTS[5:6] + OPTS[8:9]:
            with rep.ob(f"round trip: {s[0]}; {o or 'default options'}"):
                N.PLAIN.discard("s")
                if kind == "angles":
                    N.PLAIN.add("s")                     # angles of special directions are not of interest here
                H = make(c, s)
                before = take(c, H)
                c.I.fs.clear()
                c.I.opened.clear()
                r = c.run(f"from magnopy import io\nres = io.dump_spinham_txt(H, 'out.txt'{', ' + o if o else ''})\nG = io.load_spinham('out.txt')", H=H)
                r.must_pass("export and import")
                same(c, before, take(c, r["G"]), f"round trip ({s[0]}; {o})", loc, skip_atoms=True)
                same(c, before, take(c, H), f"export of the original ({s[0]}; {o})", loc)
    N.PLAIN.discard("s")
    # atoms without spin are written and read
    for o in ("", "write_spin_angles=True"):
        with rep.ob(f"atoms without spin; {o}"):
            N.PLAIN.discard("s")
            if o:
                N.PLAIN.add("s")
            r = c.run("H = SpinHamiltonian(cell=cell)\nH.add_atom(Atom('A', position=p, index=1))\nH.add_atom(Atom('B', position=q, spin=s, index=2))", cell=mat("cell"), p=vec("p"), q=vec("q"), s=vec("s"))
            r.must_pass("building")
            c.I.fs.clear()
            q = c.run(f"from magnopy import io\nio.dump_spinham_txt(H, 'out.txt'{', ' + o if o else ''})\nG = io.load_spinham('out.txt')\ns = [np.array(a.spin_vector) for a in G.atoms]\np = [np.array(a.position) for a in G.atoms]", H=r["H"])
            q.must_pass("export and import")
            c.same(q["s"].el[1][1], vec("s"), "spin of the atom after an atom without spin", loc=loc)
            c.same(q["p"].el[0][1], vec("p"), "position of the atom without spin", loc=loc)
    N.PLAIN.discard("s")
    # names of any length, also such that differ at their ends only
    with rep.ob("long names of atoms"):
        b = [("Manganese_first", "Manganese_second", (1, 0, 0)), ("Manganese_second", "Manganese_second", (0, -12, 100)), ("X", "Manganese_first", (0, 0, 0))]
        src = "H = SpinHamiltonian(cell=cell)\n" + "".join(f"H.add_atom(Atom('{n}', position=p{k}, spin=s{k}, index={k + 1}))\n" for k, n in enumerate(("Manganese_first", "Manganese_second", "X")))
        src += "H.notation = notation_\n" + "".join(f"H.add_exchange('{a}', '{d}', {R}, MatrixParameter(matrix=J{k}))\n" for k, (a, d, R) in enumerate(b))
        src += "H.add_on_site('Manganese_second', MatrixParameter(matrix=K))\n"
        r = c.run(src, cell=mat("cell"), notation_=(True, False, sym("ef"), sym("of")), K=symmat("K"), **{f"p{k}": vec(f"p{k}_") for k in range(3)}, **{f"s{k}": vec(f"s{k}_") for k in range(3)}, **{f"J{k}": mat(f"J{k}") for k in range(3)})
        r.must_pass("building")
        c.I.fs.clear()
        q = c.run("from magnopy import io\nio.dump_spinham_txt(H, 'out.txt')\nG = io.load_spinham('out.txt')\nX = [[a.name for a in h.atoms] for h in (H, G)]\nY = [[(a.name, b.name, tuple(int(x) for x in R), np.array(p.matrix)) for a, b, R, p in h.exchange] for h in (H, G)]\nZ = [[(a.name, np.array(p.matrix)) for a, p in h.on_site] for h in (H, G)]", H=r["H"])
        q.must_pass("export and import of long names")
        for x in "XYZ":
            c.same(q[x].el[1][1], q[x].el[0][1], "atoms and terms of atoms with long names", loc=loc)
    # the text is the same wherever it goes
    with rep.ob("text returned, printed and written is the same"):
        H = make(c, SYSTEMS[5])
        c.I.fs.clear()
        r = c.run("from magnopy import io\nio.dump_spinham_txt(H, 'out.txt')\nwith open('out.txt') as f:\n    A_ = f.read()\nB_ = io.dump_spinham_txt(H, print_if_none=False)\nif not isinstance(B_, str):\n    B_ = '\\n'.join(B_)\nwith open('two.txt', 'w') as f:\n    f.write(B_)\nG = io.load_spinham('two.txt')\nK = io.load_spinham('out.txt')", H=H)
        r.must_pass("export")
        same(c, take(c, r["K"]), take(c, r["G"]), "returned text", loc)
        n0 = len(c.I.stdout)
        r = c.run("from magnopy import io\nR = io.dump_spinham_txt(H)", H=H)
        r.must_pass("printing")
        if r["R"] is not None:
            raise Bad("the text is returned although it is printed", loc)
        out = [a for g, a in c.I.stdout[n0:]]
        text = mkstr([x for i, a in enumerate(out) for x in ([] if i == 0 else ["\n"]) + [a[0]]])
        q = load(c, text)
        q.must_pass("reading the printed text")
        r = c.run("from magnopy import io\nio.dump_spinham_txt(H, 'out.txt')\nK = io.load_spinham('out.txt')", H=H)
        same(c, take(c, r["K"]), take(c, q["H"]), "printed text", loc)
    with rep.ob("every number is written with at least four decimals"):
        for o in ("write_iso=True, write_dmi=True, write_symm=True", "write_spin_angles=True"):
            H = make(c, SYSTEMS[5])
            r = c.run(f"from magnopy import io\nio.dump_spinham_txt(H, 'out.txt', {o})\nwith open('out.txt') as f:\n    A_ = f.read()", H=H)
            r.must_pass("export")
            bad = coarse(r["A_"], 4)
            if bad:
                raise Bad(f"a number is written with the format {bad[0]!r}", loc)
    rep.minimum = 15
