"""Abstract interpretation of magnetic_atoms and I on Hamiltonians in which every subset of atoms
carries exchange bonds (on either side) or on-site terms, for orders of indices that differ from the
order of insertion, and along sequences of additions and removals (no stale result)."""
import itertools

from ..ham import *


def check(rep):
    c = rep.ctx()
    ef, of = sym("ef"), sym("of")
    pairs = [("A", "B"), ("B", "C"), ("C", "A"), ("C", "C"), ("B", "B"), ("D", "A"), ("C", "D")]
    idx = [{"A": 1, "B": 2, "C": 3, "D": 4}, {"A": 4, "B": 2, "C": 3, "D": 1}, {"A": 11, "B": 9, "C": 2, "D": 10}]
    src = "m = [x.name for x in H.magnetic_atoms]\nn = H.I\no = [x is H.get_atom(x.name) for x in H.magnetic_atoms]"

    def expect(H, want, index, what):
        q = c.run(src, H=H)
        q.must_pass("magnetic atoms")
        loc = anchor(c, "SpinHamiltonian.magnetic_atoms")
        w = sorted(want, key=lambda x: index[x])
        c.same(q["m"], PList([(TRUE, x) for x in w]), f"{what}: magnetic atoms", loc=loc)
        c.same(q["n"], len(w), f"{what}: number of spins", loc=anchor(c, "SpinHamiltonian.I"))
        c.same(q["o"], PList([(TRUE, True) for x in w]), f"{what}: they are the atoms of the Hamiltonian", loc=loc)
    combos = [()] + [(p,) for p in pairs] + list(itertools.combinations(pairs, 2))
    for index in idx:
        for ex in combos:
            for on in ((), ("A",), ("D",), ("B", "C"), tuple("ABCD")):
                for nt in (None, (True, False, ef, of), (False, False, ef, of)) if (len(ex) < 2 or rep.thorough) else ((False, True, ef, of),):
                    with rep.ob(f"indices {index}, bonds {ex}, on-site {on}, {nt and nt[:2]}"):
                        bs = [Bond(a, b, (n, 0, -1), mat(f"J{a}{b}"), "b") for n, (a, b) in enumerate(ex)]
                        r = build(c, bs, on, nt, atoms="ABCD", index=index)
                        expect(r["H"], {x for p in ex for x in p} | set(on), index, f"bonds {ex}, on-site {on}")
    # the spins of the atoms and the values of the terms do not matter
    for none in ("A", "BD", "ABCD"):
        for nt in (None, (True, False, ef, of), (False, False, ef, of)):
            with rep.ob(f"atoms {none} without spin, {nt and nt[:2]}"):
                bs = [Bond("A", "B", (1, 0, -1), mat("JAB"), "b"), Bond("C", "C", (1, 0, 0), arr([[N.const(0)] * 3] * 3), "b")]
                r = build(c, bs, "D", nt, atoms="ABCD", index=idx[1], env={"S" + a: N.const(0) for a in none})
                expect(r["H"], set("ABCD"), idx[1], f"atoms {none} without spin")
                r = build(c, bs[1:], "", nt, atoms="ABCD", index=idx[1], env={"S" + a: N.const(0) for a in none})
                expect(r["H"], {"C"}, idx[1], f"atoms {none} without spin, bond with the zero matrix")
    # it follows the current terms
    for index in idx:
        with rep.ob(f"sequence of edits, indices {index}"):
            r = build(c, [], [], None, atoms="ABCD", index=index)
            H = r["H"]
            cur = set()
            steps = [("H.add_on_site('C')", {"C"}), ("H.add_exchange('D', 'A', (0, 0, 1))", {"C", "D", "A"}), ("H.remove_on_site('C')", {"D", "A"}), ("H.add_exchange('A', 'A', (0, 0, 1))", {"D", "A"}),
                     ("H.remove_exchange('D', 'A', (0, 0, 1))", {"A"}), ("H['B'] = MatrixParameter()", {"A", "B"}), ("del H['A', 'A', (0, 0, 1)]", {"B"}),
                     ("H.notation = 'magnopy'", {"B"}), ("H.add_exchange('D', 'C', (0, 1, 0))", {"B", "C", "D"}), ("H.remove_exchange('C', 'D', (0, -1, 0))", {"B"}),
                     ("H.add_exchange('D', 'C', (0, 1, 0))", {"B", "C", "D"}), ("H.remove_atom('C')", {"B"}), ("del H['B']", set())]
            for s, want in steps:
                c.run(s, H=H).must_pass(s)
                expect(H, want, index, f"after {s}")
    with rep.ob("filtering"):
        r = build(c, [Bond("A", "B", (0, 0, 1), mat("J"), "x")], "C", None, atoms="ABC")
        c.run("H.filter(custom_filter=lambda p: False)", H=r["H"]).must_pass("filter")
        expect(r["H"], set(), ATOMS, "after filtering")
    with rep.ob("copy"):
        r = build(c, [Bond("C", "B", (0, 0, 1), mat("J"), "x")], "A", None, atoms="ABC")
        q = c.run("G = H.copy()\nG.remove_on_site('A')", H=r["H"])
        q.must_pass("copy")
        expect(r["H"], set("ABC"), ATOMS, "original of a copy")
        expect(q["G"], set("BC"), ATOMS, "copy")
    rep.minimum = 200
