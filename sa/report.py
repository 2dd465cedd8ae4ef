"""Obligations, verdicts, evidence."""
import contextlib
import json
import os
import traceback

from .interp import ProgramError
from .lib import Bad, Ctx
from .values import Dead, Undecided


class Report:
    def __init__(self, pid, tier, root, here, verbose=False):
        self.pid, self.tier, self.root, self.here = pid, tier, root, here
        self.verbose = verbose
        self.held, self.bad, self.undecided = [], [], []
        self.rule = ""
        self.crash = None
        self.sites = {}
        self.ctxs = []
        self.funcs = set()
        self.stmts = set()
        self.minimum = 1
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def src(self):
        return os.path.join(self.root, "src")

    def ctx(self):
        """Fresh interpreter (state of earlier scenarios is dropped)."""
        self._absorb()
        c = Ctx(self.src)
        self.ctxs.append(c)
        return c

    def _absorb(self):
        for c in self.ctxs:
            self.funcs |= c.I.funcs
            self.stmts |= c.I.visited
        self.ctxs = self.ctxs[-1:]

    @contextlib.contextmanager
    def ob(self, name):
        """One obligation."""
        try:
            yield
            self.held.append(name)
            if self.verbose:
                print("held      ", name)
        except Bad as e:
            self.violation(name, e.msg, e.loc)
        except (Undecided, Dead, RecursionError) as e:
            self.undecided.append((name, f"{type(e).__name__}: {e}"))
            if self.verbose:
                print("UNDECIDED ", name, "-", e)
                tb = traceback.extract_tb(e.__traceback__)
                for f in tb[-4:]:
                    print("     ", f.filename.split("/")[-1], f.lineno, f.name)
        except ProgramError as e:
            self.violation(name, str(e), None)
        except Exception as e:
            self.undecided.append((name, f"{type(e).__name__}: {e}"))
            if self.verbose:
                print("UNDECIDED ", name, "- internal:", type(e).__name__, e)
                tb = traceback.extract_tb(e.__traceback__)
                for f in tb[-6:]:
                    print("     ", f.filename.split("/")[-1], f.lineno, f.name)

    def ok(self, name):
        self.held.append(name)

    def violation(self, name, msg, loc=None):
        self.bad.append({"obligation": name, "what": msg, "where": self.show_loc(loc)})
        if self.verbose:
            print("VIOLATED  ", name, "-", msg, self.show_loc(loc))

    def show_loc(self, loc):
        if loc is None:
            return None
        if isinstance(loc, tuple):
            m, line, fn = loc
            return f"src/{m.replace('.', '/')}.py:{line} in {fn}"
        return str(loc)

    def known(self):
        """Known findings of this property: {text of the obligation: description}."""
        out = {}
        p = os.path.join(self.here, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p, encoding="utf-8"):
                if l.startswith(f"finding: property={self.pid} "):
                    ob, _, what = l[len(f"finding: property={self.pid} "):].strip().partition(" :: ")
                    out[ob] = what
        return out

    def finish(self, wall):
        self._absorb()
        for c in self.ctxs:
            self.funcs |= c.I.funcs
            self.stmts |= c.I.visited
        known = self.known()
        new = [b for b in self.bad if b["obligation"] not in known]
        for b in self.bad:
            if b["obligation"] in known:
                print(f"KNOWN-FINDING: property={self.pid} {b['obligation']}: {known[b['obligation']]}")
        total = len(self.held) + len(self.bad) + len(self.undecided)
        ev = {
            "property": self.pid,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "wall_s": round(wall, 3),
            "violations": len(new),
            "coverage": {
                "explanation": self.rule,
                "obligations": total,
                "discharged": len(self.held),
                "undecided": [f"{n}: {w}"[:300] for n, w in self.undecided],
                "functions_analysed": sorted(self.funcs),
                "statements_analysed": len(self.stmts),
                "sites": self.sites,
                "notes": self.notes,
                "obligation_names": self.held[:400],
            },
        }
        d = os.path.join(self.here, "evidence")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f"{self.pid}-violations.json")
        if new:
            with open(replay, "w") as f:
                json.dump(new, f, indent=1, default=str)
            ev["violations_detail"] = new[:20] if False else None
            ev.pop("violations_detail")
        elif os.path.exists(replay):
            os.unlink(replay)
        with open(os.path.join(d, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid}: {len(self.held)} held, {len(new)} violated, {len(self.undecided)} undecided, "
              f"{len(self.funcs)} functions, {len(self.stmts)} statements, {wall:.1f} s")
        for n, w in self.undecided[:10]:
            print(f"  undecided: {n}: {w}"[:400])
        if new:
            for b in new[:10]:
                print(f"  {b['where'] or ''}: {b['obligation']}: {b['what']}"[:900])
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        if self.crash and not self.held:
            return 2
        if not self.held or len(self.held) < self.minimum // 10:
            print("analysis broken: too few obligations decided")
            return 2
        return 0
