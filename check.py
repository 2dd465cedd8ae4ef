#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--verbose]

Decides one property from /repo's current sources (nothing of magnopy is
imported or run) and writes evidence/<id>.json.
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.lib import Bad  # noqa: E402
from sa.report import ProgramError, Report  # noqa: E402


def main(argv):
    pid = argv[1]
    tier = "thorough" if "thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    verbose = "--verbose" in argv or "-v" in argv
    root = os.environ.get("VERIF_REPO", "/repo")
    rep = Report(pid, tier, root, HERE, verbose)
    mod = importlib.import_module(f"sa.checks.{pid.lower()}")
    rep.rule = (mod.__doc__ or "").strip()
    t = time.time()
    try:
        mod.check(rep)
    except Bad as e:
        # an operation that has to succeed fails before the first obligation that needs it
        rep.violation("preparation of the obligations", e.msg, e.loc)
    except ProgramError as e:
        rep.violation("preparation of the obligations", str(e), None)
    except Exception:
        traceback.print_exc()
        rep.crash = traceback.format_exc()
    return rep.finish(time.time() - t)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
