"""batch.py FILE: FILE defines B = [(checks, file, old, new)]; each change is applied to a scratch copy and the checks run."""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

B = runpy.run_path(sys.argv[1])["B"]


def one(t):
    i, (checks, f, old, new) = t
    d = tempfile.mkdtemp(prefix="batch")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        if os.path.exists("/repo/pyproject.toml"):
            shutil.copy("/repo/pyproject.toml", d)
        p = f"{d}/src/magnopy/{f}"
        s = open(p).read()
        if old not in s:
            return f"{i} {checks}: NOT FOUND {old[:50]!r}"
        open(p, "w").write(s.replace(old, new, 1))
        try:
            compile(open(p).read(), p, "exec")
        except SyntaxError as e:
            return f"{i} {checks}: SYNTAX {e}"
        out = []
        for c in checks.split():
            r = subprocess.run(["timeout", "800", "python3-vt", "check.py", c], cwd="/verif", env={**os.environ, "VERIF_REPO": d}, capture_output=True, text=True)
            n = r.stdout.splitlines()
            v = [l for l in n if l.startswith("VIOLATION")]
            why = [l.strip() for l in n[1:] if l.startswith("  ")][:1]
            out.append(f"{c}:{'CAUGHT' if v else 'missed rc=%d' % r.returncode} {why[0][:110] if why and not v else ''}")
        return f"{i} {new.strip()[:60]!r}: " + " ".join(out)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, enumerate(B)):
        print(r, flush=True)
