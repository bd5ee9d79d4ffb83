#!/usr/bin/env python3
"""Development aid: run checks against edited copies of the sources.
tools/mutants/*.py define MUT = [(name, pids, expect, [(file, old, new), ...])];
expect 1: the check must report, 0: it must stay quiet."""
import os, sys, shutil, subprocess, glob, importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
SCR = "/tmp/verif_mut"


def load(pat):
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "mutants", "*.py"))):
        sp = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for x in m.MUT:
            x = (os.path.basename(f)[:-3] + ":" + x[0],) + tuple(x[1:])
            if not pat or any(p in x[0] for p in pat):
                out.append(x)
    return out


def one(x):
    name, pids, exp, edits = x
    d = os.path.join(SCR, name.replace(":", "_"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-r", "/repo/pygrt", d + "/pygrt"], check=True)
    shutil.rmtree(d + "/pygrt/C_extension/build", ignore_errors=True)
    shutil.rmtree(d + "/pygrt/C_extension/lib", ignore_errors=True)
    shutil.rmtree(d + "/pygrt/C_extension/bin", ignore_errors=True)
    res = []
    try:
        for f, old, new in edits:
            p = d + "/pygrt/" + (f if f.endswith(".py") else "C_extension/" + f)
            s = open(p).read()
            if old not in s:
                return [(name, "-", "EDIT-MISSING %s" % f, "")]
            open(p, "w").write(s.replace(old, new, 1) if not old.startswith("@@all@@") else s)
        for pid in pids.split():
            q = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"), pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVID="/tmp/verif_mut/ev"))
            ok = q.returncode == exp
            res.append((name, pid, ("ok  " if ok else "MISS" if exp == 1 and q.returncode == 0 else "ALARM" if exp == 0 and q.returncode == 1 else "ERR ") + " rc=%d" % q.returncode,
                        "\n".join(q.stdout.strip().splitlines()[-4:]) if not ok or "-v" in sys.argv else q.stdout.strip().splitlines()[0][:150] if exp == 1 and q.stdout.strip() else ""))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


if __name__ == "__main__":
    pat = [a for a in sys.argv[1:] if not a.startswith("-")]
    os.makedirs(SCR, exist_ok=True)
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, load(pat)):
            for l in r:
                print("%-45s %-4s %s\n      %s" % (l[0], l[1], l[2], l[3]) if l[3] else "%-45s %-4s %s" % l[:3])
                sys.stdout.flush()
