import multiprocessing, re, sys
import errflow as E
import optflow as O
import paths as P
import scenario
from result import Result, Vanished

# where a command may write: options that name its output ("" = the path given without an option), and fixed places
OUT = {"eigenfn_main": "CUKW"[1:], "eigenv_main": "C", "strain_main": "", "rotation_main": "", "stress_main": "", "static_strain_main": "", "static_rotation_main": "", "static_stress_main": "",
       "travt_main": None, "disp2asc_main": None, "ker2asc_main": None, "sac2asc_main": None, "lamb1_main": None}
FIXED = {"static_greenfn_main": ["stgrtstats"]}
BESIDE = {"greenfn_main": ["_grtstats"]}
UPDATES = {"static_strain_main", "static_rotation_main", "static_stress_main"}
PARTS = {"eigenfn_main"}

_w = None


def judge(root, ps):
    """what is wrong with the place of a path"""
    out = OUT.get(root, "O")
    ok = set() if out is None else set(out) or {""}
    for p in sorted(ps, key=str):
        if not p:
            return "an empty path"
        t = p[0]
        lit = "".join("\0" if not isinstance(x, str) else x for x in p)
        if any(c == ".." for c in lit.split("/")):
            return "%s leaves its directory" % P.show(p)
        if isinstance(t, str):
            if not any(t == f or t.startswith(f + "/") for f in FIXED.get(root, [])):
                return "%s is a fixed place" % P.show(p)
        elif t[0] == "opt" or t[0] == "part" and root in PARTS:
            if not t[1] <= ok:
                return "%s is not the output path" % P.show(p)
            if len(p) > 1:
                n = p[1]
                if not (isinstance(n, str) and (n.startswith("/") or any(n == b or n.startswith(b + "/") for b in BESIDE.get(root, [])))):
                    # a text put together piece by piece: the pieces in another order do not count
                    if not (isinstance(n, tuple) and (n[1:] and n[1] in ("many", "long") or any(q[:1] == p[:1] and len(q) > 2 and isinstance(q[1], str) and q[1].startswith("/") for q in ps))):
                        return "%s lies beside the output path" % P.show(p)
        else:
            return "%s is not the output path" % P.show(p)
        # a name taken over from another path must be its last component only
        for x in p[1:]:
            if x == ("?", "text of a file"):
                if not any(isinstance(y, tuple) and y[0] == "base" for q in ps for y in q[1:]):
                    return "%s goes wherever a text in a file leads" % P.show(p)
            if isinstance(x, tuple) and x[0] == "opt":
                if not any(isinstance(y, tuple) and y[0] in ("base", "part") and y[1] == x[1] for q in ps for y in q[1:]):
                    return "%s goes wherever the argument of another option leads" % P.show(p)
    return None


def _one(root):
    sys.setrecursionlimit(20000)
    M, C = _w
    try:
        d = P.Paths(P.letters(C, root))
        I = C.run(root, d, limit=400000000)
        bad, n, effects, reads = [], 0, 0, []
        for (kind, ins, ctx), (ps, chain) in d.sites.items():
            n += len(ps)
            if kind == "read":
                reads += [p for p in ps if ins.callee != "opendir"]
                continue
            effects += 1
            key = "%s:%s" % (chain[0], kind)
            if kind == "update":
                if root not in UPDATES:
                    bad.append((key, "%s: opens %s for changing, although it is an input" % (root[:-5], " | ".join(sorted(map(P.show, ps)))[:100]), M.where(ins)))
                    continue
            elif kind not in ("write", "append", "mkdir"):
                bad.append((key, "%s: %s(%s): commands create files and directories, they do not move, delete or run anything" % (root[:-5], kind, " | ".join(sorted(map(P.show, ps)))[:100]), M.where(ins)))
                continue
            if not ps:
                bad.append((key, "%s: %s of a path that is not set" % (root[:-5], kind), M.where(ins)))
                continue
            why = judge(root, ps)
            if why:
                bad.append((key, "%s: %s outside the output path: %s" % (root[:-5], kind, why), M.where(ins)))
        for (kind, ins, ctx), (ps, chain) in d.sites.items():
            if kind == "write":
                for p in ps:
                    for q in reads:
                        if P.overlap(p, q) and len(p) > 1:
                            bad.append(("%s:overwrites" % chain[0], "%s: %s may be the file %s it reads" % (root[:-5], P.show(p), P.show(q)), M.where(ins)))
        m = 0
        for (name, ins, ctx), (kinds, var, varg, chain) in d.puts.items():
            if not kinds - {"write"}:
                continue
            m += 1
            key = "%s:%s" % (chain[0], name)
            if kinds & {"read"}:
                bad.append((key, "%s: %s on a file opened for reading" % (root[:-5], name), M.where(ins)))
            elif name.startswith(("nc_del", "nc_rename", "nc_copy", "nc_set", "nc_put")) and (var != frozenset(["new"])):
                bad.append((key, "%s: %s changes what the input file already holds" % (root[:-5], name), M.where(ins)))
        return n, effects, m, len(I.frames), I.steps, bad
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def run(fe, tier):
    global _w
    M = O.module(fe)
    r = Result("Every path a command creates, replaces or extends (fopen for writing or appending, mkdir, nc_create), followed as text from the command line through every copy, format and helper, begins with the whole argument of the output option "
               "(or the documented directory of integration records) and stays below it; inputs are opened for reading only; derived quantities get names no input of the command can have, or are new variables of the given file; nothing is deleted, renamed or executed.")
    C = scenario.Commands(M, E.exit_summary(M))
    roots = [x for x in C.R if x != "main"]
    if len(roots) < 15:
        raise Vanished("command-line parsing")
    _w = (M, C)
    roots.sort(key=lambda x: (x != "eigenv_main", x != "greenfn_main", x))
    with multiprocessing.get_context("fork").Pool(min(8, len(roots))) as p:
        got = p.map(_one, roots, chunksize=1)
    total = 0
    for root, g in zip(roots, got):
        if isinstance(g, str):
            raise RuntimeError("%s: %s" % (root, g))
        n, effects, m, frames, steps, bad = g
        total += effects
        r.count("commands")
        r.count("path_texts", n)
        r.count("writing_sites", effects)
        r.count("changes_of_given_files", m)
        r.count("function_contexts", frames)
        r.count("instructions_evaluated", steps)
        for b in bad:
            r.bad(*b)
    n = 0
    for f, w, ok in P.copies(M):
        n += 1
        if not ok:
            r.bad("%s:samefile" % f.name, "a file is copied without making sure that source and target are different files: a model in the output directory would be emptied", M.where(w))
    r.count("copies_guarded", n)
    if total < 20:
        raise Vanished("sites that write files")
    r.assumptions = ["the user does not name the same place as input and output", "symbolic links are not considered"]
    return r
