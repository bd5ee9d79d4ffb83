import multiprocessing, sys
import errflow as E
import influence as F
import optflow as O
import scenario
from result import Result, Vanished

# options that only select what is printed (s), recorded about the computation (S) or how many threads work on it (P)
QUIET = {"greenfn_main": "sSP", "kernel_main": "P", "syn_main": "s", "static_greenfn_main": "S", "static_syn_main": "s", "okada_main": "s", "eigenv_main": "sP", "modsum_main": "P",
         "eigenfn_main": "", "lamb1_main": "", "strain_main": "", "rotation_main": "", "stress_main": "", "static_strain_main": "", "static_rotation_main": "", "static_stress_main": "",
         "travt_main": "", "disp2asc_main": "", "ker2asc_main": "", "sac2asc_main": ""}
WHAT = {"s": "the option that silences messages (-s)", "S": "the option that records the integration (-S)", "P": "the number of threads (-P)", "env": "the clock, the environment or another property of the process"}
OUT = {"data": "the content of a file", "file": "which file is written", "text": "text in a file", "var": "a variable", "att": "an attribute"}

_w = None


def _one(root):
    sys.setrecursionlimit(20000)
    M, C = _w
    try:
        letters = [c for c in QUIET[root] if c in O.letters(C.R[root][0][1] or "")]
        R = F.regions(C, root, letters)
        d = F.Influence(R)
        I = C.run(root, d, limit=400000000)
        bad = []
        n = 0
        for (kind, ins, ctx), (data, handle, name, chain) in d.outs.items():
            n += 1
            for t in sorted(data):
                if t == "S" and t in handle:
                    continue            # a record of the integration
                bad.append(("%s:%s:%s" % (chain[0], kind, t), "%s: %s%s written here depends on %s" % (root[:-5], OUT[kind], " " + name if name else "", WHAT[t]), M.where(ins)))
        for (ins, ctx), (pc, chain) in d.ends.items():
            own = R.get(id(ins), frozenset())
            for t in sorted(pc - own):
                if t in ("s", "env"):
                    bad.append(("%s:end:%s" % (chain[0], t), "%s: whether the command ends here depends on %s" % (root[:-5], WHAT[t]), M.where(ins)))
        for fr in I.order:
            if fr.up is None and fr.ret[1]:
                for t in sorted(fr.ret[1] - {"S"}):
                    bad.append(("%s:status:%s" % (root, t), "%s: the exit status depends on %s" % (root[:-5], WHAT[t]), root))
        return n, len(I.frames), I.steps, {c: sum(c in v for v in R.values()) for c in letters}, bad, len(d.ends)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def run(fe, tier):
    global _w
    M = O.module(fe)
    r = Result("For every command: nothing that is written to a file (content, header, attribute, existence and name of the file) and no way the command ends depends, through data, decisions or the number of repetitions, on an option that only controls messages, "
               "records of the integration or threads, or on clock, environment variables, process identity, terminal or random numbers; records of the integration depend on their own option only.")
    C = scenario.Commands(M, E.exit_summary(M))
    roots = [x for x in C.R if x in QUIET]
    new = [x for x in C.R if x not in QUIET and x != "main"]
    for x in new:
        QUIET[x] = ""
        roots.append(x)
    if len(roots) < 15:
        raise Vanished("command-line parsing")
    _w = (M, C)
    roots.sort(key=lambda x: (x != "eigenv_main", x))
    with multiprocessing.get_context("fork").Pool(min(8, len(roots))) as p:
        got = p.map(_one, roots, chunksize=1)
    for root, g in zip(roots, got):
        if isinstance(g, str):
            raise RuntimeError("%s: %s" % (root, g))
        n, frames, steps, regs, bad, ends = g
        for c, k in regs.items():
            if not k:
                raise Vanished("%s: handling of option -%s" % (root, c))
        r.count("commands")
        r.count("options_followed", len(regs))
        r.count("outputs_checked", n)
        r.count("ends_checked", ends)
        r.count("function_contexts", frames)
        r.count("instructions_evaluated", steps)
        for b in bad:
            r.bad(*b)
    r.assumptions = ["dependence of the number of threads through the runtime (order of accumulation) is the subject of the thread property", "a message that fails to print does not matter"]
    return r
