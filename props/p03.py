from result import Result, Vanished
import iofail

HOW = {"ret": "the function is left", "again": "the call is repeated", "exit0": "the process ends successfully"}


def run(fe, tier):
    M = fe.module(inline=True)
    r = Result("Every call that opens, reads, writes, creates or closes-after-writing a file is followed on all paths by a test of its result whose failing side ends the process with a nonzero status "
               "or returns a failure value to a caller that does (EEXIST from mkdir is not a failure).")
    bad, cnt = iofail.analyse(M)
    if not cnt:
        raise Vanished("no file operation")
    for fn, ins, label, what, x in bad:
        src = M.scope_func(ins) or fn.name
        r.bad("%s:%s:%s" % (src, label, M.where(ins).rsplit("/", 1)[-1]), "failure of %s in %s can go unnoticed: %s (%s) without the failure having ended the command" % (label, src, HOW[what], M.where(x)), M.where(ins))
    r.coverage["obligations"] = sum(cnt.values())
    r.coverage["by_call"] = cnt
    r.assumptions = ["output to stdout/stderr is not a file output", "buffered formatted output (fprintf) reports its failures at the latest when the stream is closed"]
    return r
