import omp, ompcarry
from result import Result, Vanished


def run(fe, tier):
    M = fe.module()
    r = Result("In every parallel region, memory that outlives an iteration is only written at a place selected by the iteration, "
               "or inside one critical section / atomic; no non-reentrant library routine runs in it; no thread-private state survives from one iteration to the next.")
    regs = omp.analyse(M)
    if not regs:
        raise Vanished("no OpenMP parallel region")
    for g in regs:
        r.count("regions")
        r.count("accesses_to_shared_memory", len(g.accesses))
        r.count("function_contexts", len(g.ctx))
        for ins, fn, msg in g.races():
            r.bad("%s:%s" % (fn.name if hasattr(fn, "name") else fn, msg), msg, M.where(ins) if ins is not None else "")
        for ins, fn, msg in order(M, g, r):
            r.bad("%s:%s" % (fn.name, msg), msg, M.where(ins))
    for fn in M.funcs.values():
        if not any(i.op == "call" and (i.callee or "").startswith(ompcarry.WSINIT) for i in fn.instrs()):
            continue
        bad, n = ompcarry.carried(M, fn)
        r.count("worksharing_loops", n)
        for ins, msg in bad:
            r.bad("%s:%s" % (fn.name, msg), msg, M.where(ins))
    r.assumptions = ["pointers passed into a region that the caller obtained from different allocations do not overlap",
                     "the C library routines not listed as non-reentrant are thread safe (POSIX)"]
    return r


def order(M, g, r):
    out, n = ompcarry.order_dependent(M, g)
    r.count("critical_updates", n)
    return out
