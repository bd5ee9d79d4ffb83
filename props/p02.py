from result import Result, Vanished
from errflow import exit_summary, closure, status_zero_ok
from ir import Const

# queries whose failure is a documented, handled answer ("not there")
PROBES = {("nc_inq_varid", "u"), ("nc_inq_varid", "rcv_va"), ("nc_inq_attlen", "layout"),
          ("nc_get_att_text", "layout"), ("nc_inq_dimid", "point")}
PROBE_CALLS = {p[0] for p in PROBES}


def tested(fn, D):
    """the status is compared with the success code and the comparison used"""
    for v in D:
        for u in fn.uses.get(v, ()):
            if u.op == "icmp" and any(isinstance(a, Const) and a.kind == "int" and a.val == 0 for a in u.args) and fn.uses.get(u.res):
                return True
            if u.op == "switch":
                return True
    return False


def run(fe, tier):
    M = fe.module(inline=True)
    r = Result("On every path from a NetCDF library call, its status is compared with the success code and the failing side ends the process "
               "with a nonzero exit status before the function is left, the call is repeated or the process ends successfully "
               "(helpers that hand the status on are followed into their callers; five documented presence queries are exempt when tested).")
    fatal = exit_summary(M)
    calls = []
    names = set()
    for f in M.funcs.values():
        for i in f.instrs():
            if i.op == "call" and i.callee and i.callee.startswith("nc_") and i.callee != "nc_strerror":
                calls.append((f, i, i.callee))
                names.add(i.callee)
    if not calls:
        raise Vanished("no NetCDF call")

    def allow(fn, ins, D, rest):
        if ins.callee in PROBE_CALLS:
            k = 1 if ins.callee == "nc_inq_dimid" or ins.callee == "nc_inq_varid" else 2
            names = M.cstrings(fn, ins.args[k])
            if names and all((ins.callee, s) in PROBES for s in names):
                return tested(fn, D)
        return False
    bad, n = closure(M, calls, status_zero_ok, fatal, allow)
    for fn, ins, label, rest in bad:
        src = M.scope_func(ins) or fn.name
        how = {"ret": "the function is left", "again": "the call is repeated", "exit0": "the process ends successfully", "use": "it is used"}[rest[0][0]]
        r.bad("%s:%s:%s" % (src, label, M.where(ins).rsplit("/", 1)[-1]), "failure of %s() in %s can go unnoticed: %s (%s) without the failure having ended the command"
              % (label, src, how, M.where(rest[0][1])), M.where(ins))
    r.coverage["call_sites"] = n
    r.coverage["library_functions"] = sorted(names)
    r.assumptions = ["NetCDF functions return 0 exactly on success"]
    return r
