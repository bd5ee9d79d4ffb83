import ast, glob, os
from result import Result, Vanished
import errflow as E, iofail, pyflow
from ir import Const, CE
from front import REPO

STATUS_FUNCS = ("grt_okada_dc3d", "grt_okada_dc3d0")


def run(fe, tier):
    M = fe.module(inline=True)
    r = Result("(1) Every path from a statement that prints an error message to stderr leads to process exit with a nonzero status. (2) A nonzero result of a module entry point reaches the result of main. "
               "(3) A nonzero status of the Okada evaluation ends the process. (4) In Python, the exit status of every started command is tested and a nonzero one raises; no handler swallows it.")
    fatal = E.exit_summary(M)
    live = iofail.reachable(M)
    n = 0
    for f in M.funcs.values():
        for i in f.instrs():
            if i.op != "call" or i.callee not in ("fprintf", "fputs", "vfprintf", "fwrite"):
                continue
            k = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fwrite": 3}[i.callee]
            s = f.defs.get(i.args[k]) if isinstance(i.args[k], str) else None
            if s is None or s.op != "load" or s.args[0] not in ("@stderr", "@stdout"):
                continue
            txt = M.cstring(i.args[1 if k == 0 else 0])
            if not txt or "[ERROR]" not in txt:
                continue
            n += 1
            out = iofail.walk(M, f, i, set(), E.status_zero_ok, fatal)
            for what, x, c in out:
                if what in ("ret", "retval", "exit0", "retfail"):
                    src = M.scope_func(i) or f.name
                    r.bad("errmsg:%s:%s" % (src, txt[-60:].strip()), "an error is reported in %s but the command can go on or end successfully (%s)" % (src, M.where(x)), M.where(i))
                    break
    if n == 0:
        raise Vanished("no error report found")
    r.coverage["error_reports"] = n
    # exit(0) after parsing is only for help/version: any other successful exit must be the end of main
    # (2)
    mods = set()
    for g in M.globals.values():
        st = [g["init"]]
        while st:
            y = st.pop()
            if isinstance(y, CE):
                st.extend(q[1] for q in y.args)
            elif isinstance(y, str) and y[1:] in M.funcs and M.funcs[y[1:]].ret == "i32" and len(M.funcs[y[1:]].params) == 2:
                mods.add(y[1:])
    if not mods:
        raise Vanished("no module table")
    r.coverage["module_entry_points"] = len(mods)
    nonzero = []
    for m in sorted(mods):
        f = M.funcs[m]
        for i in f.instrs():
            if i.op == "ret":
                vals = retvals(f, i.args[0])
                if any(v is None or v != 0 for v in vals):
                    nonzero.append((m, i))
    if nonzero:
        # the indirect call's status must reach main's result
        calls = [(f, i, "module entry point") for f in M.funcs.values() for i in f.instrs()
                 if i.op == "call" and i.callee is None and i.ty == "i32" and i.extra.get("atys") == ["i32", "ptr"] and f.name in live]
        work, seen, okmain = list(calls), set(), bool(calls)
        while work:
            f, i, lab = work.pop()
            if id(i) in seen:
                continue
            seen.add(id(i))
            D = E.derived(f, i.res) if i.res else set()
            for what, x, c in iofail.walk(M, f, i, D, E.status_zero_ok, fatal):
                if what == "retval" and f.name != "main":
                    for g in M.funcs.values():
                        for j in g.instrs():
                            if j.op == "call" and j.callee == f.name:
                                work.append((g, j, lab))
                elif what == "retval" or (what == "retfail" and f.name == "main"):
                    pass
                else:
                    m, ri = nonzero[0]
                    r.bad("status:%s" % m, "%s can return a nonzero status, which is lost in %s (%s): the process ends successfully" % (m, f.name, M.where(x)), M.where(ri))
    # main itself must not end the process by anything but 0/status: covered by (1)
    # (3)
    calls = [(f, i, i.callee) for f in M.funcs.values() for i in f.instrs() if i.op == "call" and i.callee in STATUS_FUNCS and not f.name in STATUS_FUNCS]

    def warn(fn, D):
        def f(ins):
            if ins.op == "call" and ins.callee == "fprintf" and "[WARNING]" in (M.cstring(ins.args[1]) or ""):
                return "warned"
        return f
    # a singular point source is announced by a warning and contributes zero; everything else ends the command
    bad, k = E.closure(M, calls, E.status_zero_ok, fatal, lambda fn, ins, D, rest: ins.callee == "grt_okada_dc3d0" and all(x[0] == "warned" for x in rest), is_use=warn)
    r.coverage["numerical_status_sites"] = k
    for fn, ins, label, rest in bad:
        src = M.scope_func(ins) or fn.name
        r.bad("%s:%s" % (src, label), "a failed evaluation (nonzero result of %s) in %s is used as if it had succeeded" % (label, src), M.where(ins))
    # (4)
    python(r)
    r.assumptions = ["error reports are printed with the tag [ERROR] (the project's single convention)"]
    return r


def retvals(f, v, seen=None):
    seen = seen if seen is not None else set()
    if isinstance(v, Const):
        return {v.val if v.kind == "int" else None}
    if v in seen:
        return set()
    seen.add(v)
    d = f.defs.get(v)
    if d is not None and d.op == "phi":
        out = set()
        for x, _ in d.extra["in"]:
            out |= retvals(f, x, seen)
        return out
    if d is not None and d.op == "select":
        return retvals(f, d.args[1], seen) | retvals(f, d.args[2], seen)
    return {None}


def python(r):
    n = 0
    names = {"run_grt"}
    for p in sorted(glob.glob(os.path.join(REPO, "pygrt", "*.py"))):
        t = ast.parse(open(p, encoding="utf-8").read(), p)
        fs = pyflow.functions(t)
        rel = os.path.relpath(p, REPO)
        for nm, f in fs.items():
            w = pyflow.Walk(fs, {})
            w.func(f)
            n += w.n
            for node, msg in w.bad:
                r.bad("py:%s:%s:%s" % (rel, nm, msg), msg, "%s:%d" % (rel, node.lineno))
        for c in pyflow.swallowing(t, names | {"run", "check_call"}):
            if pyflow.dotted(c.func) in ("run_grt", "cli.run_grt", "subprocess.run", "subprocess.check_call"):
                r.bad("py:%s:swallow" % rel, "a failing command is swallowed by an exception handler", "%s:%d" % (rel, c.lineno))
    r.coverage["python_command_starts"] = n
    if n == 0:
        raise Vanished("no subprocess start in the Python package")
