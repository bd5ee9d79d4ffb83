from result import Result, Vanished
import errflow as E
import optflow as O

# numbers of converted fields that are documented forms of the option; default: all fields
FORM = {
    ("greenfn_main", "E", "", 2): {1, 2}, ("modsum_main", "E", "", 2): {1, 2},
    ("syn_main", "M", "", 3): {2, 3}, ("static_syn_main", "M", "", 3): {2, 3}, ("okada_main", "M", "", 3): {2, 3},
    ("okada_main", "I", "", 4): {3},
    ("eigenfn_main", "N", "", 3): {1, 2, 3}, ("eigenfn_main", "F", "", 3): {1, 2, 3}, ("eigenfn_main", "W", "z", 3): {1, 3},
    ("modsum_main", "N", "", 3): {1, 2, 3}, ("disp2asc_main", "N", "", 3): {1, 2, 3}, ("disp2asc_main", "F", "", 3): {1, 2, 3},
    ("eigenv_main", "F", "", 3): {1, 3}, ("kernel_main", "C", "", 3): {1, 3},
}
MODEL6 = {4, 6}
DEREF = {"sscanf": 0, "__isoc99_sscanf": 0, "__isoc23_sscanf": 0, "strlen": 0, "strdup": 0, "__strdup": 0, "strcpy": 1, "strcat": 1, "strcmp": 0, "strncmp": 0, "strchr": 0, "strrchr": 0,
         "atof": 0, "atoi": 0, "atol": 0, "strtod": 0, "strtol": 0, "__isoc23_strtol": 0, "sprintf": 2, "snprintf": 3, "fopen": 0, "access": 0}


def forms(root, opt, s):
    n = len(s.conv)
    if n == 6 and s.fmt is not None and "/" not in s.fmt:
        return MODEL6
    f = FORM.get((root, opt, s.sub, n))
    if f is None and n == 3:
        f = FORM.get((root, opt, "", n))
    return f or {n}


def run(fe, tier):
    M = O.module(fe)
    r = Result("For every conversion of text to numbers in a command (options, model files, fault files, receiver lists, time functions) and every number of converted fields that is not a documented form "
               "(in particular none, and end of text), no path on which the outcome is not refuted leads to a successful end of the command; conversions that cannot report failure are not used; "
               "a missing token is never dereferenced.")
    fatal = E.exit_summary(M)
    W = O.Walker(M, fatal)
    R = O.roots(M)
    if len(R) < 10:
        raise Vanished("command-line parsing")
    S = [s for s in O.sites(M, W, set(M.funcs)) if s.fn.name in R]
    if not S:
        raise Vanished("text conversions")
    nh = 0

    def is_root(f):
        return f.name in R or f.name == "main"
    unresolved = 0
    for s in S:
        fn, c = s.fn, s.ins
        src = M.scope_func(c) or fn.name
        at = M.where(c).rsplit("/", 1)[-1]
        name = "%s%s" % (fn.name.replace("_main", "").replace("_", " "), " -" + "/".join(sorted(s.opts)) if s.opts else "")
        if c.callee in O.BLIND:
            nh += 1
            r.bad("%s:%s:%s" % (src, c.callee, at), "%s: %s() in %s cannot tell a number from other text" % (name, c.callee, src), M.where(c))
            continue
        if c.callee in O.ENDCONV:
            if not c.res or not fn.uses.get(c.res):
                continue                       # only asks whether the text is a number
            nh += 1
            endp = c.args[1]
            env = {}
            if isinstance(endp, str):
                env[("ptreq",)] = (W.ptrname(fn, c.args[0], {}), ("cell", W.key(fn, endp)))
            if W.accepted(fn, c, env, is_root):
                r.bad("%s:%s:%s" % (src, fn.name, at), "%s: a text without a number for %s() in %s does not always end the command with an error" % (name, c.callee, src), M.where(c))
            continue
        if s.fmt is None:
            unresolved += 1
            continue
        if O.revalidated(M, W, s, S):
            continue
        ok = set()
        for o in s.opts or {""}:
            ok |= forms(fn.name, o, s)
        tk = W.key(fn, c.args[0])

        def stop(ins, env, f, tk=tk, fn=fn):
            return f is fn and ins.op == "call" and ins.callee in ("fopen", "fopen64") and tk is not None and W.key(f, ins.args[0]) == tk
        n = len(s.conv)
        for k in range(-1, n):
            if k in ok or k == 0 and n == 0:
                continue
            nh += 1
            env = {c.res: (None, (k, k, False, False))} if c.res else {}
            if W.accepted(fn, c, env, is_root, stop):
                what = "no text at all" if k < 0 else "no number" if k == 0 else "only %d of %d fields" % (k, n)
                r.bad("%s:%s:%s:%d" % (src, fn.name, at, k), "%s: a text with %s for the format \"%s\" in %s does not always end the command with an error" % (name, what, s.fmt.strip(), src), M.where(c))
                break
    # tokens that may not exist
    nt = 0
    for f in M.funcs.values():
        if f.name not in R:
            continue
        for i in f.instrs():
            if i.op == "call" and i.callee in ("strtok", "strtok_r", "__strtok_r", "strsep") and i.res:
                nt += 1
                hit = []

                def obs(ins, env, f=f):
                    p = None
                    if ins.op == "load":
                        p = ins.args[0]
                    elif ins.op == "call" and ins.callee in DEREF and len(ins.args) > DEREF[ins.callee]:
                        p = ins.args[DEREF[ins.callee]]
                    if isinstance(p, str) and is_null(f, p, env):
                        hit.append(ins)
                W.walk(f, i, {i.res: ("null", True, "T")}, stop=lambda ins, env, fn, i=i: bool(hit) or ins is i or not any(len(v) == 3 for v in env.values()), observe=obs)
                if hit:
                    r.bad("%s:token:%s" % (f.name, M.where(i).rsplit("/", 1)[-1]), "%s: a text without any token is used at %s without a test" % (f.name, M.where(hit[0])), M.where(i))
    r.coverage.update(conversions=len(S), hypotheses=nh, tokens=nt, commands=len(R), unresolved_formats=unresolved)
    r.assumptions = ["text following the last number is not examined", "sscanf returns the number of converted fields, or EOF"]
    return r


def is_null(f, p, env, depth=0):
    if p in env and env[p][0] == "null":
        return env[p][1]
    d = f.defs.get(p)
    if d is not None and d.op in ("getelementptr", "bitcast", "freeze") and depth < 6 and isinstance(d.args[0], str):
        return is_null(f, d.args[0], env, depth + 1)
    return False
