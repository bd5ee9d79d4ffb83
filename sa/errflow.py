"""Failure-status flow: from a call that can fail to the place where the
failure is acted upon, over the control-flow graph."""
from ir import Const, CE


def noreturn_exit(ins):
    """None, or 'fail'/'ok'/'abort' when the instruction ends the process"""
    if ins.op == "call" and ins.callee in ("exit", "_exit", "_Exit", "quick_exit"):
        a = ins.args[0]
        if isinstance(a, Const) and a.kind == "int":
            return "ok" if a.val == 0 else "fail"
        return "var"
    if ins.op == "call" and ins.callee in ("abort", "__assert_fail"):
        return "fail"
    return None


def exit_summary(M):
    """functions that never return and end the process with failure"""
    out = set()
    changed = True
    while changed:
        changed = False
        for f in M.funcs.values():
            if f.name in out:
                continue
            rets = False
            seen = set()
            st = [f.entry]
            ok = True
            while st and ok:
                b = st.pop()
                if b.name in seen:
                    continue
                seen.add(b.name)
                ended = False
                for i in b.instrs:
                    e = noreturn_exit(i)
                    if e or (i.op == "call" and i.callee in out):
                        ended = True
                        if e in ("ok", "var"):
                            ok = False
                        break
                    if i.op == "ret":
                        ok = False
                        break
                if not ended:
                    st.extend(b.succs)
            if ok:
                out.add(f.name)
                changed = True
    return out


def cond_edges(fn, br, D, zero_ok, depth=0):
    """For a conditional branch: which successor edges imply that the status in
    D signals success.  zero_ok(icmp, pos) -> True/False/None: does the icmp
    being `pos` imply success?  Looks through and/or/xor/select/zext chains.
    Returns set of successor names."""
    out = set()
    t, f = br.extra["succ"]
    for pol, s in ((True, t), (False, f)):
        if implies_ok(fn, br.args[0], pol, D, zero_ok, 0):
            out.add(s)
    if t == f:
        return set()
    return out


def implies_ok(fn, v, pol, D, zero_ok, depth):
    """does `v == pol` imply success?"""
    if depth > 8 or not isinstance(v, str):
        return False
    d = fn.defs.get(v)
    if d is None:
        return False
    if d.op in ("icmp", "fcmp"):
        a, b = d.args
        # icmp ne (zext c), 0
        for x, y in ((a, b), (b, a)):
            if isinstance(x, str) and x in fn.defs and fn.defs[x].op in ("zext", "trunc", "select", "and", "or", "xor") and isinstance(y, Const) and y.kind == "int" and y.val == 0 \
               and d.extra["pred"] in ("eq", "ne") and x not in D:
                return implies_ok(fn, x, pol if d.extra["pred"] == "ne" else not pol, D, zero_ok, depth + 1)
        return bool(zero_ok(d, pol))
    if d.op in ("zext", "sext", "trunc", "freeze"):
        return implies_ok(fn, d.args[0], pol, D, zero_ok, depth + 1)
    if d.op == "xor" and isinstance(d.args[1], Const) and d.args[1].val in (1, -1):
        return implies_ok(fn, d.args[0], not pol, D, zero_ok, depth + 1)
    if d.op == "and":
        if pol:
            return any(implies_ok(fn, x, True, D, zero_ok, depth + 1) for x in d.args)
        return all(implies_ok(fn, x, False, D, zero_ok, depth + 1) for x in d.args)
    if d.op == "or":
        if not pol:
            return any(implies_ok(fn, x, False, D, zero_ok, depth + 1) for x in d.args)
        return all(implies_ok(fn, x, True, D, zero_ok, depth + 1) for x in d.args)
    if d.op == "select":
        c, a, b = d.args
        if isinstance(b, Const) and b.kind == "int" and b.val == 0:      # c && a
            if pol:
                return any(implies_ok(fn, x, True, D, zero_ok, depth + 1) for x in (c, a))
            return all(implies_ok(fn, x, False, D, zero_ok, depth + 1) for x in (c, a))
        if isinstance(a, Const) and a.kind == "int" and a.val in (1, -1):  # c || b
            if not pol:
                return any(implies_ok(fn, x, False, D, zero_ok, depth + 1) for x in (c, b))
            return all(implies_ok(fn, x, True, D, zero_ok, depth + 1) for x in (c, b))
    if d.op == "phi":
        # short-circuit phi: [const, B], [v, C]: other incomings must not be pol
        rest = []
        for x, _ in d.extra["in"]:
            if isinstance(x, Const):
                if bool(x.val) == pol:
                    return False
            else:
                rest.append(x)
        return bool(rest) and all(implies_ok(fn, x, pol, D, zero_ok, depth + 1) for x in rest)
    return False


def derived(fn, v, extra_ops=()):
    """values that carry the status v unchanged (casts, phis, selects, ors)"""
    D = {v}
    work = [v]
    ops = {"zext", "sext", "trunc", "freeze", "or", "bitcast"} | set(extra_ops)
    while work:
        x = work.pop()
        for u in fn.uses.get(x, ()):
            if u.res and u.res not in D and (u.op in ops or (u.op in ("phi",)) or (u.op == "select" and x in u.args[1:])):
                D.add(u.res)
                work.append(u.res)
    return D


def status_zero_ok(D):
    def f(icmp, pol):
        a, b = icmp.args
        if isinstance(b, str) and b in D:
            a, b = b, a
        if not (isinstance(a, str) and a in D):
            return None
        if isinstance(b, Const) and b.kind in ("int",) and b.val == 0:
            p = icmp.extra["pred"]
            return (p == "eq" and pol) or (p == "ne" and not pol) or (p == "ugt" and not pol) or (p == "ule" and pol)
        return None
    return f


def checks_param(M, name, k, kind, fatal, depth=0):
    """does M.funcs[name] end the process with failure whenever parameter k
    signals failure (so that its return implies success)?"""
    c = M.__dict__.setdefault("_chkparam", {})
    key = (name, k, kind.__name__)
    if key in c:
        return c[key]
    c[key] = False
    f = M.funcs[name]
    if k >= len(f.params):
        return False
    D = derived(f, f.params[k][1])

    class Start:
        block, idx = f.entry, -1
    r = follow(M, f, Start, D, kind(D), fatal, kind=kind)
    c[key] = not r
    return c[key]


def follow(M, fn, call, D, zero_ok, fatal, is_use=None, kind=None):
    """Walk every path from `call` while the status is unexamined.
    Returns list of (kind, instr): 'ret' (function left with the failure
    unexamined), 'retval' (handed to the caller), 'again' (call executed again),
    'use' (forbidden use while unexamined), 'exit0' (process ends as a success)."""
    out = []
    seen = set()
    kind = kind or status_zero_ok
    st = [(call.block, call.idx + 1)]
    while st:
        b, k = st.pop()
        if (b.name, k > 0 and b is call.block and k == call.idx + 1) in seen:
            continue
        seen.add((b.name, k > 0 and b is call.block and k == call.idx + 1))
        stop = False
        for ins in b.instrs[k:]:
            if ins is call:
                out.append(("again", ins))
                stop = True
                break
            e = noreturn_exit(ins)
            if e or (ins.op == "call" and ins.callee in fatal):
                if e == "ok":
                    out.append(("exit0", ins))
                stop = True
                break
            if ins.op == "call" and ins.callee in M.funcs and any(isinstance(a, str) and a in D for a in ins.args) \
               and any(checks_param(M, ins.callee, k, kind, fatal) for k, a in enumerate(ins.args) if isinstance(a, str) and a in D):
                stop = True
                break
            if is_use is not None:
                u = is_use(ins)
                if u:
                    out.append((u if isinstance(u, str) else "use", ins))
                    stop = True
                    break
            if ins.op == "ret":
                if ins.args and isinstance(ins.args[0], str) and ins.args[0] in D:
                    out.append(("retval", ins))
                else:
                    out.append(("ret", ins))
                stop = True
                break
            if ins.op == "unreachable":
                stop = True
                break
        if stop:
            continue
        t = b.term
        ok = set()
        if t.op == "br" and len(t.extra["succ"]) == 2:
            ok = cond_edges(fn, t, D, zero_ok)
        elif t.op == "switch" and isinstance(t.args[0], str) and t.args[0] in D:
            z = [s for v, s in t.extra["cases"] if v == 0]
            nz = [s for v, s in t.extra["cases"] if v != 0] + [t.extra["default"]]
            ok = set(z) - set(nz)
        for s in b.succs:
            if s.name not in ok:
                st.append((s, 0))
    return out


def ptr_ok(D):
    """kind: a pointer that is null on failure"""
    def f(icmp, pol):
        a, b = icmp.args
        if isinstance(b, str) and b in D:
            a, b = b, a
        if not (isinstance(a, str) and a in D):
            return None
        if isinstance(b, Const) and b.kind == "null":
            p = icmp.extra["pred"]
            return (p == "ne" and pol) or (p == "eq" and not pol)
        return None
    return f


def closure(M, calls, kind, fatal, allow, is_use=None):
    """Follow every status call; functions that hand the status to their caller
    become status calls themselves.  calls: [(fn, ins, label)].  Returns
    (bad [(fn, ins, label, outcomes)], number of sites followed)."""
    bad, n = [], 0
    seen = set()
    work = list(calls)
    callers = None
    while work:
        fn, ins, label = work.pop()
        if id(ins) in seen:
            continue
        seen.add(id(ins))
        n += 1
        D = derived(fn, ins.res) if ins.res else set()
        r = follow(M, fn, ins, D, kind(D), fatal, is_use=is_use(fn, D) if is_use else None, kind=kind)
        rest = [x for x in r if x[0] != "retval"]
        if any(x[0] == "retval" for x in r):
            if callers is None:
                callers = {}
                for g in M.funcs.values():
                    for i in g.instrs():
                        if i.op == "call" and i.callee in M.funcs:
                            callers.setdefault(i.callee, []).append((g, i))
            for g, i in callers.get(fn.name, ()):
                work.append((g, i, label + " through " + fn.name))
        if rest and not allow(fn, ins, D, rest):
            bad.append((fn, ins, label, rest))
    return bad, n
