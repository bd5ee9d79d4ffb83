"""File-system failure flow (C library).  Every call that can fail starts an
obligation: on each path the failure is tested, and the failing side ends the
process with a nonzero status, or hands a failure value to the caller (which
then carries the obligation)."""
from ir import Const, CE
import errflow as E

PTR = {"fopen": 0, "fdopen": 0, "freopen": 0, "tmpfile": 0, "popen": 0}
NEG = {"mkdir", "rename", "remove", "unlink", "truncate", "ftruncate", "fseek", "fflush_", "link", "symlink", "open", "creat", "chmod"}
COUNT = {"fread", "fwrite"}


def count_ok(nm, stream=False):
    """success: the item count equals nm (operand).  A count merely different
    from zero is enough for one item, or when the count itself is used as the
    amount that was transferred (copy loops)."""
    def kind(D):
        def f(icmp, pol):
            a, b = icmp.args
            p = icmp.extra["pred"]
            if isinstance(b, str) and b in D:
                a, b = b, a
                p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
            if not (isinstance(a, str) and a in D):
                return None
            n1 = isinstance(nm, Const) and nm.kind == "int"
            if isinstance(b, Const) and b.kind == "int":
                v = b.val
                if p in ("ne", "ugt", "sgt") and v == 0:
                    return pol and (stream or (n1 and nm.val == 1))
                if p in ("eq", "ule", "sle") and v == 0:
                    return (not pol) and (stream or (n1 and nm.val == 1))
                if p in ("ult", "slt") and v == 1:
                    return (not pol) and (stream or (n1 and nm.val == 1))
                if n1:
                    if p == "eq":
                        return pol and v == nm.val
                    if p == "ne":
                        return (not pol) and v == nm.val
                    if p in ("uge", "sge"):
                        return pol and v >= nm.val
                    if p in ("ugt", "sgt"):
                        return pol and v >= nm.val - 1
                    if p in ("ult", "slt"):
                        return (not pol) and v >= nm.val
                    if p in ("ule", "sle"):
                        return (not pol) and v >= nm.val - 1
                return None
            if p in ("eq", "uge", "sge"):
                return pol
            if p in ("ne", "ult", "slt"):
                return not pol
            return None
        return f
    kind.__name__ = "count%s%s" % (nm.val if isinstance(nm, Const) else "v", stream)
    return kind


def amount_used(fn, v):
    """the count is used as an amount (not only compared)"""
    return any(u.op in ("call", "getelementptr", "add", "sub", "mul", "store") for x in E.derived(fn, v) for u in fn.uses.get(x, ()))


def neg_ok(D):
    """success is 0, failure is -1 / EOF / nonzero"""
    def f(icmp, pol):
        a, b = icmp.args
        p = icmp.extra["pred"]
        if isinstance(b, str) and b in D:
            a, b = b, a
            p = {"ult": "ugt", "ugt": "ult", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
        if not (isinstance(a, str) and a in D) or not isinstance(b, Const) or b.kind != "int":
            return None
        if b.val == 0:
            return {"eq": pol, "ne": not pol, "slt": not pol, "sge": pol}.get(p)
        if b.val == -1:
            return {"eq": not pol, "ne": pol, "sgt": pol, "sle": not pol}.get(p)
        return None
    return f


def retfail(fn, path_pred, ret):
    """the constant returned when the return block is entered from path_pred"""
    if not ret.args:
        return None
    v = ret.args[0]
    if isinstance(v, Const):
        return v
    d = fn.defs.get(v) if isinstance(v, str) else None
    if d is not None and d.op == "phi" and d.block is ret.block and path_pred is not None:
        for x, p in d.extra["in"]:
            if p == path_pred.name:
                return x if isinstance(x, Const) else None
    return None


def walk(M, fn, start, D, kind, fatal, errno_ok=False):
    """outcomes: list of (what, ins, const).  Constants that the failing path
    selects at joins are tracked, so that a flag or an error code set on the
    failing side and tested later is understood."""
    out = []
    seen = set()
    ok = kind(D)
    interesting = _phis_that_matter(fn)
    st = [(start.block, start.idx + 1, None, False, ())]
    steps = 0
    while st:
        b, k, prev, tested, env = st.pop()
        key = (b.name, k, prev.name if prev is not None else None, tested, env)
        if key in seen:
            continue
        seen.add(key)
        steps += 1
        if steps > 20000:
            out.append(("ret", start, None))
            return out
        e_ = dict(env)
        if prev is not None and k == 0:
            new = {}
            for ins in b.instrs:
                if ins.op != "phi":
                    break
                if ins.res not in interesting:
                    continue
                for x, p in ins.extra["in"]:
                    if p == prev.name:
                        q = _cval(fn, x, e_)
                        if q is not None:
                            new[ins.res] = Const("null") if q == "null" else Const("int", q)
                        else:
                            e_.pop(ins.res, None)
            e_.update(new)
        stop = False
        for ins in b.instrs[k:]:
            e = E.noreturn_exit(ins)
            if e or (ins.op == "call" and ins.callee in fatal):
                if e == "ok":
                    out.append(("exit0", ins, None))
                stop = True
                break
            if ins is start:
                if not tested:
                    out.append(("again", ins, None))
                stop = True
                break
            if ins.op == "call" and ins.callee == "ferror":
                out.append(("ferror", ins, None))
                stop = True
                break
            if ins.op == "call" and ins.callee in M.funcs and any(isinstance(a, str) and a in D for a in ins.args) \
               and any(E.checks_param(M, ins.callee, j, kind, fatal) for j, a in enumerate(ins.args) if isinstance(a, str) and a in D):
                stop = True
                break
            if ins.op == "ret":
                c = None
                if ins.args:
                    c = ins.args[0] if isinstance(ins.args[0], Const) else e_.get(ins.args[0])
                    if c is None:
                        q = _cval(fn, ins.args[0], e_)
                        if q is not None:
                            c = Const("null") if q == "null" else Const("int", q)
                if ins.args and isinstance(ins.args[0], str) and (ins.args[0] in D or _phi_in(fn, ins.args[0], D, prev)) and c is None:
                    out.append(("retval", ins, None))
                elif c is not None and ((tested and (c.kind == "null" or c.val != 0)) or (c.kind == "null" or (c.kind == "int" and c.val < 0))):
                    out.append(("retfail", ins, c))
                else:
                    out.append(("ret", ins, c))
                stop = True
                break
            if ins.op == "unreachable":
                stop = True
                break
        if stop:
            continue
        t = b.term
        good, bad, dead = set(), set(), set()
        if t.op == "br" and len(t.extra["succ"]) == 2:
            good = E.cond_edges(fn, t, D, ok)
            if good:
                bad = set(t.extra["succ"]) - good
            v = _eval(fn, t.args[0], e_)
            if v is not None:
                dead = {t.extra["succ"][1] if v else t.extra["succ"][0]}
        elif t.op == "switch":
            v = e_.get(t.args[0])
            if v is not None and v.kind == "int":
                tgt = [s for cv, s in t.extra["cases"] if cv == v.val] or [t.extra["default"]]
                dead = {s.name for s in b.succs} - set(tgt)
        ne = tuple(sorted(e_.items(), key=lambda q: q[0]))
        for s in b.succs:
            if s.name in good or s.name in dead:
                continue
            if errno_ok and t.op == "br" and _errno_test(fn, t):
                # "already exists" is not a failure
                if s.name == _eexist_edge(fn, t):
                    continue
            st.append((s, 0, b, tested or s.name in bad, ne))
    return out


def _phis_that_matter(fn):
    c = getattr(fn, "_phimatter", None)
    if c is not None:
        return c
    out = set()
    work = []
    for i in fn.instrs():
        if i.op in ("icmp", "switch", "ret", "br"):
            for a in i.args:
                if isinstance(a, str):
                    work.append(a)
    seen = set()
    while work:
        v = work.pop()
        if v in seen or v not in fn.defs:
            continue
        seen.add(v)
        d = fn.defs[v]
        if d.op == "phi":
            vals = [x for x, _ in d.extra["in"]]
            if d.ty in ("ptr",) or d.ty.startswith("i"):
                out.add(v)
                work.extend(x for x in vals if isinstance(x, str))
        elif d.op in ("zext", "sext", "trunc", "xor", "and", "or", "select", "icmp"):
            work.extend(a for a in d.args if isinstance(a, str))
    # keep only phis that can carry a constant
    carry = set()
    ch = True
    while ch:
        ch = False
        for v in out - carry:
            if any(isinstance(x, Const) and x.kind in ("int", "null") or x in carry for x, _ in fn.defs[v].extra["in"]):
                carry.add(v)
                ch = True
    # loop counters would make the state space unbounded: they are updated by arithmetic, so their constant is lost at the back edge
    fn._phimatter = carry
    return carry


def _eval(fn, v, env, depth=0):
    """truth value of an i1 under env, or None"""
    if isinstance(v, Const):
        return bool(v.val) if v.kind == "int" else None
    if v in env:
        c = env[v]
        return bool(c.val) if c.kind == "int" else None
    d = fn.defs.get(v)
    if d is None or depth > 6:
        return None
    if d.op == "icmp":
        a, b = (_cval(fn, x, env) for x in d.args)
        if a is None or b is None:
            return None
        p = d.extra["pred"]
        if "null" in (a, b):
            if a == b:
                return p == "eq"
            return None
        return {"eq": a == b, "ne": a != b, "slt": a < b, "sgt": a > b, "sle": a <= b, "sge": a >= b}.get(p, (
            {"ult": a < b, "ugt": a > b, "ule": a <= b, "uge": a >= b}.get(p) if a >= 0 and b >= 0 else None))
    if d.op in ("trunc", "zext", "freeze"):
        return _eval(fn, d.args[0], env, depth + 1)
    if d.op == "xor" and isinstance(d.args[1], Const):
        r = _eval(fn, d.args[0], env, depth + 1)
        return None if r is None else not r
    if d.op in ("and", "or"):
        x, y = (_eval(fn, a, env, depth + 1) for a in d.args)
        if d.op == "and":
            return False if x is False or y is False else (True if x and y else None)
        return True if x or y else (False if x is False and y is False else None)
    return None


def _cval(fn, v, env, depth=0):
    if isinstance(v, Const):
        return "null" if v.kind == "null" else v.val if v.kind == "int" else None
    if v in env:
        c = env[v]
        return "null" if c.kind == "null" else c.val
    d = fn.defs.get(v) if isinstance(v, str) else None
    if d is not None and depth < 5:
        if d.op in ("zext", "sext", "trunc", "freeze"):
            return _cval(fn, d.args[0], env, depth + 1)
        if d.op == "icmp":
            r = _eval(fn, v, env)
            return None if r is None else int(r)
        if d.op == "select":
            r = _eval(fn, d.args[0], env)
            if r is not None:
                return _cval(fn, d.args[1 if r else 2], env, depth + 1)
    return None


def _phi_in(fn, v, D, prev):
    d = fn.defs.get(v)
    if d is not None and d.op == "phi" and prev is not None:
        for x, p in d.extra["in"]:
            if p == prev.name:
                return isinstance(x, str) and x in D
    return False


def _errno_test(fn, br):
    d = fn.defs.get(br.args[0]) if br.args and isinstance(br.args[0], str) else None
    if d is None or d.op != "icmp":
        return False
    for a in d.args:
        x = fn.defs.get(a) if isinstance(a, str) else None
        if x is not None and x.op == "load":
            y = fn.defs.get(x.args[0]) if isinstance(x.args[0], str) else None
            if y is not None and y.op == "call" and y.callee == "__errno_location":
                return any(isinstance(q, Const) and q.val == 17 for q in d.args)
    return False


def _eexist_edge(fn, br):
    d = fn.defs[br.args[0]]
    t, f = br.extra["succ"]
    return t if d.extra["pred"] == "eq" else f


def write_streams(M, fn, v, seen=None):
    """modes with which the stream v may have been opened: set of mode strings,
    None inside when unknown"""
    seen = seen or set()
    if not isinstance(v, str) or (fn.name, v) in seen:
        return set()
    seen.add((fn.name, v))
    d = fn.defs.get(v)
    if d is None:
        # parameter: look at the callers
        for k, p in enumerate(fn.params):
            if p[1] == v:
                out = set()
                for g in M.funcs.values():
                    for i in g.instrs():
                        if i.op == "call" and i.callee == fn.name and k < len(i.args):
                            out |= write_streams(M, g, i.args[k], seen)
                return out
        return {None}
    if d.op == "call" and d.callee in ("fopen", "fdopen", "freopen"):
        return {M.cstring(d.args[1])}
    if d.op in ("phi",):
        out = set()
        for x, _ in d.extra["in"]:
            out |= write_streams(M, fn, x, seen)
        return out
    if d.op == "select":
        return write_streams(M, fn, d.args[1], seen) | write_streams(M, fn, d.args[2], seen)
    if d.op == "load":
        if d.args[0] in ("@stdout", "@stderr", "@stdin"):
            return {"std"}
        return {None}
    return {None}


def obligations(M, fatal):
    """yield (fn, ins, label, kind, errno_ok)"""
    for fn in M.funcs.values():
        for i in fn.instrs():
            if i.op != "call" or not i.callee:
                continue
            c = i.callee
            if c in PTR:
                yield fn, i, c, E.ptr_ok, False
            elif c in COUNT:
                yield fn, i, c, count_ok(i.args[2], c == "fread" and i.res is not None and amount_used(fn, i.res)), False
            elif c == "fclose":
                modes = write_streams(M, fn, i.args[0])
                if modes and all(m is not None and (m == "std" or (m[:1] == "r" and "+" not in m)) for m in modes):
                    continue
                yield fn, i, c, neg_ok, False
            elif c in NEG:
                yield fn, i, c, neg_ok, c == "mkdir"


def analyse(M):
    fatal = E.exit_summary(M)
    callers = {}
    live = reachable(M)
    for g in M.funcs.values():
        if g.name not in live:
            continue
        for i in g.instrs():
            if i.op == "call" and i.callee in M.funcs:
                callers.setdefault(i.callee, []).append((g, i))
    bad = []
    cnt = {}
    work = [o for o in obligations(M, fatal) if o[0].name in live]
    seen = set()
    while work:
        fn, ins, label, kind, eo = work.pop()
        if (id(ins), label) in seen:
            continue
        seen.add((id(ins), label))
        cnt[label.split(" ")[0]] = cnt.get(label.split(" ")[0], 0) + 1
        D = E.derived(fn, ins.res) if ins.res else set()
        # a second attempt to close after a failure has been noticed needs no check of its own
        for what, x, c in walk(M, fn, ins, D, kind, fatal, eo):
            if what == "ferror":
                work.append((fn, x, "ferror", E.status_zero_ok, False))
            elif what in ("retval", "retfail"):
                k2 = E.ptr_ok if fn.ret == "ptr" else neg_ok
                for g, i in callers.get(fn.name, ()):
                    work.append((g, i, label.split(" (")[0] + " (through %s)" % fn.name, k2, False))
            else:
                bad.append((fn, ins, label, what, x))
    return bad, cnt


PY_ENTRY = ("grt_free1d", "grt_get_", "grt_solve_lamb1", "grt_compute_travt1d")


def reachable(M):
    """functions reachable from the command line entry point or the Python API"""
    import omp
    roots = [n for n in M.funcs if n == "main" or n.startswith(PY_ENTRY)]
    seen = set(roots)
    st = list(roots)
    # module entry points are called through a table
    tab = set()
    for g in M.globals.values():
        x = [g["init"]]
        while x:
            y = x.pop()
            if isinstance(y, CE):
                x.extend(q[1] for q in y.args)
            elif isinstance(y, str) and y[1:] in M.funcs:
                tab.add(y[1:])
    for n in tab:
        if n not in seen:
            seen.add(n)
            st.append(n)
    from ir import operands
    while st:
        f = M.funcs[st.pop()]
        for i in f.instrs():
            for a in list(operands(i)) + ([("@" + i.callee)] if i.op == "call" and i.callee else []):
                if isinstance(a, str) and a.startswith("@") and a[1:] in M.funcs and a[1:] not in seen:
                    seen.add(a[1:])
                    st.append(a[1:])
    return seen
