"""How text becomes option values.  For every conversion of text to numbers
(sscanf, strtod, ...) the control-flow graph is followed under one hypothesis
about its outcome (number of converted fields; a field lying in an interval; an
order between two fields) and it is decided whether any path on which the
hypothesis is not refuted leads on to a successful end of the command."""
import re
from ir import Const, CE
import errflow as E
import iofail

INF = float("inf")
NEG = (-INF, 0.0, True, True)        # (lo, hi, lo open, hi open)
NONPOS = (-INF, 0.0, True, False)


def gt(x):
    return (x, INF, True, True)


def ge(x):
    return (x, INF, False, True)


def lt(x):
    return (-INF, x, True, True)


CONV = re.compile(r"%(\*?)(\d*)(hh|h|ll|l|z|j|t|L|q)?([diouxXeEfgGaAcspn%]|\[\^?\]?[^\]]*\])")


def conversions(fmt):
    out = []
    for m in CONV.finditer(fmt):
        if m.group(4) in ("%", "n") or m.group(1):
            continue
        out.append((m.group(3) or "") + m.group(4)[0])
    return out


class Budget(Exception):
    pass


def mkey(M, fn, p, depth=0):
    """canonical name of the memory cell p points at"""
    off = 0
    dyn = []
    for _ in range(40):
        if isinstance(p, CE) and p.op == "getelementptr":
            idx = [a[1] for a in p.args[1:]]
            o, d2, _t = M.layout.gep(p.ty, idx)
            off += o
            p = p.args[0][1]
            continue
        if not isinstance(p, str):
            return None
        if p.startswith("@"):
            return (p, off, tuple(dyn))
        d = fn.defs.get(p)
        if d is None:
            return (p, off, tuple(dyn))
        if d.op == "getelementptr":
            o, d2, _t = M.layout.gep(d.extra["sty"], d.args[1:])
            off += o
            dyn += [(canon(fn, v), s) for v, s in d2]
            p = d.args[0]
            continue
        if d.op in ("bitcast", "freeze"):
            p = d.args[0]
            continue
        if d.op == "load" and depth < 6:
            k = mkey(M, fn, d.args[0], depth + 1)
            if k is not None:
                return (("ld", k), off, tuple(dyn))
        return (p, off, tuple(dyn))
    return None


def canon(fn, v):
    while isinstance(v, str) and v in fn.defs and fn.defs[v].op in ("sext", "zext", "freeze"):
        v = fn.defs[v].args[0]
    return v if isinstance(v, str) else repr(v)


def deps(key):
    """SSA names a memory key depends on"""
    if key is None:
        return set()
    out = {v for v, _ in key[2]}
    b = key[0]
    if isinstance(b, tuple):
        out |= deps(b[1])
    elif not b.startswith("@"):
        out.add(b)
    return out


def cmp3(p, a, b):
    """three-valued comparison of intervals (lo, hi, lo_open, hi_open)"""
    al, ah, alo, aho = a
    bl, bh, blo, bho = b
    allLT = ah < bl or (ah == bl and (aho or blo))
    allLE = ah <= bl
    allGT = al > bh or (al == bh and (alo or bho))
    allGE = al >= bh
    point = al == ah == bl == bh and not (alo or aho or blo or bho)
    if p == "lt":
        return True if allLT else False if allGE else None
    if p == "le":
        return True if allLE else False if allGT else None
    if p == "gt":
        return True if allGT else False if allLE else None
    if p == "ge":
        return True if allGE else False if allLT else None
    if p == "eq":
        return False if allLT or allGT else True if point else None
    if p == "ne":
        return True if allLT or allGT else False if point else None
    return None


PRED = {"slt": "lt", "sle": "le", "sgt": "gt", "sge": "ge", "eq": "eq", "ne": "ne", "ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge",
        "olt": "lt", "ole": "le", "ogt": "gt", "oge": "ge", "oeq": "eq", "one": "ne", "ueq": "eq", "une": "ne"}
# unordered float predicates share the names ult, ule, ... with the unsigned integer ones: no NaN is assumed


class Walker:
    def __init__(self, M, fatal, limit=60000):
        self.M, self.fatal, self.limit = M, fatal, limit
        self.callers = {}
        for g in M.funcs.values():
            for i in g.instrs():
                if i.op == "call" and i.callee in M.funcs:
                    self.callers.setdefault(i.callee, []).append((g, i))
        self.keys = {}

    def key(self, fn, p):
        k = (fn.name, p if isinstance(p, str) else repr(p))
        if k not in self.keys:
            self.keys[k] = mkey(self.M, fn, p)
        return self.keys[k]

    # ---------------------------------------------------------- evaluation
    def val(self, fn, v, env, depth=0):
        """(root, interval) | None"""
        if isinstance(v, Const):
            if v.kind == "int" and v.val is not None:
                return (None, (v.val, v.val, False, False))
            if v.kind in ("fp", "float") and isinstance(v.val, (int, float)):
                return (None, (float(v.val), float(v.val), False, False))
            return None
        if not isinstance(v, str) or depth > 12:
            return None
        if v in env:
            return env[v]
        d = fn.defs.get(v)
        if d is None:
            return None
        if d.op == "zext" and self.is_bool(fn, d.args[0]) and self.val(fn, d.args[0], env, depth + 1) is None:
            return (None, (0, 1, False, False))
        if d.op in ("sext", "zext", "freeze", "fpext", "fptrunc", "sitofp", "uitofp", "trunc"):
            r = self.val(fn, d.args[0], env, depth + 1)
            if r is None or r[0] == "null":
                return None
            if d.op in ("zext", "trunc", "uitofp") and r[1][0] < 0:
                if d.op == "trunc" and d.ty != "i1" and abs(r[1][0]) < 2 ** 15 and abs(r[1][1]) < 2 ** 15:
                    return r
                return None
            return r
        if d.op in ("icmp", "fcmp", "and", "or", "xor") and d.ty == "i1" or d.op in ("icmp", "fcmp"):
            b = self.truth(fn, v, env, depth + 1)
            return None if b is None else (None, (int(b), int(b), False, False))
        if d.op == "select":
            b = self.truth(fn, d.args[0], env, depth + 1)
            if b is not None:
                return self.val(fn, d.args[1 if b else 2], env, depth + 1)
            c = fn.defs.get(d.args[0]) if isinstance(d.args[0], str) else None
            if c is not None and c.op in ("fcmp", "icmp") and self.same(fn, c.args) == self.same(fn, d.args[1:]):
                lt = c.extra["pred"].lstrip("ou")[-2:] in ("lt", "le") if c.op == "fcmp" else c.extra["pred"] in ("slt", "sle")
                gt = c.extra["pred"].lstrip("ou")[-2:] in ("gt", "ge") if c.op == "fcmp" else c.extra["pred"] in ("sgt", "sge")
                if lt or gt:
                    return self.minmax(fn, d.args[1:], env, lt == (self.ident(fn, c.args[0]) == self.ident(fn, d.args[1])), depth)
        if d.op == "call" and (d.callee in ("fmin", "fmax", "fminf", "fmaxf") or (d.callee or "").startswith(("llvm.minnum", "llvm.maxnum", "llvm.smin", "llvm.smax"))):
            return self.minmax(fn, d.args[:2], env, "min" in d.callee, depth)
        if d.op == "fneg":
            r = self.val(fn, d.args[0], env, depth + 1)
            if r is not None and r[0] != "null":
                lo, hi, a, b = r[1]
                return (None, (-hi, -lo, b, a))
        if d.op in ("xor", "or", "and") and isinstance(d.args[0], str) and isinstance(d.args[1], str):
            x, y = (self.val(fn, a, env, depth + 1) for a in d.args)
            if x is not None and y is not None and "null" not in (x[0], y[0]) and x[1][0] == x[1][1] and y[1][0] == y[1][1] and x[1][0] >= 0 and y[1][0] >= 0:
                a, b = int(x[1][0]), int(y[1][0])
                c = a ^ b if d.op == "xor" else a | b if d.op == "or" else a & b
                return (None, (c, c, False, False))
        if d.op == "add" and isinstance(d.args[0], str) and isinstance(d.args[1], str):
            x, y = (self.val(fn, a, env, depth + 1) for a in d.args)
            if x is not None and y is not None and x[0] is None and y[0] is None:
                return (None, (x[1][0] + y[1][0], x[1][1] + y[1][1], x[1][2] or y[1][2], x[1][3] or y[1][3]))
        if d.op in ("add", "sub") and isinstance(d.args[1], Const) and d.args[1].kind == "int":
            r = self.val(fn, d.args[0], env, depth + 1)
            if r is not None and r[0] != "null":
                c = d.args[1].val * (1 if d.op == "add" else -1)
                lo, hi, a, b = r[1]
                return (None, (lo + c, hi + c, a, b))
        return None

    def ident(self, fn, v):
        d = fn.defs.get(v) if isinstance(v, str) else None
        if d is not None and d.op == "load":
            return repr((d.block.name, self.key(fn, d.args[0])))
        return repr(v)

    def same(self, fn, args):
        return {self.ident(fn, a) for a in args}

    def minmax(self, fn, args, env, low, depth):
        """bounds of min/max of two values, one of which may be unknown"""
        x, y = (self.val(fn, a, env, depth + 1) for a in args)
        x, y = (r[1] if r is not None and r[0] != "null" else ALL for r in (x, y))
        if low:
            lo = (x[0], x[2]) if (x[0], x[2]) < (y[0], y[2]) else (y[0], y[2])
            hi = (x[1], x[3]) if x[1] < y[1] or (x[1] == y[1] and x[3]) else (y[1], y[3])
        else:
            lo = (x[0], x[2]) if x[0] > y[0] or (x[0] == y[0] and x[2]) else (y[0], y[2])
            hi = (x[1], x[3]) if x[1] > y[1] or (x[1] == y[1] and not x[3]) else (y[1], y[3])
        if lo[0] == -INF and hi[0] == INF:
            return None
        return (None, (lo[0], hi[0], lo[1], hi[1]))

    def is_bool(self, fn, v):
        """an i1, or an i8 that is only ever the image of one"""
        d = fn.defs.get(v) if isinstance(v, str) else None
        return d is not None and (d.ty == "i1" or (d.op == "load" and d.ty == "i8" and "range" in (d.extra or {})))

    def truth(self, fn, v, env, depth=0):
        if isinstance(v, Const):
            return bool(v.val) if v.kind == "int" else None
        if not isinstance(v, str) or depth > 14:
            return None
        if v in env:
            r = env[v]
            if r[0] != "null" and r[1][0] == r[1][1]:
                return bool(r[1][0])
            return None
        d = fn.defs.get(v)
        if d is None:
            return None
        if d.op in ("icmp", "fcmp"):
            p = PRED.get(d.extra["pred"])
            a, b = d.args
            if isinstance(b, Const) and b.kind == "null" or isinstance(a, Const) and a.kind == "null":
                x = a if isinstance(b, Const) and b.kind == "null" else b
                r = env.get(x) if isinstance(x, str) else None
                if r is not None and r[0] == "null":
                    return (p == "eq") == r[1]
                return None
            if d.extra.get("opty") == "ptr" or (isinstance(a, str) and isinstance(b, str) and p in ("eq", "ne")):
                pe = env.get(("ptreq",))
                if pe is not None:
                    sa, sb = self.ptrname(fn, a, env), self.ptrname(fn, b, env)
                    if sa is not None and sb is not None and {sa, sb} == set(pe):
                        return p == "eq"
            x, y = self.val(fn, a, env, depth + 1), self.val(fn, b, env, depth + 1)
            if x is None or y is None or p is None or "null" in (x[0], y[0]):
                return None
            if x[0] is not None and y[0] is not None and x[0] != y[0]:
                rel = env.get(("rel",))
                if rel and rel[:2] == (x[0], y[0]):
                    return {"gt": True, "ge": True, "ne": True, "lt": False, "le": False, "eq": False}[p]
                if rel and rel[:2] == (y[0], x[0]):
                    return {"lt": True, "le": True, "ne": True, "gt": False, "ge": False, "eq": False}[p]
            if d.extra["pred"] in ("ult", "ule", "ugt", "uge") and d.op == "icmp":
                # unsigned view of negative values
                if x[1][1] < 0 or y[1][1] < 0:
                    if x[1][1] < 0 and y[1][0] >= 0 and y[1][1] < 2 ** 31:
                        return p in ("gt", "ge")
                    return None
                if x[1][0] < 0 or y[1][0] < 0:
                    return None
            return cmp3(p, x[1], y[1])
        if d.op in ("zext", "sext", "trunc", "freeze"):
            return self.truth(fn, d.args[0], env, depth + 1)
        if d.op == "xor" and isinstance(d.args[1], Const):
            r = self.truth(fn, d.args[0], env, depth + 1)
            return None if r is None else not r
        if d.op == "xor":
            x, y = (self.truth(fn, a, env, depth + 1) for a in d.args)
            return None if x is None or y is None else x != y
        if d.op in ("and", "or"):
            x, y = (self.truth(fn, a, env, depth + 1) for a in d.args)
            if d.op == "and":
                return False if x is False or y is False else (True if x and y else None)
            return True if x or y else (False if x is False and y is False else None)
        if d.op == "select":
            c = self.truth(fn, d.args[0], env, depth + 1)
            if c is not None:
                return self.truth(fn, d.args[1 if c else 2], env, depth + 1)
            x, y = (self.truth(fn, a, env, depth + 1) for a in d.args[1:])
            # c unknown: both alternatives
            if x is not None and x == y:
                return x
            # short-circuit forms with an undecided side
            return None
        return None

    def ptrname(self, fn, v, env):
        if not isinstance(v, str):
            return None
        d = fn.defs.get(v)
        if d is not None and d.op == "load":
            return ("cell", self.key(fn, d.args[0]))
        return ("val", v)

    # --------------------------------------------------------------- walk
    def walk(self, fn, start, env, stop=None, idx=None, observe=None, first=False):
        """outcomes of all paths from just after `start`: set of
        ('ret', const or None) / ('exit0', None).  stop(ins, env) -> True ends a
        path without outcome."""
        out = set()
        seen = set()
        inter = iofail._phis_that_matter(fn)
        st = [(start.block, (start.idx + 1) if idx is None else idx, None, tuple(sorted(env.items(), key=repr)))]
        steps = 0
        while st and not (first and out):
            b, k, prev, fe = st.pop()
            sk = (b.name, k, prev.name if prev is not None else None, fe)
            if sk in seen:
                continue
            seen.add(sk)
            steps += 1
            if steps > self.limit:
                raise Budget("%s: %d steps" % (fn.name, steps))
            env = dict(fe)
            if prev is not None and k == 0:
                new = {}
                kill = set()
                for ins in b.instrs:
                    if ins.op != "phi":
                        break
                    for x, p in ins.extra["in"]:
                        if p == prev.name:
                            if isinstance(x, Const) and x.kind == "null":
                                r = ("null", True)
                            else:
                                r = self.val(fn, x, env) if ins.res in inter or ins.ty == "i1" or (isinstance(x, str) and x in env) else None
                                # counters are not followed
                                if r is not None and r[0] is None and isinstance(x, str) and x in fn.defs and fn.defs[x].op in ("add", "sub"):
                                    r = None
                            if r is not None:
                                new[ins.res] = r
                            else:
                                kill.add(ins.res)
                            kill.add(("dyn", ins.res))
                for q in kill:
                    if isinstance(q, tuple):
                        for mk in [m for m in env if isinstance(m, tuple) and m[0] == "m" and q[1] in deps(m[1])]:
                            env.pop(mk)
                    else:
                        env.pop(q, None)
                env.update(new)
            ended = False
            forks = None
            for n, ins in enumerate(b.instrs[k:]):
                if ins.op == "phi":
                    continue
                e = E.noreturn_exit(ins)
                if e or (ins.op == "call" and ins.callee in self.fatal):
                    if e == "ok" and ("late",) not in env:
                        out.add(("exit0", None))
                    ended = True
                    break
                if stop is not None and stop(ins, env, fn):
                    ended = True
                    break
                if ins.op == "load":
                    mk = ("m", self.key(fn, ins.args[0]))
                    if mk in env:
                        env[ins.res] = env[mk]
                    else:
                        env.pop(ins.res, None)
                elif ins.op == "store":
                    mk = ("m", self.key(fn, ins.args[1]))
                    r = self.val(fn, ins.args[0], env)
                    if r is not None and r[0] is not None and r[0] != "null":
                        env[mk] = r
                    elif r is not None and r[0] is None and r[1][0] == r[1][1] and ins.extra["valty"] in ("i1", "i8", "i32", "i64") and (not isinstance(ins.args[0], Const) or ins.extra["valty"] in ("i1", "i8")):
                        env[mk] = r
                    else:
                        env.pop(mk, None)
                elif ins.op == "call":
                    if ins.callee in ("sscanf", "__isoc99_sscanf", "__isoc23_sscanf", "fscanf", "__isoc99_fscanf"):
                        for a in ins.args[2:]:
                            env.pop(("m", self.key(fn, a)), None)
                    if ins.res:
                        env.pop(ins.res, None)
                    if ins is start:
                        env.pop(("ptreq",), None)
                        env.pop(("rel",), None)
                    if ins.callee in self.M.funcs and ins is not start:
                        r = self.into(fn, ins, env)
                        if r is not None:
                            if not r:
                                ended = True
                                break
                            if ins.res and len(r) == 1:
                                c = next(iter(r))
                                if c is not None:
                                    env[ins.res] = c
                            elif ins.res and None not in r and len(r) <= 4:
                                forks = (n, [dict(env, **{ins.res: c}) for c in r])
                                break
                elif ins.op == "ret":
                    c = None
                    if ins.args:
                        if isinstance(ins.args[0], Const) and ins.args[0].kind == "null":
                            c = ("null", True)
                        else:
                            c = self.val(fn, ins.args[0], env)
                    out.add(("ret", c))
                    ended = True
                    break
                elif ins.op == "unreachable":
                    ended = True
                    break
                if observe is not None:
                    observe(ins, env)
            if forks:
                for e2 in forks[1]:
                    st.append((b, k + forks[0] + 1, prev if False else None, tuple(sorted(e2.items(), key=repr))))
                continue
            if ended:
                continue
            t = b.term
            succs = list(b.succs)
            if t.op == "br" and len(t.extra["succ"]) == 2:
                c = self.truth(fn, t.args[0], env)
                if c is not None:
                    succs = [s for s in succs if s.name == t.extra["succ"][0 if c else 1]]
                else:
                    d = fn.defs.get(t.args[0]) if isinstance(t.args[0], str) else None
                    if d is not None and d.op == "select":
                        c = self.select_known(fn, d, env)
                        if c is not None:
                            succs = [s for s in succs if s.name == t.extra["succ"][0 if c else 1]]
            elif t.op == "switch":
                r = self.val(fn, t.args[0], env)
                if r is not None and r[0] != "null":
                    if r[1][0] == r[1][1]:
                        tgt = [s for cv, s in t.extra["cases"] if cv == r[1][0]] or [t.extra["default"]]
                    else:
                        tgt = [s for cv, s in t.extra["cases"] if cmp3("eq", r[1], (cv, cv, False, False)) is not False] + [t.extra["default"]]
                    succs = [s for s in succs if s.name in tgt]
            # values of this block that later blocks cannot see again are dropped
            env = {q: r for q, r in env.items() if isinstance(q, tuple) or self.live_out(fn, q, b)}
            f2 = tuple(sorted(env.items(), key=repr))
            for s in succs:
                st.append((s, 0, b, f2))
        return out

    def select_known(self, fn, d, env):
        """c && x / c || x written as a select"""
        c, a, b = d.args
        ta = self.truth(fn, a, env)
        tb = self.truth(fn, b, env)
        if isinstance(a, Const) and a.kind == "int" and a.val in (1, -1) and tb is True:
            return True
        if isinstance(b, Const) and b.kind == "int" and b.val == 0 and ta is False:
            return False
        return None

    def flaglike(self, fn, key):
        return False

    def live_out(self, fn, v, b):
        """is the SSA value v live at the end of block b?"""
        c = fn.__dict__.setdefault("_liveout", {})
        if v not in c:
            out = set()
            d = fn.defs.get(v)
            st = []
            for u in fn.uses.get(v, ()):
                if u.op == "phi":
                    for x, p in u.extra["in"]:
                        if x == v and p in fn.blocks:
                            if p not in out:
                                out.add(p)
                                st.append(fn.blocks[p])
                elif d is None or u.block is not d.block or u.idx <= d.idx:
                    for p in u.block.preds:
                        if p.name not in out:
                            out.add(p.name)
                            st.append(p)
            while st:
                x = st.pop()
                if d is not None and x is d.block:
                    continue
                for p in x.preds:
                    if p.name not in out:
                        out.add(p.name)
                        st.append(p)
            # a value also matters while one computed from it in the same block chain is evaluated lazily
            c[v] = out
        return b.name in c[v] or self.lazy(fn, v, b)

    def lazy(self, fn, v, b, depth=0):
        """values are evaluated on demand: an operand stays relevant while an
        expression over it is live"""
        if depth > 5:
            return True
        for u in fn.uses.get(v, ()):
            if u.res and u.op in ("icmp", "fcmp", "zext", "sext", "trunc", "and", "or", "xor", "select", "fneg", "add", "sub", "fpext", "fptrunc", "sitofp", "uitofp", "freeze"):
                if self.live_out(fn, u.res, b):
                    return True
        return False

    def into(self, fn, call, env):
        """effect of a call on the hypothesis: None (nothing to say), or the set of
        possible return values; empty: the callee never returns"""
        g = self.M.funcs[call.callee]
        sub = {}
        for (ty, p), a in zip([q[:2] for q in g.params], call.args):
            r = self.val(fn, a, env) if not isinstance(a, CE) else None
            if r is not None and r[0] is not None and r[0] != "null":
                sub[p] = r
            if ty == "ptr" and isinstance(a, str):
                ka = self.key(fn, a)
                if ka is None:
                    continue
                for m, r in env.items():
                    if isinstance(m, tuple) and m[0] == "m" and m[1] is not None and m[1][0] == ka[0] and m[1][2] == ka[2]:
                        sub[("m", (p, m[1][1] - ka[1], ()))] = r
        if not sub:
            return None
        if ("rel",) in env:
            sub[("rel",)] = env[("rel",)]
        ck = (g.name, tuple(sorted(sub.items(), key=repr)))
        c = self.__dict__.setdefault("_into", {})
        if ck in c:
            return c[ck]
        c[ck] = None

        class S:
            block, idx = g.entry, -1
        try:
            o = self.walk(g, S, sub)
        except Budget:
            return None
        c[ck] = {x[1] for x in o}
        return c[ck]

    def accepted(self, fn, call, env, is_root, stop=None, depth=0, seen=None):
        """does some path from call lead to a successful end?  Follows returns
        into callers until a root function returns."""
        seen = set() if seen is None else seen
        o = self.walk(fn, call, env, stop, first=is_root(fn))
        if ("exit0", None) in o:
            return True
        rets = {c for w, c in o if w == "ret"}
        if not rets:
            return False
        if is_root(fn) or depth > 5:
            return True
        cs = self.callers.get(fn.name, ())
        if not cs:
            return True
        for c in rets:
            for g, i in cs:
                kk = (g.name, id(i), repr(c))
                if kk in seen:
                    continue
                seen.add(kk)
                e2 = {}
                if i.res and c is not None and (c[0] == "null" or c[1][0] == c[1][1]):
                    e2[i.res] = c
                if not i.res or i.res not in e2:
                    # nothing the caller could test
                    if is_root(g) or True:
                        if self.accepted(g, i, e2, is_root, None, depth + 1, seen):
                            return True
                    continue
                if self.accepted(g, i, e2, is_root, None, depth + 1, seen):
                    return True
        return False


SCANS = {"sscanf": 0, "__isoc99_sscanf": 0, "__isoc23_sscanf": 0}
ENDCONV = {"strtod": 1, "strtof": 1, "strtold": 1, "strtol": 1, "strtoul": 1, "strtoll": 1, "strtoull": 1, "__isoc23_strtol": 1, "__isoc23_strtoul": 1, "__isoc23_strtoll": 1, "__isoc23_strtoull": 1}
BLIND = {"atof", "atoi", "atol", "atoll"}


class Site:
    def __init__(self, fn, ins, fmt):
        self.fn, self.ins, self.fmt = fn, ins, fmt
        self.conv = conversions(fmt) if fmt is not None else []
        self.opts = set()        # option letters under which it is reached
        self.sub = ""            # leading character of the text that selects it
        self.ctx = None          # flag cells known to be set when it is reached


def eq_chars(M, W, fn, ins, text_key=None):
    """characters c such that "first character of the text == c" holds at ins"""
    k = text_key if text_key is not None else W.key(fn, ins.args[0])
    if k is None:
        return ""
    base = (k[0], 0, k[2])
    out = set()
    for i in fn.instrs():
        if i.op != "load" or i.ty != "i8":
            continue
        lk = W.key(fn, i.args[0])
        if lk != base:
            continue
        vals = E.derived(fn, i.res)
        for v in vals:
            for u in fn.uses.get(v, ()):
                if u.op == "switch":
                    byt = {}
                    for cv, s in u.extra["cases"]:
                        byt.setdefault(s, set()).add(cv)
                    for s, cs in byt.items():
                        if s != u.extra["default"] and edge_dom(fn, u.block, fn.blocks[s], ins.block):
                            out |= {chr(c & 255) for c in cs}
                elif u.op == "icmp" and isinstance(u.args[1], Const) and u.args[1].kind == "int" and u.extra["pred"] in ("eq", "ne") and u.args[1].val:
                    for br in fn.uses.get(u.res, ()):
                        for br, pol in forced(fn, u.res, u.extra["pred"] == "eq"):
                            s = br.extra["succ"][0 if pol else 1]
                            if edge_dom(fn, br.block, fn.blocks[s], ins.block):
                                out.add(chr(u.args[1].val & 255))
    return "".join(sorted(out))


def forced(fn, v, pol):
    """(branch, polarity) pairs: taking that side implies v == pol"""
    out = []
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for u in fn.uses.get(x, ()):
            if u.op == "br" and len(u.extra["succ"]) == 2:
                for q in (True, False):
                    if implies(fn, u.args[0], q, v, pol):
                        out.append((u, q))
            elif u.op in ("and", "or", "select", "xor", "zext", "trunc", "freeze", "phi"):
                st.append(u.res)
    return out


def implies(fn, x, q, v, pol, depth=0):
    """x == q implies v == pol"""
    if x == v:
        return q == pol
    d = fn.defs.get(x) if isinstance(x, str) else None
    if d is None or depth > 6:
        return False
    if d.op == "and":
        return q and any(implies(fn, a, True, v, pol, depth + 1) for a in d.args)
    if d.op == "or":
        return not q and any(implies(fn, a, False, v, pol, depth + 1) for a in d.args)
    if d.op == "select":
        c, a, b = d.args
        if isinstance(b, Const) and b.val == 0 and q:
            return implies(fn, c, True, v, pol, depth + 1) or implies(fn, a, True, v, pol, depth + 1)
        if isinstance(a, Const) and a.val in (1, -1) and not q:
            return implies(fn, c, False, v, pol, depth + 1) or implies(fn, b, False, v, pol, depth + 1)
    if d.op == "xor" and isinstance(d.args[1], Const):
        return implies(fn, d.args[0], not q, v, pol, depth + 1)
    return False


def edge_dom(fn, a, b, t):
    """does every path from the entry to t use the edge a -> b?"""
    seen = set()
    st = [fn.entry]
    while st:
        x = st.pop()
        if x.name in seen:
            continue
        seen.add(x.name)
        if x is t:
            return False
        for s in x.succs:
            if x is a and s is b:
                continue
            st.append(s)
    return True


def roots(M):
    """functions that parse a command line: name -> (getopt call, option string)"""
    out = {}
    for f in M.funcs.values():
        for i in f.instrs():
            if i.op == "call" and i.callee in ("getopt", "getopt_long", "getopt_long_only"):
                s = M.cstring(i.args[2])
                out.setdefault(f.name, []).append((i, s))
    return out


CARRIERS = None


def module(fe):
    """the program with every function that converts text to numbers inlined
    into its callers, so that a conversion is seen in the context of its option"""
    M0 = fe.module(inline=False)
    R = set(roots(M0))
    has = {f.name for f in M0.funcs.values() if any(i.op == "call" and (i.callee in SCANS or i.callee in ENDCONV or i.callee in BLIND) for i in f.instrs())}
    call = {}
    for f in M0.funcs.values():
        for i in f.instrs():
            if i.op == "call" and i.callee in M0.funcs:
                call.setdefault(i.callee, set()).add(f.name)
    st = list(has)
    while st:
        x = st.pop()
        for c in call.get(x, ()):
            if c not in has:
                has.add(c)
                st.append(c)
    mains = {n for n in has if not call.get(n)}
    return fe.module(inline=True, inline_also=tuple(sorted(has - R - mains)))


def letters(s):
    return [c for c in s if c.isalnum()]


def sites(M, W, live):
    """every text-to-number conversion reachable from the commands"""
    out = []
    by = {}
    for f in M.funcs.values():
        if f.name not in live:
            continue
        for i in f.instrs():
            if i.op == "call" and i.callee in SCANS:
                s = Site(f, i, M.cstring(i.args[1]))
            elif i.op == "call" and (i.callee in ENDCONV or i.callee in BLIND):
                s = Site(f, i, None)
            else:
                continue
            s.sub = eq_chars(M, W, f, i)
            out.append(s)
            by[id(i)] = s
    for fname, gs in roots(M).items():
        f = M.funcs[fname]
        for g, ostr in gs:
            if ostr is None:
                continue
            for c in letters(ostr):
                def stop(ins, env, fn, g=g):
                    return ins is g
                hits = set()

                def obs(ins, env):
                    if ins.op == "call" and id(ins) in by:
                        hits.add(id(ins))
                        cx = {k for k, r in env.items() if isinstance(k, tuple) and k[0] == "m" and r[0] is None and r[1][:2] == (1, 1)}
                        q = by[id(ins)]
                        q.ctx = cx if q.ctx is None else q.ctx & cx
                W.walk(f, g, {g.res: (None, (ord(c), ord(c), False, False))}, stop=stop, observe=obs)
                for h in hits:
                    by[h].opts.add(c)
    return out


def textkey(W, fn, v, depth=0):
    """where a text comes from: the memory cell its pointer was loaded from"""
    return W.key(fn, v)


def revalidated(M, W, s, S):
    """a conversion whose text was already converted with the same format by a
    checked conversion of the command line (the field it is kept in is written
    only there)"""
    if s.ins.res and s.fn.uses.get(s.ins.res):
        return False
    k = W.key(s.fn, s.ins.args[0])
    if k is None:
        return False
    for t in S:
        if t is s or t.fn is not s.fn or t.fmt != s.fmt or not t.opts:
            continue
        if W.key(t.fn, t.ins.args[0]) == k:
            return True
    return False

ALL = (-INF, INF, True, True)


def integer(iv):
    """the integers of an interval"""
    import math
    lo, hi, a, b = iv
    if lo != -INF:
        lo = math.floor(lo) + 1 if a else math.ceil(lo)
    if hi != INF:
        hi = math.ceil(hi) - 1 if b else math.floor(hi)
    return (lo, hi, lo == -INF, hi == INF)


OPTARG = (("ld", ("@optarg", 0, ())), 0, ())


def flags(M, W, fn, g, ostr):
    """(option letter, sub letter) -> memory cells that record that it was given"""
    by = {}
    for c in letters(ostr):
        def stop(ins, env, f, g=g):
            return ins is g
        hits = []

        def obs(ins, env):
            if ins.op == "store" and ins.extra["valty"] in ("i8", "i1") and isinstance(ins.args[0], Const) and ins.args[0].kind == "int" and ins.args[0].val == 1:
                hits.append(ins)
        W.walk(fn, g, {g.res: (None, (ord(c), ord(c), False, False))}, stop=stop, observe=obs)
        for i in hits:
            k = W.key(fn, i.args[1])
            if k is not None and not k[2]:
                by.setdefault((c, eq_chars(M, W, fn, i, OPTARG)), set()).add(k)
    return by


def reset_between(fn, g, ins):
    return False
