"""Schedule dependence beyond races: thread-private state that survives from
one worksharing iteration to the next, and order-dependent updates inside
critical sections."""
from ir import Const, CE, operands
import omp as O


def natural_loops(fn):
    """header block -> set of block names (merged per header)"""
    out = {}
    for b in fn.rpo():
        for s in b.succs:
            if fn.dominates(s.name, b.name):
                body = out.setdefault(s.name, {s.name})
                st = [b]
                while st:
                    x = st.pop()
                    if x.name in body:
                        continue
                    body.add(x.name)
                    st.extend(x.preds)
    return out


def _bn(fn, n):
    return fn.blocks[n]


WSINIT = ("__kmpc_for_static_init", "__kmpc_dispatch_init", "__kmpc_distribute_static_init")


def ws_loops(fn):
    """[(header, blocks)] outermost loops of the worksharing constructs of fn"""
    loops = natural_loops(fn)
    out = []
    inits = [i for i in fn.instrs() if i.op == "call" and i.callee and i.callee.startswith(WSINIT)]
    for ini in inits:
        dyn = ini.callee.startswith("__kmpc_dispatch_init")
        cand = []
        for h, body in loops.items():
            hb = _bn(fn, h)
            if not fn.dominates(ini.block.name, hb.name) and hb is not ini.block:
                continue
            if ini.block.name in body and hb is not ini.block:
                continue
            if dyn:
                if any(i.op == "call" and i.callee and i.callee.startswith("__kmpc_dispatch_next") for n in body for i in _bn(fn, n).instrs):
                    cand.append((h, body))
            else:
                fini = any(i.op == "call" and i.callee and i.callee.startswith("__kmpc_for_static_fini") and fn.dominates(i.block.name, hb.name) and i.block is not hb for i in fn.instrs())
                if not fini:
                    cand.append((h, body))
        if cand:
            h, body = max(cand, key=lambda c: len(c[1]))
            out.append((h, body))
    return out


ACC = {"add", "fadd", "fsub", "sub", "or", "and", "xor", "mul", "fmul"}
ACC_CALL = ("llvm.fmuladd", "llvm.fma.", "llvm.maxnum", "llvm.minnum", "llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin", "fmax", "fmin")


def accumulates(fn, v, is_self, depth=0):
    """is v = self (op) x1 (op) x2 ... with a commutative, associative op?"""
    if is_self(v):
        return True
    if depth > 12 or not isinstance(v, str):
        return False
    d = fn.defs.get(v)
    if d is None:
        return False
    if d.op in ACC:
        if accumulates(fn, d.args[0], is_self, depth + 1):
            return True
        return d.op not in ("fsub", "sub") and accumulates(fn, d.args[1], is_self, depth + 1)
    if d.op == "call" and d.callee and d.callee.startswith(("llvm.fmuladd", "llvm.fma.")):
        return accumulates(fn, d.args[2], is_self, depth + 1)
    if d.op == "call" and d.callee and d.callee.startswith(ACC_CALL):
        return any(accumulates(fn, a, is_self, depth + 1) for a in d.args)
    if d.op in ("sext", "zext", "trunc", "fpext", "fptrunc", "freeze", "sitofp", "uitofp", "fptosi", "fptoui"):
        return accumulates(fn, d.args[0], is_self, depth + 1)
    if d.op == "select":          # max / min / conditional accumulation
        return all(accumulates(fn, a, is_self, depth + 1) for a in d.args[1:]) or \
            (any(is_self(a) for a in d.args[1:]) and isinstance(d.args[0], str) and d.args[0] in fn.defs and fn.defs[d.args[0]].op in ("fcmp", "icmp") and any(is_self(a) for a in fn.defs[d.args[0]].args))
    if d.op == "phi":
        return all(accumulates(fn, a, is_self, depth + 1) for a, _ in d.extra["in"])
    return False


def addr(M, fn, p):
    """(base instr, const offset) or (base, None)"""
    off = 0
    for _ in range(30):
        if not isinstance(p, str) or p not in fn.defs:
            return None, None
        d = fn.defs[p]
        if d.op == "getelementptr":
            o, dyn, _x = M.layout.gep(d.extra["sty"], d.args[1:])
            if dyn or off is None:
                off = None
            else:
                off += o
            p = d.args[0]
            continue
        if d.op in ("bitcast", "freeze"):
            p = d.args[0]
            continue
        if d.op == "alloca" or (d.op == "call" and d.callee in O.ALLOC):
            return d, off
        return None, None
    return None, None


def carried(M, fn):
    """[(ins, msg)] private values that flow from one iteration to the next"""
    out = []
    n = 0
    for h, body in ws_loops(fn):
        n += 1
        blocks = [b for b in fn.rpo() if b.name in body]
        loops = natural_loops(fn)
        # the loops that step the worksharing index: the ws loop and nested loops whose bound/phi comes from the runtime
        heads = [h]
        for h2, b2 in loops.items():
            if h2 in body and h2 != h:
                hb = _bn(fn, h2)
                for i in hb.instrs:
                    if i.op == "phi" and any(_from_runtime(M, fn, v) for v, p in i.extra["in"]):
                        heads.append(h2)
                        break
        heads = set(heads)
        # a nested ordinary loop inside the iteration has its own header: not considered
        for hn in heads:
            hb = _bn(fn, hn)
            for i in hb.instrs:
                if i.op != "phi":
                    break
                back = [v for v, p in i.extra["in"] if p in body and (hn == h or p in loops.get(hn, ()))]
                if not back:
                    continue
                if all(v == i.res for v in back):
                    continue
                if any(_from_runtime(M, fn, v) for v, p in i.extra["in"]):
                    continue          # the index itself
                alive = lambda v: v == i.res
                if all(accumulates(fn, v, alive) for v in back):
                    continue
                # phi chain from inner header
                if all(_passes(fn, v, i.res) for v in back):
                    continue
                if not _used(fn, i.res, body):
                    continue
                out.append((i if i.dbg else _anyuse(fn, i.res) or i, "keeps a private value from one iteration to the next (depends on which iterations the thread ran before)"))
        # memory
        inner = heads - {h} or {h}
        start = _bn(fn, sorted(inner)[0])
        out += carried_mem(M, fn, start, body, blocks)
    return out, n


def _anyuse(fn, v):
    for u in fn.uses.get(v, ()):
        if u.dbg:
            return u


def _used(fn, v, body):
    return any(True for u in fn.uses.get(v, ()))


def _passes(fn, v, self, depth=0):
    if v == self:
        return True
    if depth > 8 or not isinstance(v, str) or v not in fn.defs:
        return False
    d = fn.defs[v]
    if d.op == "phi":
        return all(x == v or _passes(fn, x, self, depth + 1) for x, _ in d.extra["in"])
    return False


def _from_runtime(M, fn, v, depth=0):
    """loaded from a bound variable filled in by the OpenMP runtime"""
    if depth > 10 or not isinstance(v, str) or v not in fn.defs:
        return False
    d = fn.defs[v]
    if d.op == "load":
        p = d.args[0]
        return any(u.op == "call" and u.callee and u.callee.startswith(("__kmpc_for_static_init", "__kmpc_dispatch_next")) for u in fn.uses.get(p, ()))
    if d.op in ("add", "sub", "mul", "sext", "zext", "trunc"):
        return any(_from_runtime(M, fn, a, depth + 1) for a in d.args)
    return False


def carried_mem(M, fn, start, body, blocks):
    out = []
    cells = {}         # (base res, off) -> [stores], [loads]
    inloop = set(b.name for b in blocks)
    ALL = "all"

    def eff(ins):
        """list of (kind, base, off, size)"""
        r = []
        if ins.op == "load":
            b, o = addr(M, fn, ins.args[0])
            if b is not None and o is not None:
                r.append(("R", b.res, o))
        elif ins.op == "store":
            b, o = addr(M, fn, ins.args[1])
            if b is not None and o is not None:
                r.append(("W", b.res, o))
        elif ins.op == "call" and ins.callee:
            if ins.callee.startswith("llvm.lifetime"):
                b, o = addr(M, fn, ins.args[1])
                if b is not None:
                    r.append(("KILL", b.res, None))
            elif ins.callee.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                b, o = addr(M, fn, ins.args[0])
                if b is not None:
                    r.append(("KILL", b.res, None))
        if ins.res and ins.op in ("alloca", "call"):
            r.append(("KILL", ins.res, None))
        return r
    stores, loads = {}, {}
    for b in blocks:
        for i in b.instrs:
            for e in eff(i):
                if e[0] == "W":
                    stores.setdefault(e[1:3], []).append(i)
                elif e[0] == "R":
                    loads.setdefault(e[1:3], []).append(i)
    inter = set(stores) & set(loads)
    # runtime bound variables are not program state
    inter = {c for c in inter if not any(u.op == "call" and u.callee and u.callee.startswith("__kmpc") for u in fn.uses.get(c[0], ()))}
    if not inter:
        return out
    # definitely-written cells since the start of the iteration
    inn = {start.name: frozenset()}
    work = [start]
    exposed = {}
    while work:
        b = work.pop()
        cur = set(inn[b.name])
        for i in b.instrs:
            for e in eff(i):
                if e[0] == "W":
                    cur.add((e[1], e[2]))
                elif e[0] == "KILL":
                    cur.add((e[1], "*"))
        cur = frozenset(cur)
        for s in b.succs:
            if s.name not in inloop or s is start:
                continue
            n = cur if s.name not in inn else inn[s.name] & cur
            if s.name not in inn or n != inn[s.name]:
                inn[s.name] = n
                work.append(s)
    for b in blocks:
        if b.name not in inn:
            continue
        cur = set(inn[b.name])
        for i in b.instrs:
            for e in eff(i):
                if e[0] == "R" and (e[1], e[2]) in inter and (e[1], e[2]) not in cur and (e[1], "*") not in cur:
                    exposed.setdefault((e[1], e[2]), i)
                elif e[0] == "W":
                    cur.add((e[1], e[2]))
                elif e[0] == "KILL":
                    cur.add((e[1], "*"))
    for c, ld in exposed.items():
        def is_self(v):
            d = fn.defs.get(v) if isinstance(v, str) else None
            if d is None or d.op != "load":
                return False
            b, o = addr(M, fn, d.args[0])
            return b is not None and (b.res, o) == c
        if all(accumulates(fn, s.args[0], is_self) for s in stores[c]):
            continue
        out.append((ld, "reads thread-private state left over from an earlier iteration of the same thread (written at %s)" % M.where(stores[c][0])))
    return out


def order_dependent(M, reg):
    """updates of shared memory inside critical sections that do not commute"""
    out = []
    n = 0
    for a in reg.accesses.values():
        if not (a.write and a.lock) or a.part is not None:
            continue
        n += 1
        fn, ins = a.fn, a.ins
        if ins.op == "atomicrmw":
            if ins.extra.get("rmw") == "xchg":
                out.append((ins, fn, "atomic exchange of a shared variable: result depends on thread order"))
            continue
        if ins.op == "cmpxchg":
            continue
        if ins.op != "store":
            if ins.op == "call" and ins.callee and ins.callee.startswith(("llvm.mem", "mem")):
                out.append((ins, fn, "overwrites %s inside a critical section: the last thread to arrive wins" % reg.describe(a.path)))
            continue
        p = ins.args[1]

        def is_self(v):
            d = fn.defs.get(v) if isinstance(v, str) else None
            return d is not None and d.op == "load" and same_addr(M, fn, d.args[0], p)
        if not accumulates(fn, ins.args[0], is_self):
            # every iteration storing the same constant commutes too
            if isinstance(ins.args[0], Const) and all(isinstance(b.ins.args[0], Const) and b.ins.args[0] == ins.args[0] for b in reg.accesses.values()
                                                      if b.write and b.path == a.path and b.ins.op == "store"):
                continue
            out.append((ins, fn, "overwrites %s inside a critical section: the result depends on the order in which threads arrive" % reg.describe(a.path)))
    # values read from such memory must stay inside the critical section
    guarded = {a.path for a in reg.accesses.values() if a.write and a.lock and a.part is None}
    for a in reg.accesses.values():
        if a.write or a.path not in guarded or a.ins.op != "load":
            continue
        fn = a.fn
        lk = reg.locks_of(fn, frozenset())
        seen = {a.ins.res}
        st = [a.ins.res]
        while st:
            v = st.pop()
            for u in fn.uses.get(v, ()):
                if u.op in ("store",) and u.args[0] == v:
                    held = _held(fn, lk, u)
                    if not held:
                        out.append((u, fn, "lets %s, whose value depends on how many other iterations have finished, flow into results" % reg.describe(a.path)))
                elif u.op in ("br", "switch") or (u.op == "call" and not _printing(M, u)):
                    if not _held(fn, lk, u):
                        out.append((u, fn, "lets %s, whose value depends on how many other iterations have finished, steer the computation" % reg.describe(a.path)))
                if u.res and u.op not in ("call", "load") and u.res not in seen:
                    seen.add(u.res)
                    st.append(u.res)
    return out, n


def _printing(M, u):
    return (u.callee or "").startswith(("printf", "fprintf", "puts", "grt_print", "llvm."))


def _held(fn, lk, ins):
    h = lk.get(ins.block.name, frozenset())
    for i in ins.block.instrs:
        if i is ins:
            break
        if i.op == "call" and i.callee:
            h = O.lock_step(i, h)
    return h


def same_addr(M, fn, a, b, depth=0):
    if a == b:
        return True
    if depth > 12 or not (isinstance(a, str) and isinstance(b, str)):
        return False
    x, y = fn.defs.get(a), fn.defs.get(b)
    if x is None or y is None or x.op != y.op:
        return False
    if x.op == "getelementptr":
        if x.extra["sty"] != y.extra["sty"] or len(x.args) != len(y.args):
            return False
        return all(p == q or same_val(M, fn, p, q, depth + 1) for p, q in zip(x.args, y.args))
    if x.op == "load":
        return same_addr(M, fn, x.args[0], y.args[0], depth + 1)
    return False


def same_val(M, fn, a, b, depth=0):
    if a == b:
        return True
    if depth > 12 or not (isinstance(a, str) and isinstance(b, str)):
        return False
    x, y = fn.defs.get(a), fn.defs.get(b)
    if x is None or y is None or x.op != y.op or len(x.args) != len(y.args):
        return False
    if x.op in ("sext", "zext", "trunc", "add", "sub", "mul", "shl", "load", "getelementptr"):
        return all(same_val(M, fn, p, q, depth + 1) for p, q in zip(x.args, y.args)) and x.extra.get("sty") == y.extra.get("sty")
    return False
