"""Whole-command abstract interpretation of LLVM IR.

Starting at a command's entry function, every function is evaluated once per
call path.  Memory is a set of abstract objects (globals, locals and
allocations, per call path) divided into cells (base offset + strides); it is
flow-insensitive: a cell holds the join of everything ever stored there.
What a number *means* is left to a domain (see Domain): the engine itself only
knows which pointers there are.
"""
import math, re
from ir import Const, CE

EMPTY = frozenset()
INF = float("inf")


class Budget(Exception):
    pass


class Loc:
    """a set of addresses: object, base offset, dims ((stride, count|INF), ...)
    by decreasing stride, and the extent (lo, hi) of the array pointed into"""
    __slots__ = ("obj", "off", "dims", "lo", "hi", "_h")

    def __init__(self, obj, off=0, dims=(), lo=0, hi=INF):
        self.obj, self.off, self.dims, self.lo, self.hi = obj, off, dims, lo, hi
        self._h = hash((obj, off, dims, lo, hi))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self._h == o._h and self.obj == o.obj and self.off == o.off and self.dims == o.dims and self.lo == o.lo and self.hi == o.hi

    def __repr__(self):
        return "%s+%d%s" % (self.obj, self.off, "".join("[%d*%s]" % d for d in self.dims))

    def shift(self, c):
        return Loc(self.obj, self.off + c, self.dims, self.lo, self.hi)

    def sub(self, start, size):
        """pointer to an element of an array [start, start+size) at self.off"""
        return Loc(self.obj, self.off, self.dims, start, start + size)

    def dyn(self, st):
        if st == 0:
            return self
        lo, hi = self.lo, self.hi
        off = lo + (self.off - lo) % st
        n = INF if hi == INF else max(1, -(-(hi - off) // st))
        return adddim(self.obj, off, self.dims, st, n, lo, hi)


def adddim(obj, off, dims, st, n, lo, hi):
    if n == 1:
        return Loc(obj, off, dims, lo, hi)
    d = dict(dims)
    if st in d:
        d[st] = max(d[st], n)
    else:
        d[st] = n
    # an unbounded dimension swallows the larger ones it divides
    out = []
    for s in sorted(d, reverse=True):
        if any(t < s and s % t == 0 and d[t] * t >= s for t in d if t != s):
            # the smaller stride runs over the whole larger one
            t = max(t for t in d if t < s and s % t == 0 and d[t] * t >= s)
            if d[s] != INF and d[t] != INF:
                d[t] = max(d[t], d[s] * (s // t))
            elif d[s] == INF:
                d[t] = INF
            continue
        out.append(s)
    dd = tuple((s, d[s]) for s in out)
    base = off
    if dd and dd[-1][1] == INF:
        base = off % dd[-1][0] if len(dd) == 1 else off
    return Loc(obj, base, dd, lo, hi)


def overlap(a, an, b, bn):
    """may [a, a+an) and [b, b+bn) share a byte?"""
    x, y = a.off, b.off
    da, db = list(a.dims), list(b.dims)
    if not da and not db:
        return x < y + bn and y < x + an
    strides = sorted({s for s, _ in da} | {s for s, _ in db}, reverse=True)
    wrapped = False
    if all(n != INF for _, n in da) and all(n != INF for _, n in db):
        ea, eb = sum((n - 1) * t for t, n in da) + an, sum((n - 1) * t for t, n in db) + bn
        if not (x < y + eb and y < x + ea):
            return False
    for s in strides:
        ina = any(t == s for t, _ in da)
        inb = any(t == s for t, _ in db)
        rest_a = sum((n - 1) * t for t, n in da if t < s) + an
        rest_b = sum((n - 1) * t for t, n in db if t < s) + bn
        big_a = [t for t, _ in da if t > s]
        big_b = [t for t, _ in db if t > s]
        if rest_a <= s and rest_b <= s and all(t % s == 0 for t in big_a + big_b) or (rest_a <= s and rest_b <= s):
            x %= s
            y %= s
            da = [d for d in da if d[0] < s]
            db = [d for d in db if d[0] < s]
            # residues wrap around
            ea = sum((n - 1) * t for t, n in da) + an
            eb = sum((n - 1) * t for t, n in db) + bn
            hit = False
            for k in (-s, 0, s):
                if x + k < y + eb and y < x + k + ea:
                    hit = True
            if not hit:
                return False
        else:
            if strides and not wrapped:
                ea, eb = sum((n - 1) * t for t, n in da) + an, sum((n - 1) * t for t, n in db) + bn
                return x < y + eb and y < x + ea
            return True
        wrapped = True
    if not da and not db:
        return True if strides else (x < y + bn and y < x + an)
    return True


def widen(ptrs, cap=10):
    """many places in one object: remember only their common stride"""
    by = {}
    for p in ptrs:
        if isinstance(p, Loc):
            by.setdefault(p.obj, []).append(p)
    big = {o: ls for o, ls in by.items() if len(ls) > cap}
    if not big:
        return ptrs
    out = {p for p in ptrs if not (isinstance(p, Loc) and p.obj in big)}
    for o, ls in big.items():
        g = 0
        b = min(l.off for l in ls)
        for l in ls:
            g = math.gcd(g, l.off - b)
            for t, _ in l.dims:
                g = math.gcd(g, t)
        g = g or 1
        out.add(Loc(o, b % g, ((g, INF),)))
    return frozenset(out)


def scansizes(fmt):
    """bytes each conversion of a scanf format stores"""
    out = []
    for star, ln, c in re.findall(r"%(?:%|(\*?)\d*(hh|h|ll|l|z|j|t|L)?(\[\^?\]?[^\]]*\]|[a-zA-Z]))", fmt):
        if c and not star:
            out.append(1 if c[0] in "sc[" else {"hh": 1, "h": 2, "": 4, "L": 16}.get(ln, 8))
    return out


class Domain:
    """numbers; subclasses define the lattice"""
    bot = None
    blind = False           # follow both ways of every decision

    def join(self, a, b):
        return a if b is None or a == b else b if a is None else self.join2(a, b)


class Frame:
    __slots__ = ("fn", "ctx", "args", "vals", "ret", "site", "up", "pc", "edges", "live", "reads", "last", "dirty", "callers")

    def __init__(self, fn, ctx, up, site):
        self.fn, self.ctx, self.up, self.site = fn, ctx, up, site
        self.args = {}
        self.vals = {}
        self.ret = (EMPTY, None, None)
        self.pc = None
        self.edges = set()
        self.live = set()
        self.reads = set()       # objects looked at
        self.callers = set()
        self.last = -1
        self.dirty = True

    def chain(self):
        f, out = self, []
        while f is not None:
            out.append(f.fn.name)
            f = f.up
        return out


BOT = (EMPTY, None, None)
TOPC = "?"          # any integer
ZERO = frozenset([0])
CAP = 48


def n3(v):
    """values are (pointers, number, integers); a missing last part means any"""
    if len(v) == 3:
        return v
    if v[1] is None and not v[0]:
        return BOT
    return (v[0], v[1], TOPC)


def cjoin(a, b):
    if a is None or a == b:
        return b
    if b is None:
        return a
    if a == TOPC or b == TOPC:
        return TOPC
    r = a | b
    return r if len(r) <= CAP else TOPC
ALLOC = {"malloc", "calloc", "realloc", "fftw_malloc", "fftwf_malloc", "strdup", "strndup", "opendir", "fopen", "aligned_alloc", "realpath", "fftw_alloc_real", "fftwf_alloc_real", "fftw_alloc_complex", "fftwf_alloc_complex"}


ONES = frozenset([1, -1])


def icmp(ins, x, y):
    """possible truth values"""
    if ins.op != "icmp":
        return TOPC
    if ins.extra.get("opty") == "ptr" or x[0] or y[0]:
        return TOPC
    a, b = x[2], y[2]
    if a is None or b is None:
        return None if (x == BOT or y == BOT) and not (isinstance(ins.args[0], Const) and isinstance(ins.args[1], Const)) else TOPC
    if a == TOPC or b == TOPC:
        return TOPC
    p = ins.extra["pred"]
    m = re.match(r"i(\d+)$", ins.extra.get("opty") or "")
    w = 1 << int(m.group(1)) if m else 1 << 64
    out = set()
    for i in a:
        for j in b:
            if p in ("eq", "ne"):
                t = (i % w == j % w)
                out.add(int(t == (p == "eq")))
                continue
            if p[0] == "u":
                i2, j2 = i % w, j % w
            else:
                i2, j2 = (i + w // 2) % w - w // 2, (j + w // 2) % w - w // 2
            q = p[1:]
            out.add(int(i2 < j2 if q == "lt" else i2 <= j2 if q == "le" else i2 > j2 if q == "gt" else i2 >= j2))
    return frozenset(out)


def ints(ins, av):
    cs = [a[2] for a in av]
    if any(c is None for c in cs):
        return TOPC
    if any(c == TOPC for c in cs):
        # x & 0, x && false
        if ins.op == "and" and ZERO in cs:
            return ZERO
        return TOPC
    if ins.op in ("sext", "zext", "trunc"):
        if ins.op == "zext" and any(x < 0 for x in cs[0]):
            return frozenset(1 if x == -1 else x for x in cs[0]) if cs[0] <= frozenset([0, 1, -1]) else TOPC
        if ins.op == "trunc":
            m = re.match(r"i(\d+)$", ins.ty or "")
            if ins.ty == "i1":
                return frozenset(x & 1 for x in cs[0])
            w = 1 << int(m.group(1)) if m else 1 << 64
            return frozenset((x + w // 2) % w - w // 2 for x in cs[0])
        return cs[0]
    if ins.op in ("fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
        return cs[0]
    f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b}.get(ins.op)
    if f is None:
        return TOPC
    if ins.ty == "i1":
        return frozenset(f(a, b) & 1 for a in cs[0] for b in cs[1])
    r = frozenset(f(a, b) for a in cs[0] for b in cs[1])
    # counters are not followed
    return r if len(r) <= 8 and ins.op != "add" else r if len(r) <= 4 and all(abs(x) < 16 for x in r) else TOPC


class Interp:
    def __init__(self, M, dom, limit=4000000):
        self.M, self.D = M, dom
        dom.I = self
        self.mem = {}            # obj -> {Loc(off,dims): (size, value)}
        self.frames = {}
        self.order = []
        self.changed = False
        self.limit = limit
        self.steps = 0
        self.ocache = {}
        self.osize = {}
        self.ginit = set()
        self.debug, self.why = False, None
        self.open = False
        self.clock = 0
        self.ver = {}            # object -> time of its last change
        self.cur = None          # frame being evaluated
        self.optset = TOPC       # what getopt() may return
        self.given = set()       # (object, offset) of cells an option present in every scenario sets
        self.before = set()      # ids of the stores that give them their initial value

    # ---------------------------------------------------------------- memory
    def cell(self, loc, size, create=True):
        o = self.mem.setdefault(loc.obj, {})
        k = (loc.off, loc.dims, size)
        return o, k

    def store(self, ptrs, size, v):
        v = n3(v)
        if v == BOT:
            return
        for l in ptrs:
            if isinstance(l, Loc):
                o = self.mem.get(l.obj)
                if o is None:
                    o = self.mem[l.obj] = {}
                k = (l.off, l.dims, size)
                if len(l.dims) > 1 and l.dims[0][1] == INF and l.off >= l.dims[0][0]:
                    t = l.dims[0][0]
                    if l.off % t + sum((c - 1) * u for u, c in l.dims[1:]) + size <= t:
                        k = (l.off % t, l.dims, size)
                old = o.get(k, BOT)
                new = self.vjoin(old, v)
                if new != old:
                    o[k] = new
                    self.changed = True
                    self.clock += 1
                    self.ver[l.obj] = self.clock
                    self.why = (l, size, old, new)

    def matches(self, l, size):
        if self.cur is not None:
            self.cur.reads.add(l.obj)
        o = self.mem.get(l.obj)
        if not o:
            return ()
        ck = (l.obj, l.off, l.dims, size, len(o))
        r = self.ocache.get(ck)
        if r is None:
            r = self.ocache[ck] = tuple(k for k in o if overlap(Loc(l.obj, k[0], k[1]), k[2], l, size))
        return r

    def load(self, ptrs, size):
        v = BOT
        rd = self.cur.reads if self.cur is not None else set()
        for l in ptrs:
            if not isinstance(l, Loc):
                continue
            rd.add(l.obj)
            if isinstance(l.obj, str) and l.obj.startswith("@"):
                self.global_init(l.obj)
            o = self.mem.get(l.obj)
            if o:
                given = not l.dims and (l.obj, l.off) in self.given
                for k in self.matches(l, size):
                    if given and k[1]:
                        continue         # the zero it was allocated with
                    if size >= 4 and k[2] == 1 and isinstance(o[k][1], tuple):
                        continue         # text is not read as a number
                    v = self.vjoin(v, o[k] if size >= 8 or not o[k][0] else (EMPTY, o[k][1], o[k][2]))
            iv = self.D.initial(l.obj)
            if iv is not None:
                v = self.vjoin(v, (EMPTY, iv))
        return v

    def content(self, ptrs):
        """everything stored in the objects pointed to"""
        v = BOT
        for l in ptrs:
            if isinstance(l, Loc):
                if self.cur is not None:
                    self.cur.reads.add(l.obj)
                if isinstance(l.obj, str) and l.obj.startswith("@"):
                    self.global_init(l.obj)
                for k, x in self.mem.get(l.obj, {}).items():
                    v = self.vjoin(v, x)
                iv = self.D.initial(l.obj)
                if iv is not None:
                    v = self.vjoin(v, (EMPTY, iv))
        return v

    def copy(self, dst, src, n, kill=()):
        """memcpy of n bytes (None: unknown)"""
        for s in src:
            if not isinstance(s, Loc):
                continue
            if self.cur is not None:
                self.cur.reads.add(s.obj)
            if isinstance(s.obj, str) and s.obj.startswith("@"):
                self.global_init(s.obj)
            iv = self.D.initial(s.obj)
            if iv is not None:
                self.store([Loc(d.obj, d.off % 8 if d.off % 8 else d.off, adddim(d.obj, d.off, d.dims, 8, INF if n is None else max(1, n // 8), 0, INF).dims) for d in dst if isinstance(d, Loc)], 8, (EMPTY, iv))
            for (off, dims, size), v in list(self.mem.get(s.obj, {}).items()):
                for d in dst:
                    if not isinstance(d, Loc):
                        continue
                    if not s.dims and not dims:
                        if n is not None and not (s.off <= off < s.off + n):
                            continue
                        if any(lo <= off - s.off and off - s.off + size <= hi for lo, hi in kill):
                            continue
                        if not d.dims:
                            self.store([Loc(d.obj, d.off + off - s.off)], size, v)
                            continue
                        self.store([Loc(d.obj, d.off + off - s.off, d.dims)], size, v)
                        continue
                    if not overlap(Loc(s.obj, off, dims), size, s, n or 1 << 40):
                        continue
                    # keep the strides of the source inside the copied span
                    o2 = (off - s.off)
                    big = [t for t, _ in s.dims]
                    own = sorted((t for t, _ in dims if t not in big), reverse=True)
                    t = own[0] if own else 0
                    inner = sum((c - 1) * u for u, c in dims if u < t and u not in big) + size
                    span = t * dict(dims)[t] if t else 0
                    if big and t and n is not None and span >= n and o2 % t + inner <= t:
                        o2 %= t                   # its elements are found all over the copied range
                    elif big:
                        o2 %= min(big)
                    elif o2 < 0:
                        if t and -o2 < span and o2 % t + inner <= t:
                            o2 %= t
                        else:
                            o2 = o2 % 8
                    l = Loc(d.obj, d.off + o2, d.dims)
                    for t, c in dims:
                        if t not in big:
                            l = adddim(l.obj, l.off, l.dims, t, c if n is None else min(c, max(1, n // t)), 0, INF)
                    self.store([l], size, v)

    def global_init(self, g):
        if g in self.ginit:
            return
        self.ginit.add(g)
        d = self.M.globals.get(g)
        if not d:
            return

        def put(off, ty, v):
            if isinstance(v, CE) and v.op in ("aggregate", "array", "struct"):
                pass
            if isinstance(v, str) and v.startswith("@"):
                self.store([Loc(g, off)], 8, (frozenset([self.gptr(v)]), None))
            elif isinstance(v, CE) and v.op == "getelementptr":
                self.store([Loc(g, off)], 8, self.value(None, v))
            elif isinstance(v, CE) and isinstance(v.args, (list, tuple)):
                o = off
                for a in v.args:
                    t, x = a if isinstance(a, tuple) else (None, a)
                    if t is None:
                        return
                    s, al = self.M.layout.sa(t)
                    o = (o + al - 1) // al * al
                    put(o, t, x)
                    o += s
            elif isinstance(v, Const):
                if v.kind == "str":
                    self.store([Loc(g, off, ((1, INF),))], 1, (EMPTY, self.D.text(v.val)))
                elif v.kind == "zero":
                    n = self.M.layout.size(ty) if ty else 8
                    self.store([Loc(g, off, ((1, n),)) if n > 1 else Loc(g, off)], 1, (EMPTY, self.D.zero(), ZERO))
                else:
                    x = self.value(None, v)
                    try:
                        sz = self.M.layout.size(ty)
                    except Exception:
                        sz = 8
                    self.store([Loc(g, off)], sz, x)
        if d.get("init") is not None:
            put(0, d.get("ty"), d["init"])

    def gptr(self, v):
        n = v[1:]
        if n in self.M.funcs:
            return ("fn", n)
        if v not in self.M.globals:
            return ("fn", n)
        return Loc(v)

    def killed(self, fn, ins):
        """byte ranges of a copy's destination that are overwritten right after
        it, before anything could read them"""
        c = fn.__dict__.setdefault("_killed", {})
        r = c.get(id(ins))
        if r is None:
            r = []
            base, off0 = self.base(fn, ins.args[0])
            bad = False
            for j in ins.block.instrs[ins.idx + 1:]:
                if j.op == "load":
                    b, o = self.base(fn, j.args[0])
                    if b == base and o is not None:
                        if not any(x[0] <= o < x[1] for x in r):
                            r.append((o, o + 8, False))
                    # other bases cannot be the fresh copy unless it was passed on
                elif j.op == "store":
                    b, o = self.base(fn, j.args[1])
                    if b == base and o is not None:
                        n = self.M.layout.size(j.extra["valty"])
                        if not any(x[0] < o + n and o < x[1] for x in r):
                            r.append((o, o + n, True))
                elif j.op == "call" and j.callee not in ALLOC and not (j.callee or "").startswith("llvm.dbg"):
                    break
            r = [(lo - off0, hi - off0) for lo, hi, w in r if w] if base is not None and off0 is not None else []
            c[id(ins)] = r
        return r

    def base(self, fn, p):
        off = 0
        while isinstance(p, str) and p in fn.defs:
            d = fn.defs[p]
            if d.op == "getelementptr":
                o, dyn, _ = self.M.layout.gep(d.extra["sty"], d.args[1:])
                if dyn:
                    return p, None
                off += o
                p = d.args[0]
            elif d.op in ("bitcast", "freeze"):
                p = d.args[0]
            else:
                break
        return p, off

    # ---------------------------------------------------------------- values
    def vjoin(self, a, b):
        a, b = n3(a), n3(b)
        if a == b or b == BOT:
            return a
        if a == BOT:
            return b
        p = a[0] if b[0] <= a[0] else a[0] | b[0]
        if len(p) > 10:
            p = widen(p)
        return (p, self.D.join(a[1], b[1]), cjoin(a[2], b[2]))

    def value(self, fr, v):
        if isinstance(v, str):
            if v[0] == "@":
                return (frozenset([self.gptr(v)]), None)
            return fr.vals.get(v, BOT) if fr is not None else BOT
        if isinstance(v, Const):
            if v.kind in ("null", "undef", "none", "poison"):
                return BOT
            if v.kind == "int":
                return (EMPTY, self.D.const(v.val), frozenset([v.val]) if v.val is not None else TOPC)
            if v.kind in ("float", "fp", "fpraw"):
                return (EMPTY, self.D.const(v.val), TOPC)
            if v.kind == "zero":
                return (EMPTY, self.D.zero(), ZERO)
            return BOT
        if isinstance(v, CE):
            if v.op == "getelementptr":
                base = self.value(fr, v.args[0][1])
                return (self.gep(base[0], v.ty, [a[1] for a in v.args[1:]]), None)
            r = BOT
            for a in v.args:
                x = a[1] if isinstance(a, tuple) else a
                r = self.vjoin(r, self.value(fr, x))
            return r
        return BOT

    def gep(self, ptrs, sty, idxs):
        L = self.M.layout
        out = set()
        for p in ptrs:
            if not isinstance(p, Loc):
                out.add(p)
                continue
            ty = sty
            l = p
            for n, ix in enumerate(idxs):
                c = ix.val if isinstance(ix, Const) and ix.kind == "int" else None
                if n == 0:
                    st = L.size(ty)
                    l = l.dyn(st) if c is None else l.shift(c * st) if c else l
                    continue
                if ty.startswith("[") or (ty.startswith("<") and not ty.startswith("<{")):
                    m = re.match(r"^[\[<](\d+) x (.*)[\]>]$", ty)
                    cnt, el = int(m.group(1)), m.group(2)
                    st = L.size(el)
                    l = l.sub(l.off, cnt * st if cnt else INF)
                    l = l.dyn(st) if c is None else l.shift(c * st)
                    ty = el
                else:
                    o = L.field_off(ty, ix.val)
                    ty = L.fields(ty)[ix.val]
                    l = l.shift(o)
                    l = l.sub(l.off, L.size(ty))
            out.add(l)
        if len(out) > 64:
            # too many: forget the extents
            out = {Loc(l.obj, l.off, l.dims) if isinstance(l, Loc) else l for l in out}
        return frozenset(out)

    # ---------------------------------------------------------------- running
    def frame(self, fn, up, site):
        # recursion: reuse the frame of the same function further up
        f = up
        while f is not None:
            if f.fn is fn:
                return f
            f = f.up
        ctx = (up.ctx + (site,)) if up is not None else ()
        k = (fn.name, ctx)
        fr = self.frames.get(k)
        if fr is None:
            fr = self.frames[k] = Frame(fn, ctx, up, site)
            self.order.append(fr)
            self.changed = True
        return fr

    def run(self, entry, args=(), rounds=300):
        fn = self.M.funcs[entry]
        fr = self.frame(fn, None, None)
        for (ty, p), a in zip([q[:2] for q in fn.params], args):
            fr.args[p] = a
        ver = self.ver
        full = True
        for r in range(rounds):
            self.changed = False
            n0 = 0
            while n0 < len(self.order):
                for f in self.order[n0:]:
                    n0 += 1
                    if not full and not f.dirty:
                        last = f.last
                        if not any(ver.get(o, -1) > last for o in f.reads):
                            continue
                    self.settle(f)
            if not self.changed:
                if not full:
                    full = True           # confirm
                    continue
                if not self.open:
                    self.open = True      # conditions nothing reached are unknown
                    continue
                self.rounds = r + 1
                return
            full = False
            if self.debug:
                print("round", r, len(self.frames), self.steps, self.why)
        raise Budget("no fixpoint after %d rounds" % rounds)

    def settle(self, f):
        for _ in range(6):
            f.dirty = False
            f.last = self.clock
            self.cur = f
            self.eval(f)
            if not f.dirty and not any(self.ver.get(o, -1) > f.last for o in f.reads):
                break
        self.cur = None

    def setv(self, fr, name, v):
        v = n3(v)
        if v == BOT:
            return
        old = fr.vals.get(name, BOT)
        new = self.vjoin(old, v)
        if new != old:
            if len(new[0]) > 10:
                new = (widen(new[0]), new[1], new[2])
                if new == old:
                    return
            fr.vals[name] = new
            self.changed = True
            fr.dirty = True
            self.why = (fr.fn.name, name, old, new)

    def eval(self, fr):
        fn = fr.fn
        for p, v in fr.args.items():
            self.setv(fr, p, v)
        V = self.value
        D = self.D
        live = {fn.entry.name}
        edges = set()
        fr.live = live
        for b in self.rpo(fn):
            if b.name not in live:
                continue
            for ins in b.instrs:
                self.steps += 1
                op = ins.op
                r = None
                if op == "getelementptr":
                    p = V(fr, ins.args[0])
                    r = (self.gep(p[0], ins.extra["sty"], ins.args[1:]), None)
                    if D.gepdep:
                        r = (r[0], D.gep(p, [V(fr, a) for a in ins.args[1:]]))
                elif op == "load":
                    p = V(fr, ins.args[0])
                    r = D.load(self.load(p[0], self.M.layout.size(ins.ty)), p, ins, fr)
                elif op == "store":
                    v = V(fr, ins.args[0])
                    p = V(fr, ins.args[1])
                    if id(ins) in self.before:
                        p = (frozenset(l for l in p[0] if not (isinstance(l, Loc) and (l.obj, l.off) in self.given)),) + tuple(p[1:])
                    self.store(p[0], self.M.layout.size(ins.extra["valty"]), D.stored(v, p, ins, fr))
                elif op == "call":
                    r = self.call(fr, ins)
                elif op == "phi":
                    r = BOT
                    for x, pr in ins.extra["in"]:
                        if (pr, b.name) in fr.edges:
                            r = self.vjoin(r, V(fr, x))
                    r = D.phi(r, ins, fr)
                elif op == "select":
                    c = V(fr, ins.args[0])
                    v = BOT
                    if D.blind or c[2] is None or c[2] == TOPC or c[2] & ONES:
                        v = self.vjoin(v, V(fr, ins.args[1]))
                    if D.blind or c[2] is None or c[2] == TOPC or 0 in c[2]:
                        v = self.vjoin(v, V(fr, ins.args[2]))
                    r = D.select(c, v, ins, fr)
                elif op == "alloca":
                    r = (frozenset([Loc((fn.name, fr.ctx, ins.res))]), None)
                elif op in ("icmp", "fcmp"):
                    x, y = V(fr, ins.args[0]), V(fr, ins.args[1])
                    r = (EMPTY, D.cmp(ins, x, y, fr), icmp(ins, x, y))
                elif op == "ret":
                    if ins.args:
                        v = self.vjoin(fr.ret, D.returned(V(fr, ins.args[0]), ins, fr))
                        if v != fr.ret:
                            fr.ret = v
                            self.changed = True
                            for c in fr.callers:
                                c.dirty = True
                elif op in ("br", "switch", "unreachable"):
                    c = V(fr, ins.args[0]) if ins.args else BOT
                    D.branch(ins, c, fr)
                    self.follow(fr, b, ins, c, live)
                elif op in ("bitcast", "freeze", "inttoptr", "ptrtoint", "addrspacecast", "extractvalue", "extractelement"):
                    r = V(fr, ins.args[0])
                elif op in ("insertvalue", "insertelement"):
                    r = self.vjoin(V(fr, ins.args[0]), V(fr, ins.args[1]))
                elif ins.res:
                    av = [V(fr, a) for a in ins.args]
                    r = (EMPTY, D.arith(ins, av, fr), ints(ins, av))
                if r is not None and ins.res:
                    self.setv(fr, ins.res, r)
        if self.steps > self.limit:
            raise Budget("too many steps")

    def rpo(self, fn):
        r = fn.__dict__.get("_rpo")
        if r is None:
            r = fn.__dict__["_rpo"] = fn.rpo()
        return r

    def follow(self, fr, b, ins, c, live):
        cs = c[2]
        if ins.op == "unreachable":
            return
        if self.D.blind:
            tg = [s.name for s in b.succs]
        elif ins.op == "switch":
            if cs is None and c == BOT:
                tg = [] if not self.open else [s.name for s in b.succs]         # nothing reaches the condition yet
            elif cs is None or cs == TOPC:
                tg = [s.name for s in b.succs]
            else:
                m = dict(ins.extra["cases"])
                tg = [m.get(x, ins.extra["default"]) for x in cs]
        elif len(ins.extra["succ"]) == 2:
            t, f = ins.extra["succ"]
            if cs is None and c == BOT:
                tg = [] if not self.open else [t, f]
            elif cs is None or cs == TOPC:
                tg = [t, f]
            else:
                tg = ([t] if cs & ONES else []) + ([f] if 0 in cs else [])
        else:
            tg = ins.extra["succ"]
        for x in tg:
            live.add(x)
            if (b.name, x) not in fr.edges:
                fr.edges.add((b.name, x))
                self.changed = True
                fr.dirty = True
                self.why = (fr.fn.name, b.name, x)

    # ---------------------------------------------------------------- calls
    def call(self, fr, ins):
        args = [self.value(fr, a) for a in ins.args]
        names = [ins.callee]
        if ins.callee is None:
            names = [a[1] for a in self.value(fr, ins.extra["fp"])[0] if isinstance(a, tuple) and a[0] == "fn"]
        out = BOT
        for n in names:
            out = self.vjoin(out, self.call1(fr, ins, n, args))
        return self.D.called(out, ins, fr)

    def enter(self, fr, ins, name, args):
        g = self.M.funcs[name]
        nf = self.frame(g, fr, (fr.fn.name, ins.res or id(ins), name))
        nf.callers.add(fr)
        for (ty, p), a in zip([q[:2] for q in g.params], args):
            old = nf.args.get(p, BOT)
            new = self.vjoin(old, a)
            if new != old:
                nf.args[p] = new
                self.changed = True
                nf.dirty = True
        self.D.enter(nf, fr, ins)
        return nf.ret

    def fresh(self, fr, ins, tag=""):
        return Loc((fr.fn.name, fr.ctx, (ins.res or "c%d" % ins.idx) + tag + "@" + ins.block.name))

    def call1(self, fr, ins, name, args):
        D = self.D
        if name in self.M.funcs:
            h = D.intercept(fr, ins, name, args)
            if h is not None:
                return h
            return self.enter(fr, ins, name, args)
        b = re.sub(r"\.(p0|i64|i32|f64|f32)(?=\.|$)", "", name or "")
        h = D.intercept(fr, ins, b, args)
        if h is not None:
            return h
        if b in ("getopt", "getopt_long"):
            return (EMPTY, D.neutral(), self.optset)
        if b in ("__kmpc_fork_call",):
            for a in args[2][0]:
                if isinstance(a, tuple) and a[0] == "fn" and a[1] in self.M.funcs:
                    return self.enter(fr, ins, a[1], [BOT, BOT] + list(args[3:]))
            return BOT
        if b.startswith("__kmpc") or b.startswith("omp_"):
            for a in args[1:]:
                self.store([l for l in a[0] if isinstance(l, Loc) and not (isinstance(l.obj, str) and l.obj.startswith("@"))], 8, (EMPTY, D.neutral()))
            return (EMPTY, D.neutral())
        if b in ("llvm.memcpy", "llvm.memmove", "memcpy", "memmove"):
            n = ins.args[2].val if isinstance(ins.args[2], Const) and ins.args[2].kind == "int" else None
            self.copy(args[0][0], args[1][0], n, self.killed(fr.fn, ins))
            return args[0]
        if b in ("llvm.memset", "memset"):
            n = ins.args[2].val if isinstance(ins.args[2], Const) and ins.args[2].kind == "int" else None
            v = (EMPTY, D.byteset(args[1]), ZERO if args[1][2] == ZERO else TOPC)
            for l in args[0][0]:
                if isinstance(l, Loc):
                    ll = adddim(l.obj, l.off, l.dims, 8, INF if n is None else max(1, n // 8), 0, INF)
                    self.store([ll], 8, v)
            return args[0]
        if b in ("realloc", "reallocarray"):
            l = self.fresh(fr, ins)
            self.copy([l], [x for x in args[0][0] if isinstance(x, Loc) and x.obj != l.obj], None)
            return (frozenset([l]) | args[0][0], None)
        if b in ALLOC:
            l = self.fresh(fr, ins)
            if b == "calloc":
                z = D.zero()
                if z is not None:
                    self.store([Loc(l.obj, 0, ((8, INF),))], 8, (EMPTY, z, ZERO))
            if b in ("strdup", "strndup", "realpath"):
                c = self.content(args[0][0])
                self.store([Loc(l.obj, 0, ((1, INF),))], 1, (EMPTY, D.text_of(c, args[0])))
            return (frozenset([l]), None)
        if b in ("asprintf", "vasprintf"):
            l = self.fresh(fr, ins)
            v = D.format(fr, ins, ins.args[1], args[2:])
            self.store([Loc(l.obj, 0, ((1, INF),))], 1, (EMPTY, v))
            self.store(args[0][0], 8, (frozenset([l]), None))
            return (EMPTY, D.neutral())
        if b in ("sprintf", "snprintf", "strcpy", "strcat", "strncpy", "strncat", "__sprintf_chk", "__strcpy_chk"):
            k = {"sprintf": 1, "snprintf": 2}.get(b)
            if k:
                v = D.format(fr, ins, ins.args[k], args[k + 1:])
            else:
                v = D.text_of(self.content(args[1][0]), args[1])
            self.store([l.dyn(1) for l in args[0][0] if isinstance(l, Loc)], 1, (EMPTY, v))
            return (args[0][0], D.neutral())
        if b.endswith("sscanf") or b.endswith("fscanf"):
            vals = D.scanned(fr, ins, args)
            sz = scansizes(self.M.cstring(ins.args[1]) or "")
            for k, a in enumerate(args[2:]):
                v = vals[k] if isinstance(vals, list) else vals
                self.store(a[0], sz[k] if k < len(sz) else 8, (EMPTY, v) if not isinstance(v, tuple) or v[0] != "int" else (EMPTY, v[1], v[2]))
            return (EMPTY, D.neutral())
        if b in ("getline", "getdelim", "__getdelim"):
            l = self.fresh(fr, ins)
            self.store([Loc(l.obj, 0, ((1, INF),))], 1, (EMPTY, D.neutral()))
            self.store(args[0][0], 8, (frozenset([l]), None))
            return (EMPTY, D.neutral())
        if b == "qsort":
            for a in args[3][0]:
                if isinstance(a, tuple) and a[1] in self.M.funcs:
                    self.enter(fr, ins, a[1], [args[0], args[0]])
            return BOT
        if b == "llvm.threadlocal.address":
            return args[0]
        if b in ("strtod", "strtof", "strtol", "strtoul"):
            self.store(args[1][0], 8, (args[0][0], None))
            return (EMPTY, D.lib(fr, ins, b, args))
        d = D.lib(fr, ins, b, args)
        p = EMPTY
        if ins.ty == "ptr":
            for a in args:
                p |= frozenset(x for x in a[0] if isinstance(x, Loc))
            p = frozenset(Loc(x.obj, 0, ((1, INF),)) if b not in ("fgets", "strcpy") else x for x in p) if b.startswith("str") or b == "basename" else p
            if not p:
                p = frozenset([self.fresh(fr, ins)])
        return (p, d)
