"""Which options and which parts of the environment can influence what is written.

A value is the set of tags of everything it depends on, through data or
through decisions (control dependence, also across calls).  A tag is an option
letter or "env" (clock, environment, process identity, random numbers)."""
from absint import Domain, Loc, EMPTY, BOT, adddim, INF, TOPC
from ir import Const, CE

NIL = frozenset()
ENV = {"time", "gettimeofday", "clock", "clock_gettime", "localtime", "gmtime", "ctime", "strftime", "getenv", "secure_getenv", "getpid", "getppid", "rand", "random", "drand48", "getuid", "gethostname", "uname",
       "isatty", "ftime", "times", "getrusage", "omp_get_wtime", "lrand48", "rand_r", "getcwd", "sysconf", "ttyname", "getlogin", "omp_get_num_procs", "localtime_r", "tmpnam", "mkstemp", "__fdelt_chk", "arc4random", "getentropy", "getrandom", "sched_getcpu"}
CHANGES = ("llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memset", "memset", "sprintf", "snprintf", "strcpy", "strcat", "strncpy", "strncat", "fgets", "fread")


def control(fn):
    """block name -> [(terminator, ...)] it is (transitively) control dependent on; ways that do not come back do not count"""
    r = fn.__dict__.get("_control")
    if r is not None:
        return r
    blocks = {b.name: b for b in fn.rpo()}
    good = set()
    todo = [b for b in blocks.values() if b.instrs[-1].op == "ret"]
    while todo:
        b = todo.pop()
        if b.name not in good:
            good.add(b.name)
            todo += [p for p in b.preds if p.name in blocks]
    succ = {n: [s.name for s in b.succs if s.name in good] for n, b in blocks.items()}
    exits = [n for n in good if blocks[n].instrs[-1].op == "ret"]
    # post-dominators (iterative, on sets of bits)
    names = [n for n in blocks if n in good]
    idx = {n: i for i, n in enumerate(names)}
    full = (1 << len(names)) - 1
    pd = {n: full for n in names}
    for n in exits:
        pd[n] = 1 << idx[n]
    ch = True
    while ch:
        ch = False
        for n in reversed(names):
            if n in exits:
                continue
            x = full
            for s in succ[n]:
                x &= pd[s]
            x |= 1 << idx[n]
            if x != pd[n]:
                pd[n] = x
                ch = True
    direct = {n: set() for n in blocks}
    for a in names:
        if len(set(succ[a])) > 1:
            for s in set(succ[a]):
                todo = pd[s] & ~(pd[a] & ~(1 << idx[a]))
                i = 0
                while todo:
                    if todo & 1:
                        direct[names[i]].add(a)
                    todo >>= 1
                    i += 1
    for n, b in blocks.items():
        if n not in good:
            for p in b.preds:
                if p.name in blocks and len({s.name for s in p.succs}) > 1:
                    direct[n].add(p.name)
                elif p.name in blocks:
                    direct[n].add(("=", p.name))
    out = {}
    for n in blocks:
        seen, todo = set(), list(direct[n])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += list(direct[x[1] if isinstance(x, tuple) else x])
        out[n] = [blocks[x].instrs[-1] for x in seen if not isinstance(x, tuple)]
    fn.__dict__["_control"] = out
    return out


class Influence(Domain):
    bot = None
    gepdep = True

    def __init__(self, regions, quiet=NIL):
        self.regions = regions          # id(instruction) -> tags of the options it is executed for
        self.outs = {}
        self.ends = {}
        self.handles = {}
        self.I = None
        self.pcs = {}

    def join2(self, a, b):
        return a | b

    def tags(self, v):
        return v[1] if v[1] is not None else NIL

    def const(self, v):
        return NIL

    def zero(self):
        return NIL

    def neutral(self):
        return NIL

    def initial(self, obj):
        return None

    def text(self, b):
        return NIL

    def text_of(self, c, ptr):
        return self.content(ptr)

    def format(self, fr, ins, fmt, args):
        t = self.pc(fr, ins)
        for a in args:
            t |= self.content(a)
        return t

    def byteset(self, v):
        return self.tags(v)

    def scanned(self, fr, ins, args):
        t = self.pc(fr, ins) | self.content(args[0])
        return [t for _ in range(len(args) - 2)]

    # ------------------------------------------------------------- control
    def pc(self, fr, ins):
        t = fr.pc or NIL
        t |= self.regions.get(id(ins), NIL)
        return t | self.cond(fr, ins.block)

    def cond(self, fr, b):
        t = NIL
        for x in control(b.fn).get(b.name, ()):
            v = self.I.value(fr, x.args[0])[1] if x.args else None
            if v:
                t |= v
            t |= self.regions.get(id(x), NIL) & NIL
        return t

    def gep(self, p, idx):
        t = self.tags(p)
        for i in idx:
            t |= self.tags(i)
        return t

    def load(self, v, p, ins, fr):
        t = self.tags(p)
        return (v[0], (v[1] or NIL) | t) + tuple(v[2:]) if t else v

    def stored(self, v, p, ins, fr):
        if isinstance(ins.args[0], Const) and ins.args[0].kind == "null" and self.released(ins):
            return v
        t = self.pc(fr, ins) | self.tags(p)
        return (v[0], (v[1] or NIL) | t) + tuple(v[2:]) if t else v

    def released(self, ins):
        """is this the end of a record that is freed as a whole right afterwards?"""
        fn = ins.block.fn
        b = self.I.base(fn, ins.args[1])[0]
        return any(i.op == "call" and i.callee == "free" and i.args[0] == b and not fn.idominates(i, ins) for i in fn.instrs())

    def phi(self, v, ins, fr):
        t = NIL
        b = ins.block
        live = [pr for x, pr in ins.extra["in"] if (pr, b.name) in fr.edges]
        if len(live) > 1:
            blocks = b.fn.blocks
            for pr in live:
                p = blocks[pr] if isinstance(blocks, dict) else next(q for q in blocks if q.name == pr)
                t |= self.cond(fr, p)
                last = p.instrs[-1]
                if len({s.name for s in p.succs}) > 1 and last.args:
                    t |= self.I.value(fr, last.args[0])[1] or NIL
        return (v[0], (v[1] or NIL) | t) + tuple(v[2:]) if t else v

    def select(self, c, v, ins, fr):
        t = self.tags(c)
        return (v[0], (v[1] or NIL) | t) + tuple(v[2:]) if t else v

    def returned(self, v, ins, fr):
        t = self.cond(fr, ins.block)
        return (v[0], (v[1] or NIL) | t) + tuple(v[2:]) if t else v

    def called(self, v, ins, fr):
        return v

    def enter(self, nf, fr, ins):
        t = self.pc(fr, ins)
        if t - (nf.pc or NIL):
            nf.pc = (nf.pc or NIL) | t
            nf.dirty = True
            self.I.changed = True

    def branch(self, ins, v, fr):
        pass

    def cmp(self, ins, a, b, fr):
        return self.tags(a) | self.tags(b)

    def arith(self, ins, args, fr):
        t = NIL
        for a in args:
            t |= self.tags(a)
        return t

    # ------------------------------------------------------------- calls
    def put(self, ptrs, t, n=INF):
        for l in ptrs:
            if isinstance(l, Loc) and not (isinstance(l.obj, str) and l.obj.startswith("@")):
                self.I.store([adddim(l.obj, l.off, l.dims, 4, INF, 0, INF)] if n else [l], 4, (EMPTY, t))

    def out(self, kind, fr, ins, data, handle, names=""):
        self.outs[(kind, ins, fr.ctx)] = (data | self.pc(fr, ins), handle, names, fr.chain())

    def content(self, v):
        """tags of a text (or everything else in the array pointed into)"""
        return self.region(v, None)

    def hold(self, v):
        t = self.tags(v)
        for l in v[0]:
            if isinstance(l, Loc):
                t |= self.handles.get(l.obj, NIL)
        return t

    def intercept(self, fr, ins, name, args):
        I = self.I
        alltags = NIL
        for a in args:
            alltags |= self.tags(a)
        pc = self.pc(fr, ins)
        if name in CHANGES and (pc or self.tags(args[0])):
            self.put(args[0][0], pc | alltags)
        if name in ENV:
            for a in args:
                self.put(a[0], frozenset(["env"]), 0)
            if ins.ty == "ptr":
                l = I.fresh(fr, ins)
                I.store([Loc(l.obj, 0, ((1, INF),))], 1, (EMPTY, frozenset(["env"])))
                return (frozenset([l]), frozenset(["env"]))
            return (EMPTY, frozenset(["env"]))
        if name in ("exit", "_exit", "abort", "quick_exit"):
            self.ends[(ins, fr.ctx)] = (pc, fr.chain())
            return BOT
        if name.startswith(("fftw_plan", "fftwf_plan")):
            l = I.fresh(fr, ins)
            big = [a for a in args if any(isinstance(x, Loc) for x in a[0])]
            if len(big) >= 2:
                I.store([Loc(l.obj, 0)], 8, (big[-2][0], alltags | pc))
                I.store([Loc(l.obj, 8)], 8, (big[-1][0], alltags | pc))
            return (frozenset([l]), alltags | pc)
        if name in ("fftw_execute", "fftwf_execute"):
            for l in args[0][0]:
                if isinstance(l, Loc):
                    i, o = I.load([Loc(l.obj, 0)], 8), I.load([Loc(l.obj, 8)], 8)
                    self.put(o[0], self.content(i) | pc | self.tags(o))
            return BOT
        if name in ("fopen", "fopen64", "freopen", "fdopen"):
            l = I.fresh(fr, ins)
            t = self.content(args[0]) | pc
            self.handles[l.obj] = self.handles.get(l.obj, NIL) | t
            mode = I.M.cstring(ins.args[1]) or "w"
            if "r" not in mode or "+" in mode:
                self.out("file", fr, ins, t, t)
            return (frozenset([l]), t)
        if name == "fread":
            self.put(args[0][0], self.hold(args[3]) | pc | self.tags(args[1]) | self.tags(args[2]))
            return (EMPTY, NIL)
        if name == "fwrite":
            t = self.tags(args[1]) | self.tags(args[2])
            n = 1 << 40
            if all(isinstance(x, Const) and x.kind == "int" for x in ins.args[1:3]):
                n = ins.args[1].val * ins.args[2].val
            self.out("data", fr, ins, t | self.region(args[0], n), self.hold(args[3]))
            return (EMPTY, NIL)
        if name in ("fprintf", "fputs", "fputc", "putc", "vfprintf", "_IO_putc"):
            k = 0 if name in ("fprintf", "vfprintf") else -1
            if not self.console(fr.fn, ins.args[k]):
                t = NIL
                for j, a in enumerate(args):
                    if j != (k % len(args)):
                        t |= self.content(a)
                self.out("text", fr, ins, t, self.hold(args[k]))
            return (EMPTY, NIL)
        if name == "nc_create" or name == "nc_open":
            self.put(args[-1][0], self.content(args[0]) | pc, 0)
            if name == "nc_create":
                self.out("file", fr, ins, self.content(args[0]), self.content(args[0]) | pc)
            return (EMPTY, NIL)
        if name.startswith("nc_get_") or name.startswith("nc_inq"):
            # what a file holds does not depend on how the command was called
            for a in args[1:]:
                if any(isinstance(l, Loc) for l in a[0]) and a is args[-1]:
                    self.put(a[0], pc | self.tags(args[0]) | self.tags(args[1]), 0 if name.startswith("nc_inq") else 1)
            return (EMPTY, NIL)
        if name.startswith(("nc_def_var", "nc_def_dim")) and len(args) >= 4:
            self.put(args[-1][0], pc | self.tags(args[0]) | self.content(args[1]), 0)
            return (EMPTY, NIL)
        if name.startswith("nc_put_var"):
            self.out("var", fr, ins, self.region(args[-1], 1 << 40), self.tags(args[0]) | self.tags(args[1]))
            return (EMPTY, NIL)
        if name.startswith("nc_put_att"):
            self.out("att", fr, ins, self.content(args[-1]) if name.endswith("text") else self.region(args[-1], 8), self.tags(args[0]) | self.tags(args[1]), I.M.cstring(ins.args[2]) or "")
            return (EMPTY, NIL)
        return None

    def region(self, v, n):
        """tags of the first n bytes pointed to"""
        t = self.tags(v)
        for l in v[0]:
            if isinstance(l, Loc):
                if isinstance(l.obj, str) and l.obj.startswith("@"):
                    self.I.global_init(l.obj)
                if l.dims or n is None and l.hi == INF:
                    lo, m = (l.lo, 1 << 40) if not l.dims or l.hi == INF else (l.lo, l.hi - l.lo)
                else:
                    lo, m = l.off, n if n is not None else l.hi - l.off
                for k in self.I.matches(Loc(l.obj, lo, ()), m):
                    t |= self.I.mem[l.obj][k][1] or NIL
        return t

    def console(self, fn, v):
        while isinstance(v, str) and v in fn.defs and fn.defs[v].op in ("load", "bitcast"):
            v = fn.defs[v].args[0]
        return v in ("@stdout", "@stderr", "@\"stderr\"")

    def lib(self, fr, ins, name, args):
        t = NIL
        for a in args:
            t |= self.tags(a)
            if name.startswith("str") or name in ("atoi", "atof", "access", "stat"):
                t |= self.content(a)
        return t


def regions(C, root, letters):
    """instructions executed for one of these options only"""
    f = C.M.funcs[root]
    g, ostr = C.R[root][0]
    import optflow as O
    seen = {}
    for c in list(O.letters(ostr)) + ["?", ":"]:
        def obs(ins, env):
            if ins.block.fn is f:
                seen.setdefault(id(ins), set()).add(c)
        C.W.walk(f, g, {g.res: (None, (ord(c), ord(c), False, False))}, stop=lambda i, e, fn: i is g, observe=obs)
    out = {}
    for k, cs in seen.items():
        if cs <= set(letters):
            out[k] = frozenset(cs)
    return out
