"""Homogeneity domain: how a number scales with a chosen input.

None    nothing known to flow here      "Z"  exactly zero
int k   scales with the k-th power      "T"  scales in no single way
Text is a set of literals ("txt", frozenset).
The source strength enters with degree 1; a value of degree 1 is linear in it:
sums only add equal degrees, and a decision taken on a value of degree >= 1 is
recorded."""
from ir import Const
from absint import Domain, Loc, EMPTY, BOT, INF, adddim, TOPC

COORD = frozenset(["north", "east", "depth", "rcv_va", "rcv_vb", "rcv_rho", "strike", "dip", "rake", "depsrc", "deprcv", "src_va", "src_vb", "src_rho", "layer", "model_param", "model", "modarr"])
SCALE_INVARIANT_CMP = ("uno", "ord")


LIMIT = 24


class Degree(Domain):
    gepdep = False

    def __init__(self, seed=None, source=None, positive=False):
        self.positive = positive        # only positive factors: |x|, hypot, atan2 and ratios keep a degree
        self.seed = seed or (lambda fr, ins, k: 0)     # degree of the k-th field of a text conversion
        self.source = source or (lambda fr, ins, name, args: None)   # degree of data read by a library call
        self.traces = self.fields = 0   # degree of data in files read: traces, NetCDF variables
        self.equal = {}                 # file-name suffixes assumed (not) to match
        self.files = {}
        self.wild = frozenset()         # literals that stand for a quantity of whatever kind (documented safeguards)
        self.silent = frozenset()       # functions whose misuse only matters where the value is used
        self.events = {}        # (where, text) -> chain
        self.cells = {}         # (call, call path) -> {offset: value} of records written
        self.outs = {}          # (kind, call path) -> value

    # ------------------------------------------------------------- lattice
    def join2(self, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and isinstance(b, tuple):
                s = a[1] | b[1]
                return ("txt", s if len(s) <= 40 else frozenset(["*"]))
            return a if isinstance(a, tuple) else b
        if a == "Z":
            return b
        if b == "Z":
            return a
        if a == "W":
            return b
        if b == "W":
            return a
        return "T" if a != b else a

    def num(self, d):
        return 0 if isinstance(d, tuple) else d

    def plain(self, d):
        return None if d == "W" else d          # a safeguard on its own way through a formula: the real value is not here yet

    def event(self, fr, ins, text):
        self.events.setdefault((self.I.M.where(ins), text), fr.chain())

    debug = False

    def dbg(self, *d):
        return " %s" % (d,) if self.debug else ""

    def const(self, v):
        return "Z" if v == 0 else "W" if v in self.wild else 0

    def zero(self):
        return "Z"

    def neutral(self):
        return 0

    def initial(self, obj):
        return None

    def text(self, b):
        return ("txt", frozenset([b.split(b"\0")[0].decode("utf-8", "replace")]))

    def text_of(self, c, ptr):
        return c[1] if isinstance(c[1], tuple) else ("txt", frozenset(["*"]))

    def format(self, fr, ins, fmt, args):
        s = self.I.M.cstring(fmt)
        return ("txt", frozenset([s if s is not None else "*"]))

    def byteset(self, v):
        return "Z" if v[1] in ("Z", None) else 0

    def scanned(self, fr, ins, args):
        return [self.seed(fr, ins, k) for k in range(len(args) - 2)]

    # ------------------------------------------------------------- operations
    def load(self, v, p, ins, fr):
        return v

    def stored(self, v, p, ins, fr):
        return v

    def phi(self, v, ins, fr):
        return v

    def select(self, c, v, ins, fr):
        return v

    def returned(self, v, ins, fr):
        return v

    def called(self, v, ins, fr):
        return v

    def enter(self, nf, fr, ins):
        pass

    def branch(self, ins, v, fr):
        pass

    def cmp(self, ins, a, b, fr):
        x, y = self.num(a[1]), self.num(b[1])
        if ins.op == "fcmp" and ins.extra["pred"] not in SCALE_INVARIANT_CMP:
            if self.positive and None not in (x, y) and "T" not in (x, y) and (x == y or "Z" in (x, y) or "W" in (x, y)):
                return 0                # a positive factor changes neither sign nor order
            if None in (x, y):
                return 0
            for p, q in ((x, y), (y, x)):
                if p not in (None, "Z", "W", 0) and not (q == "Z" and ins.extra["pred"] in ("oeq", "une", "ueq", "one")):
                    self.event(fr, ins, "decides on a value that scales with the input" + self.dbg(x, y))
                    break
        return 0

    def mul(self, a, b):
        a, b = self.plain(a), self.plain(b)
        if a is None or b is None:
            return None
        if a == "Z" or b == "Z":
            return "Z"
        if a == "T" or b == "T":
            return "T"
        r = a + b
        return r if abs(r) <= LIMIT else "T"

    def div(self, a, b, fr=None, ins=None):
        a, b = self.plain(a), self.plain(b)
        if a is None or b is None:
            return None
        if b not in ("Z", 0) and not self.positive and ins is not None:
            self.event(fr, ins, "divides by a value that scales with the input")
        if a == "Z":
            return "Z"
        if b == "Z":
            return None             # nothing usable comes of it
        if a == "T" or b == "T":
            return "T"
        r = a - b
        return r if abs(r) <= LIMIT else "T"

    def add(self, a, b, fr=None, ins=None):
        if a is None or b is None:
            return None
        r = self.join(a, b)
        if r == "T" and "T" not in (a, b) and ins is not None:
            self.event(fr, ins, "adds quantities that scale differently (degree %s and %s)" % (a, b))
        return r

    def arith(self, ins, args, fr):
        d = [self.num(a[1]) for a in args]
        op = ins.op
        if "W" in d:
            d = [0 if x == "W" and isinstance(v, Const) and not (op in ("fadd", "fsub") and 0 < abs(v.val) <= 1e-20 or abs(v.val) >= 1e20) else x for x, v in zip(d, ins.args)]
        if op in ("fadd", "fsub"):
            return self.add(d[0], d[1], fr, ins)
        if op == "fmul":
            return self.mul(*d)
        if op == "fdiv":
            return self.div(d[0], d[1], fr, ins)
        if op in ("fneg", "fpext", "fptrunc"):
            return d[0]
        if op in ("sitofp", "uitofp"):
            return d[0] if d[0] in (None, "Z") else 0
        if op in ("fptosi", "fptoui"):
            d[0] = self.plain(d[0])
            if d[0] not in (None, "Z", 0):
                self.event(fr, ins, "rounds a value that scales with the input to an integer" + self.dbg(d[0]))
                return "T"
            return d[0]
        if any(x is None for x in d):
            return None
        return 0

    NONLIN1 = {"sqrt", "sin", "cos", "tan", "exp", "log", "log10", "pow", "atan", "atan2", "acos", "asin", "cexp", "csqrt", "clog", "expf", "sqrtf", "sinf", "cosf", "fmod", "floor", "ceil", "round",
               "llvm.floor", "llvm.ceil", "llvm.round", "j0", "j1", "jn", "catan", "tanh", "sinh", "cosh", "fabs", "llvm.fabs", "cabs", "hypot", "fmin", "fmax", "llvm.minnum", "llvm.maxnum", "fabsf", "llvm.sqrt", "powf", "llvm.rint", "llvm.nearbyint", "llvm.trunc", "llvm.pow", "llvm.exp", "llvm.log", "llvm.log10", "llvm.sin", "llvm.cos", "log1p", "expm1", "cbrt", "trunc", "rint",
               "lround", "lrint", "copysign", "llvm.copysign", "ldexp", "erf", "erfc", "cpow", "carg", "y0", "y1", "remainder", "fdim", "sincos", "roundf", "floorf", "ceilf", "truncf", "nearbyint"}

    def intercept(self, fr, ins, name, args):
        I = self.I
        src = self.source(fr, ins, name, args)
        if src is not None:
            return src
        if name in ("__muldc3", "__mulsc3", "__mulxc3", "__divdc3", "__divsc3", "__divxc3"):
            d = [self.num(a[1]) for a in args]
            x, y = self.join(d[0], d[1]), self.join(d[2], d[3])
            if None in d:
                return BOT
            return (EMPTY, self.mul(x, y) if "mul" in name else self.div(x, y, fr, ins))
        if name.startswith("llvm.fmuladd") or name == "fma":
            d = [self.num(a[1]) for a in args]
            return (EMPTY, self.add(self.mul(d[0], d[1]), d[2], fr, ins))
        if name in ("creal", "cimag", "conj", "crealf", "cimagf"):
            return (EMPTY, self.join(self.num(args[0][1]), self.num(args[1][1]) if len(args) > 1 else None))
        if name in self.NONLIN1:
            d = [self.num(a[1]) for a in args]
            d = [self.plain(x) if name not in ("hypot", "fmin", "fmax", "llvm.minnum", "llvm.maxnum") else x for x in d]
            if any(x not in (None, "Z", 0, "W") for x in d):
                if self.positive and None not in d:
                    if name in ("llvm.fabs", "fabs", "fabsf"):
                        return (EMPTY, d[0])
                    if name in ("hypot", "fmin", "fmax", "llvm.minnum", "llvm.maxnum"):
                        return (EMPTY, self.add(d[0], d[1], fr, ins))
                    if name in ("sqrt", "sqrtf", "llvm.sqrt") and d[0] != "T":
                        return (EMPTY, d[0] / 2 if d[0] % 2 else d[0] // 2)
                    if name in ("pow", "llvm.pow") and d[0] != "T" and isinstance(ins.args[1], Const) and ins.args[1].val in (2, 3, 4, -1, -2):
                        return (EMPTY, self.mul(d[0] * int(ins.args[1].val), 0))
                    if name == "csqrt":
                        x = self.join(d[0], d[1])
                        if x not in ("T", "Z", None):
                            return (EMPTY, x / 2 if x % 2 else x // 2)
                    if name in ("cabs", "carg") and self.join(d[0], d[1]) != "T":
                        return (EMPTY, self.join(d[0], d[1]) if name == "cabs" else 0)
                    if name == "atan2" and self.join(d[0], d[1]) != "T":
                        return (EMPTY, 0)
                if name not in self.silent:
                    self.event(fr, ins, "applies %s() to a value that scales with the input" % name.replace("llvm.", "") + self.dbg(*d))
                return (EMPTY, "T")
            return (EMPTY, None if None in d else 0, args[0][2] if name in ("round", "llvm.round", "rint", "llvm.rint") and None not in d and len(args[0]) > 2 else TOPC)
        if name.startswith(("fftw_plan_dft", "fftwf_plan_dft")):
            l = I.fresh(fr, ins)
            I.store([Loc(l.obj, 0)], 8, (args[1][0], None))
            I.store([Loc(l.obj, 8)], 8, (args[2][0], None))
            return (frozenset([l]), None)
        if name in ("fftw_execute", "fftwf_execute"):
            for l in args[0][0]:
                if isinstance(l, Loc):
                    i, o = I.load([Loc(l.obj, 0)], 8), I.load([Loc(l.obj, 8)], 8)
                    d = self.num(I.content(i[0])[1])
                    for x in o[0]:
                        if isinstance(x, Loc):
                            I.store([Loc(x.obj, 0, ((4, INF),))], 4, (EMPTY, d))
            return BOT
        if name == "strcmp" and self.equal:
            for k in (0, 1):
                c = I.M.cstring(ins.args[k])
                if c in self.equal:
                    return (EMPTY, 0, frozenset([0 if self.equal[c] else 1]))
        if name == "strlen" and self.equal and self.suffixed(fr.fn, ins):
            return (EMPTY, 0, frozenset([64]))
        if name == "fread":
            n, m = ins.args[1], ins.args[2]
            fixed = all(isinstance(x, Const) and x.kind == "int" for x in (n, m))
            c = n.val * m.val if fixed else None
            d = 0 if fixed else self.traces
            for l in args[0][0]:
                if isinstance(l, Loc):
                    I.store([adddim(l.obj, l.off, l.dims, 4, INF if c is None else max(1, c // 4), 0, INF)], 4, (EMPTY, d))
            return (EMPTY, 0)
        if name.startswith("nc_get_var"):
            names = self.varname(fr, ins, args[1][1])
            d = self.fields if isinstance(names, tuple) and not names[1] & COORD else 0
            for l in args[-1][0]:
                if isinstance(l, Loc):
                    I.store([adddim(l.obj, l.off, l.dims, 4, INF, 0, INF)], 4, (EMPTY, d))
            return (EMPTY, 0)
        if name.startswith("nc_get_att"):
            for l in args[-1][0]:
                if isinstance(l, Loc):
                    I.store([l], 8, (EMPTY, 0))
            return (EMPTY, 0)
        if name in ("nc_def_var", "nc_inq_varid"):
            k = 1 if name == "nc_def_var" else 1
            t = I.content(args[k][0])[1]
            t = t if isinstance(t, tuple) else ("txt", frozenset(["*"]))
            I.store([l for l in args[-1][0] if isinstance(l, Loc)], 4, (EMPTY, t))
            return (EMPTY, 0)
        if name.startswith("nc_inq") or name.startswith("nc_def") or name in ("nc_open", "nc_create"):
            for a in args[1:]:
                for l in a[0]:
                    if isinstance(l, Loc) and not (isinstance(l.obj, str) and l.obj.startswith("@")):
                        if not isinstance(I.content([l])[1], tuple):
                            I.store([l], 8, (EMPTY, 0))
            return (EMPTY, 0)
        if name in ("fopen", "fopen64"):
            l = I.fresh(fr, ins)
            t = I.content(args[0][0])[1]
            self.files[l.obj] = self.join(self.files.get(l.obj), t if isinstance(t, tuple) else ("txt", frozenset(["*"])))
            return (frozenset([l]), None)
        if name == "fwrite":
            n, m = ins.args[1], ins.args[2]
            fixed = all(isinstance(x, Const) and x.kind == "int" for x in (n, m))
            t = frozenset()
            for l in args[3][0]:
                x = self.files.get(l.obj) if isinstance(l, Loc) else None
                t |= x[1] if isinstance(x, tuple) else frozenset(["*"])
            self.out("head" if fixed else "data", t, fr, ins, self.numbers(args[0][0], n.val * m.val if fixed else 1 << 40))
            if fixed:
                self.cells[(ins, fr.ctx)] = self.parts(args[0][0], n.val * m.val)
            return (EMPTY, 0)
        if name.startswith("nc_put_var"):
            t = self.varname(fr, ins, args[1][1])
            self.out("var", t[1] if isinstance(t, tuple) else frozenset(["*"]), fr, ins, self.numbers(args[-1][0], 1 << 40))
            return (EMPTY, 0)
        if name.startswith("nc_put_att_") and name != "nc_put_att_text":
            self.out("att", frozenset([I.M.cstring(ins.args[2]) or "*"]), fr, ins, self.numbers(args[-1][0], 8))
            return (EMPTY, 0)
        self.output(fr, ins, name, args)
        return None

    def varname(self, fr, ins, v):
        """the variable's name: from the nearest lookup of the same identifier, or what its cell holds"""
        fn = fr.fn
        d = fn.defs.get(ins.args[1]) if isinstance(ins.args[1], str) else None
        if d is not None and d.op == "load":
            best = None
            for i in fn.instrs():
                if i.op == "call" and i.callee in ("nc_inq_varid", "nc_def_var") and i.args[-1] == d.args[0] and fn.idominates(i, d):
                    if best is None or fn.idominates(best, i):
                        best = i
            if best is not None:
                t = self.I.content(self.I.value(fr, best.args[1])[0])[1]
                return t if isinstance(t, tuple) else ("txt", frozenset(["*"]))
        return v

    def suffixed(self, fn, ins):
        """is this the length of a file name whose suffix is assumed?"""
        for i in fn.instrs():
            if i.op == "call" and i.callee == "strcmp":
                for k in (0, 1):
                    if self.equal.get(self.I.M.cstring(i.args[k])):
                        todo, seen = [i.args[1 - k]], set()
                        while todo:
                            v = todo.pop()
                            if v == ins.res:
                                return True
                            if isinstance(v, str) and v in fn.defs and v not in seen:
                                seen.add(v)
                                todo += [a for a in fn.defs[v].args if isinstance(a, str)]
        return False

    def numbers(self, ptrs, n):
        v = None
        for l in ptrs:
            if isinstance(l, Loc):
                for k in self.I.matches(Loc(l.obj, l.off if not l.dims else 0, ()), n if not l.dims else 1 << 40):
                    x = self.I.mem[l.obj][k][1]
                    v = self.join(v, x) if not isinstance(x, tuple) else v
        return v

    def parts(self, ptrs, n):
        """degree of every cell of a record"""
        d = {}
        for l in ptrs:
            if isinstance(l, Loc) and not l.dims:
                for k in self.I.matches(l, n):
                    x = self.num(self.I.mem[l.obj][k][1])
                    o = k[0] - l.off if not k[1] else "*"
                    d[o] = self.join(d.get(o), x)
        return d

    def out(self, kind, names, fr, ins, deg):
        self.outs[(kind, ins, fr.ctx)] = (names, deg)

    def output(self, fr, ins, name, args):
        pass

    def lib(self, fr, ins, name, args):
        return 0
