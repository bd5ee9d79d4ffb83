"""Where every command writes: the text of every path, from the command line on.

A text is a set of patterns, a pattern a sequence of tokens: literal text,
("opt", letters) the whole argument of an option, ("part", letters) some of it,
("base", letters) its last path component, ("n",) a number, ("c",) a character, and
("?", why) anything else.  Numbers carry no pattern, variable numbers of NetCDF
files ("new",) or ("old",)."""
import re
from absint import Domain, Loc, EMPTY, BOT, adddim, INF
from ir import Const

NIL = frozenset()
DIRECTIVE = re.compile(r"%(?:%|[-+ #0]*(\*|\d*)(?:\.(?:\*|\d*))?(?:hh|h|ll|l|j|z|t|L)?([a-zA-Z]))")
CAP = 96
MATH = re.compile(r"llvm\.(?!memcpy|memmove)|(exit|abort|fflush|memset|fprintf|perror|a?(sin|cos|tan)h?|c?(exp|log|sqrt|pow|abs)|atan2|hypot|f?abs|floor|ceil|l?l?round|fm(od|in|ax)|l?log(10|2|1p)|expm1|cbrt|c(real|imag|arg|sin|cos|sinh|cosh|tan)|__mul.c3|__div.c3|l?gamma|erf|sincos|free|is(nan|inf))(f|l)?$")


def squeeze(p):
    out = []
    for t in p:
        if isinstance(t, str):
            if not t:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += t
                continue
        elif out and out[-1] == t and t[0] in ("?", "n"):
            continue
        out.append(t)
    for i, t in enumerate(out):                 # text that keeps growing
        if isinstance(t, str) and len(t) > 400:
            return tuple(out[:i]) + (("?", "long"),)
    if len(out) > 16:
        out = out[:15] + [("?", "long")]
    return tuple(out)


def part(p):
    """some of the text p"""
    if not p:
        return p
    if len(p) == 1 and isinstance(p[0], tuple):
        return (("part", p[0][1]),) if p[0][0] in ("opt", "part") else p
    if all(isinstance(t, tuple) and t[0] in ("n", "c") for t in p):
        return p
    ls = frozenset().union(*[t[1] for t in p if isinstance(t, tuple) and t[0] in ("opt", "part", "base")] or [NIL])
    return (("part", ls),) if ls else (("?", "part of " + show(p)),)


def show(p):
    s = ""
    for t in p:
        s += t if isinstance(t, str) else {"opt": "<-%s>", "part": "<part of -%s>", "base": "<name of -%s>"}[t[0]] % "/".join(sorted(t[1])) if t[0] in ("opt", "part", "base") else "#" if t[0] == "n" else "@" if t[0] == "c" else "<?%s>" % (" " + t[1] if len(t) > 1 else "")
    return s


OPEN = {("?", "many"), ("?", "long")}


def absorb(ps):
    """a pattern with an open end stands for everything that begins like it"""
    ends = [p[:-1] for p in ps if p and p[-1] in OPEN]
    if not ends:
        return ps
    keep = set()
    for p in ps:
        q = p[:-1] if p and p[-1] in OPEN else None
        if not any(p[:len(e)] == e and (q is None or len(e) < len(q)) for e in ends if e != q):
            keep.add(p if q is None else q + (("?", "many"),))
    return frozenset(keep)


def cap(ps):
    ps = absorb(frozenset(squeeze(p) for p in ps))
    n = 3
    while len(ps) > CAP and n >= 0:
        heads = {}
        for p in ps:
            heads.setdefault(p[:n], []).append(p)
        ps = absorb(frozenset(h + (("?", "many"),) if len(v) > 1 else v[0] for h, v in heads.items()))
        n -= 1
    return ps


class Paths(Domain):
    bot = None
    gepdep = False
    blind = True

    def __init__(self, letters):
        self.letters = letters           # id(instruction of the command) -> options it is executed for
        self.sites = {}                  # (ins, ctx) -> (kind, patterns, chain)
        self.puts = {}
        self.toks = {}
        self.handles = {}
        self.I = None

    def join2(self, a, b):
        return a if a == b else cap(a | b)

    def const(self, v):
        return NIL

    def zero(self):
        return NIL

    def neutral(self):
        return NIL

    def byteset(self, v):
        return NIL

    def initial(self, obj):
        return frozenset([(obj,)]) if isinstance(obj, tuple) and obj and obj[0] == "opt" else None

    def text(self, b):
        return frozenset([squeeze((b.split(b"\0")[0].decode("utf-8", "replace"),))])

    def text_of(self, c, ptr):
        return self.words(ptr)

    def words(self, v):
        """the texts a pointer may stand for"""
        out = set()
        I = self.I
        for l in v[0]:
            if not isinstance(l, Loc):
                continue
            if I.cur is not None:
                I.cur.reads.add(l.obj)
            if isinstance(l.obj, tuple) and l.obj and l.obj[0] == "opt":
                p = (l.obj,)
                out.add(p if not l.dims and l.off == 0 else part(p))
                continue
            if l.obj == "argv":
                out.add((("?", "word of the command line"),))
                continue
            if isinstance(l.obj, str) and l.obj.startswith("@"):
                I.global_init(l.obj)
            if l.dims or l.hi == INF:
                lo, m = l.lo if l.dims else l.off, 1 << 40 if l.hi == INF else l.hi - l.lo
            else:
                lo, m = l.off, l.hi - l.off
            for k in I.matches(Loc(l.obj, lo, ()), m):
                for p in I.mem[l.obj][k][1] or ():
                    whole = not l.dims and (k[0] == l.off)
                    out.add(p if whole else part(p))
        return cap(out)

    def format(self, fr, ins, fmt, args):
        s = self.I.M.cstring(fmt)
        fs = [s] if s is not None else None
        if fs is None:
            fs = []
            for p in self.words(self.I.value(fr, fmt)):
                if all(isinstance(t, str) for t in p):
                    fs.append("".join(p))
                else:
                    return frozenset([(("?", "format"),)])
        out = set()
        for f in fs:
            cur = {()}
            pos = k = 0
            for m in DIRECTIVE.finditer(f):
                lit = f[pos:m.start()]
                pos = m.end()
                if m.group(2) is None:
                    add = {("%",)}
                else:
                    k += m.group(0).count("*")
                    if m.group(2) == "s":
                        add = self.words(args[k]) if k < len(args) else {(("?", "format"),)}
                        if not add:
                            add = {(("?", "text"),)}
                    else:
                        add = {(("c",),)} if m.group(2) == "c" else {(("n",),)}
                    k += 1
                cur = {squeeze(a + (lit,) + b) for a in cur for b in add}
                if len(cur) > 4 * CAP:
                    cur = set(cap(cur))
            out |= {squeeze(a + (f[pos:],)) for a in cur}
        return cap(out)

    def scanned(self, fr, ins, args):
        w = self.words(args[0])
        t = cap(part(p) for p in w) or frozenset([(("?", "input"),)])
        fs = self.I.M.cstring(ins.args[1]) or ""
        kinds = [m.group(2) for m in re.finditer(r"%(?:%|(\*?)\d*(?:hh|h|ll|l|L|m)?([a-zA-Z]|\[\^?\]?[^\]]*\]))", fs) if m.group(2) and not m.group(1)]
        return [t if k < len(kinds) and kinds[k][0] in "s[" else frozenset([(("c",),)]) if k < len(kinds) and kinds[k] == "c" else NIL for k in range(len(args) - 2)]

    def where(self, fr, ins):
        """the options this instruction is executed for"""
        while fr is not None:
            ls = self.letters.get(id(ins))
            if ls:
                return ls
            fr, ins = fr.up, fr.site
        return frozenset("?")

    def load(self, v, p, ins, fr):
        if any(isinstance(l, Loc) and l.obj == "@optarg" for l in p[0]):
            return (frozenset([Loc(("opt", self.where(fr, ins)))]), NIL)
        if any(isinstance(l, Loc) and l.obj == "argv" for l in p[0]):
            return (v[0] | frozenset([Loc(("opt", frozenset([""])))]), NIL) + tuple(v[2:])
        return v

    def stored(self, v, p, ins, fr):
        if self.I.M.layout.size(ins.extra["valty"]) == 1:
            x = ins.args[0]
            if isinstance(x, Const) and x.kind == "int" and x.val == 0:
                return (EMPTY, NIL) + tuple(v[2:])
            if not (v[1]):
                return (v[0], frozenset([(("c",),)])) + tuple(v[2:])
        return v

    def phi(self, v, ins, fr):
        return v

    def select(self, c, v, ins, fr):
        return v

    def returned(self, v, ins, fr):
        return v

    def called(self, v, ins, fr):
        return v

    def enter(self, nf, fr, ins):
        pass

    def branch(self, ins, v, fr):
        pass

    def cmp(self, ins, a, b, fr):
        return NIL

    def arith(self, ins, args, fr):
        t = NIL
        for a in args:
            t |= a[1] or NIL
        return t

    # ------------------------------------------------------------- calls
    def site(self, kind, fr, ins, ps):
        self.sites[(kind, ins, fr.ctx)] = (ps, fr.chain())

    def put(self, v, ps, n=1):
        for l in v[0]:
            if isinstance(l, Loc) and not (isinstance(l.obj, str) and l.obj.startswith("@")):
                self.I.store([Loc(l.obj, l.off, l.dims + ((1, INF),)) if n == 1 else l], n, (EMPTY, ps))

    def nid(self, v):
        """files a NetCDF number stands for"""
        return frozenset(p for p in (v[1] or NIL) if p and p[0] == ("nc",))

    def pointers(self, ty):
        fs = self.I.M.layout.fields(ty)
        if fs is not None:
            return any(self.pointers(x) for x in fs)
        m = re.match(r"^\[\d+ x (.*)\]$", ty)
        return self.pointers(m.group(1)) if m else ty in ("ptr", "i8")

    def numeric(self, name):
        """a function that handles numbers only: no text, no pointers kept"""
        f = self.I.M.funcs.get(name)
        if f is None:
            return bool(MATH.match(name or ""))
        r = f.__dict__.get("_numeric")
        if r is not None:
            return r
        f.__dict__["_numeric"] = False           # recursion
        r = True
        for i in f.instrs():
            if i.op == "store" and i.extra["valty"] in ("ptr", "i8"):
                b = self.I.base(f, i.args[1])[0]
                r = isinstance(b, str) and b in f.defs and f.defs[b].op == "alloca"
            elif i.op == "call":
                if i.callee in ("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memcpy"):
                    r = False
                    for k in (0, 1):
                        b = self.I.base(f, i.args[k])[0]
                        if isinstance(b, str) and b in f.defs and f.defs[b].op == "alloca" and (k == 0 or not self.pointers(f.defs[b].extra["alloc"])):
                            r = True
                else:
                    r = str(i.callee).startswith(("_ZTW", "_ZTH")) or i.ty != "ptr" and self.numeric(i.callee)
            if not r:
                break
        f.__dict__["_numeric"] = r
        return r

    def intercept(self, fr, ins, name, args):
        I = self.I
        w = self.words
        if (name or "").startswith(("_ZTW", "_ZTH")):
            return (EMPTY, NIL)
        if name in I.M.funcs:
            return (EMPTY, NIL) if ins.ty != "ptr" and self.numeric(name) else None
        if name in ("fopen", "fopen64", "freopen", "open", "open64", "creat"):
            mode = I.M.cstring(ins.args[1]) if name.startswith("f") else "?"
            ps = w(args[0])
            if mode is None:
                ms = w(args[1])
                mode = "r" if ms and all(len(p) == 1 and isinstance(p[0], str) and p[0][0] == "r" and "+" not in p[0] for p in ms) else "?"
            self.site("read" if mode[0] == "r" and "+" not in mode else "append" if mode[0] == "a" else "write", fr, ins, ps)
            return (frozenset([I.fresh(fr, ins)]), NIL)
        if name in ("mkdir", "mkfifo", "mknod"):
            self.site("mkdir", fr, ins, w(args[0]))
            return (EMPTY, NIL)
        if name in ("remove", "unlink", "rmdir", "rename", "link", "symlink", "truncate", "chmod", "chown", "utime", "system", "popen", "execv", "execvp", "execl", "execlp", "chdir", "renameat", "unlinkat", "fork", "tmpfile", "nftw", "ftruncate", "umask",
                    "chroot", "posix_spawn", "dlopen", "kill", "copy_file_range", "sendfile", "linkat", "mkstemp", "mkdtemp"):
            self.site(name, fr, ins, w(args[0]) if args else NIL)
            return (EMPTY, NIL)
        if name == "opendir":
            self.site("read", fr, ins, w(args[0]))
            return (frozenset([I.fresh(fr, ins)]), NIL)
        if name in ("nc_create", "nc_open", "nc__create", "nc__open"):
            ps = w(args[0])
            m = ins.args[1]
            kind = "write"
            if name.endswith("open"):
                kind = "read" if isinstance(m, Const) and m.kind == "int" and not m.val & 1 else "update"
            self.site(kind, fr, ins, ps)
            I.store(args[-1][0], 4, (EMPTY, frozenset((("nc",), kind) + p for p in ps)))
            return (EMPTY, NIL)
        if name in ("nc_def_var", "nc_def_dim", "nc_def_grp"):
            I.store(args[-1][0], 4, (EMPTY, frozenset([("new",)])))
            return (EMPTY, NIL)
        if name in ("nc_inq_varid", "nc_inq_dimid", "nc_inq_grp_ncid"):
            I.store(args[-1][0], 4, (EMPTY, frozenset([("old",)])))
            return (EMPTY, NIL)
        if name.startswith("nc_"):
            if name.startswith(("nc_put_var", "nc_put_att", "nc_del", "nc_rename", "nc_copy", "nc_set", "nc_redef", "nc_def")):
                k = 0 if not name.startswith("nc_copy") else 2
                kinds = frozenset(p[1] for p in self.nid(args[k]))
                self.puts[(name, ins, fr.ctx)] = (kinds, frozenset(p[0] for p in (args[1][1] or NIL) if p and p[0] in ("new", "old")) if len(args) > 1 else NIL,
                                                  ins.args[1] if len(args) > 1 else None, fr.chain())
            for a in args[1:]:
                if any(isinstance(l, Loc) for l in a[0]) and name.startswith(("nc_get_att_text", "nc_inq_varname", "nc_inq_attname", "nc_get_att_string")):
                    self.put(a, frozenset([(("?", "text of a file"),)]))
            return (EMPTY, NIL)
        if name in ("sprintf", "snprintf", "__sprintf_chk", "__snprintf_chk", "strcpy", "strncpy", "strcat", "strncat", "stpcpy", "memcpy_text"):
            k = {"sprintf": 1, "snprintf": 2, "__sprintf_chk": 3, "__snprintf_chk": 4}.get(name)
            new = self.format(fr, ins, ins.args[k], args[k + 1:]) if k else w(args[1])
            if name in ("snprintf", "__snprintf_chk"):
                n = ins.args[1]
                if isinstance(n, Const) and n.kind == "int" and n.val < 1000:
                    new = cap(set(new) | {part(p) for p in new if any(isinstance(t, tuple) and t[0] in ("opt", "part") for t in p)})
            if name in ("strncpy", "strncat"):
                new = cap(set(new) | {part(p) for p in new})
            for l in args[0][0]:
                if not isinstance(l, Loc) or isinstance(l.obj, str) and l.obj.startswith("@") or l.obj == "argv" or isinstance(l.obj, tuple) and l.obj[0] == "opt":
                    continue
                inside = l.dims or l.off
                old = NIL
                start = l
                if name in ("strcat", "strncat"):
                    old = w((frozenset([l]), None))
                elif inside:
                    # appended to a text that starts before it in the same array?
                    for key in list(I.mem.get(l.obj, {})):
                        x = I.mem[l.obj][key][1]
                        if x and key[0] < max(l.off, 1) and (l.dims or key[0] != l.off) and key[0] >= l.lo - 0 and key[2] == 1 and any(p and (isinstance(p[0], str) or p[0][0] in ("opt", "part", "base", "?")) for p in x):
                            old |= x
                            start = Loc(l.obj, key[0])
                if old:
                    new2 = cap({squeeze(a + b) for a in old for b in new})
                    I.store([Loc(start.obj, start.off, ((1, INF),)) if not start.dims else start], 1, (EMPTY, new2))
                else:
                    I.store([Loc(l.obj, l.off, l.dims + ((1, INF),), l.lo, l.hi) if not l.dims else l], 1, (EMPTY, new))
            return (args[0][0], NIL)
        if name in ("fgets", "getline", "fread"):
            k = 0
            if name == "getline":
                return None
            if not (name == "fread" and isinstance(ins.args[1], Const) and ins.args[1].kind == "int" and ins.args[1].val != 1):
                self.put(args[k], frozenset([(("?", "text of a file"),)]))
            return (args[0][0], NIL)
        if name in ("basename", "__xpg_basename"):
            l = I.fresh(fr, ins)
            ps = cap(("base", p[0][1]) and (("base", p[0][1]),) if len(p) == 1 and isinstance(p[0], tuple) and p[0][0] in ("opt", "part", "base") else (("base", frozenset(["file"])),) for p in w(args[0]))
            I.store([Loc(l.obj, 0, ((1, INF),))], 1, (EMPTY, ps))
            return (frozenset([l]), NIL)
        if name in ("strrchr", "strchr"):
            # the part behind the last '/' is a name
            c = ins.args[1]
            if name == "strrchr" and isinstance(c, Const) and c.val == 47:
                l = I.fresh(fr, ins)
                ps = cap((("base", p[0][1]),) if len(p) == 1 and isinstance(p[0], tuple) and p[0][0] in ("opt", "part", "base") else (("base", frozenset(["file"])),) for p in w(args[0]))
                I.store([Loc(l.obj, 0, ((1, INF),))], 1, (EMPTY, ps))
                return (frozenset([l]), NIL)
        if name in ("strtok", "strtok_r", "strsep", "__strtok_r"):
            src = args[0]
            if name == "strsep":
                src = I.load(src[0], 8)
            ls = frozenset(l for l in src[0] if isinstance(l, Loc))
            key = (fr.fn.name, name, self.where(fr, ins))
            self.toks[key] = ls = self.toks.get(key, EMPTY) | ls
            return (frozenset(Loc(l.obj, 0, ((1, INF),)) for l in ls), NIL)
        if name in ("getenv", "secure_getenv"):
            l = I.fresh(fr, ins)
            I.store([Loc(l.obj, 0, ((1, INF),))], 1, (EMPTY, frozenset([(("?", "environment"),)])))
            return (frozenset([l]), NIL)
        return None

    def lib(self, fr, ins, name, args):
        return NIL


ANY, DIG = None, frozenset("0123456789+-.eExXinfaNI")


def elements(p):
    out = []
    for t in p:
        if isinstance(t, str):
            out += [(frozenset(c), False) for c in t]
        else:
            out.append((DIG, True) if t[0] == "n" else (ANY, False) if t[0] == "c" else (ANY, True))
    return out


def overlap(p, q):
    """can the two patterns stand for the same text?  A first token that is the same option is the same text"""
    if p and q and isinstance(p[0], tuple) and p[0][0] in ("opt", "part"):
        if p[0] != q[0]:
            return False
        p, q = p[1:], q[1:]
    elif q and isinstance(q[0], tuple) and q[0][0] in ("opt", "part"):
        return False
    a, b = elements(p), elements(q)
    seen, todo = set(), [(0, 0)]
    while todo:
        i, j = todo.pop()
        if (i, j) in seen:
            continue
        seen.add((i, j))
        if i == len(a) and j == len(b):
            return True
        if i < len(a) and a[i][1]:
            todo.append((i + 1, j))
        if j < len(b) and b[j][1]:
            todo.append((i, j + 1))
        if i < len(a) and j < len(b) and (a[i][0] is None or b[j][0] is None or a[i][0] & b[j][0]):
            todo.append((i if a[i][1] else i + 1, j if b[j][1] else j + 1))
    return False


def letters(C, root):
    import optflow as O
    f = C.M.funcs[root]
    g, ostr = C.R[root][0]
    seen = {}
    for c in list(O.letters(ostr)) + ["?", ":"]:
        def obs(ins, env):
            if ins.block.fn is f:
                seen.setdefault(id(ins), set()).add(c)
        C.W.walk(f, g, {g.res: (None, (ord(c), ord(c), False, False))}, stop=lambda i, e, fn: i is g, observe=obs)
    n = len(list(O.letters(ostr)))
    return {k: frozenset(v) for k, v in seen.items() if len(v) < n}


# ------------------------------------------------ copying a file onto itself
SAMEFILE = {"realpath", "canonicalize_file_name", "stat", "fstat", "fstatat", "stat64", "lstat", "_fullpath", "GetFullPathNameA"}


def roots(M, f, v, seen=None, calls=None):
    """parameters, allocations and globals a value of f is made from; calls: names of the functions it went through"""
    seen = set() if seen is None else seen
    out = set()
    if not isinstance(v, str) or v in seen:
        return out
    seen.add(v)
    d = f.defs.get(v)
    if d is None:
        return {v}
    if d.op == "alloca":
        out.add(v)
        for i in f.instrs():
            if i.op == "call" and any(a == v or derived(f, a, v) for a in i.args):
                if calls is not None:
                    calls.add(i.callee)
                for a in i.args:
                    out |= roots(M, f, a, seen, calls)
            elif i.op == "store" and (i.args[1] == v or derived(f, i.args[1], v)):
                out |= roots(M, f, i.args[0], seen, calls)
        return out
    if d.op == "call" and calls is not None:
        calls.add(d.callee)
    for a in d.args:
        out |= roots(M, f, a, seen, calls)
    if d.op == "phi":
        import influence
        for x, pr in d.extra["in"]:
            out |= roots(M, f, x, seen, calls)
            b = f.blocks[pr] if isinstance(f.blocks, dict) else next(q for q in f.blocks if q.name == pr)
            for t in influence.control(f).get(pr, []) + [b.instrs[-1]]:       # which way it came
                if t.op in ("br", "switch") and t.args and t.block is not d.block:
                    out |= roots(M, f, t.args[0], seen, calls)
    return out


def derived(f, a, v):
    while isinstance(a, str) and a in f.defs and f.defs[a].op in ("getelementptr", "bitcast"):
        a = f.defs[a].args[0]
    return a == v


def reaches(M, name, names, seen=None):
    seen = set() if seen is None else seen
    if name in names:
        return True
    if name in seen or name not in M.funcs:
        return False
    seen.add(name)
    return any(i.op == "call" and reaches(M, i.callee, names, seen) for i in M.funcs[name].instrs())


def copies(M):
    """(function, write site, whether it is skipped when both names are the same file)"""
    import influence
    for f in M.funcs.values():
        opens = [i for i in f.instrs() if i.op == "call" and i.callee in ("fopen", "fopen64")]
        rd = [i for i in opens if (M.cstring(i.args[1]) or "?")[0] == "r"]
        wr = [i for i in opens if (M.cstring(i.args[1]) or "?")[0] == "w"]
        for w in wr:
            for r in rd:
                if not {x for x in roots(M, f, w.args[0])} or r.args[0] == w.args[0]:
                    continue
                if not any(i.op == "call" and i.callee in ("fread", "fgets", "fgetc", "getc", "getline") and f.idominates(r, i) for i in f.instrs()):
                    continue
                a, b = roots(M, f, r.args[0]), roots(M, f, w.args[0])
                ok = False
                for t in influence.control(f).get(w.block.name, ()):
                    if not t.args:
                        continue
                    calls = set()
                    c = roots(M, f, t.args[0], None, calls)
                    if c & (a - b) and c & (b - a) and any(reaches(M, n, SAMEFILE) for n in calls):
                        ok = True
                yield f, w, ok
