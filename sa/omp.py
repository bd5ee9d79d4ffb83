"""Thread-interference analysis of the OpenMP parallel regions.

Every region (an outlined function handed to the OpenMP runtime) is analysed
together with everything it can call, by a flow-insensitive, context-sensitive
pointer/effect analysis.  Abstract values are sets of atoms

  ("obj", site, off)   memory the region itself created (stack slot / heap block)
  ("sh",  path, part)  memory that exists once for all threads; `part` is None or
                       the affine worksharing index (or thread id) that selects
                       a disjoint part of it
  ("iv", c)            the worksharing index plus c      (c: int or symbolic)
  ("tid",)             the thread number
  ("ivd",)             data that depends on the iteration, not injectively
  ("fn", name)         a function
A write to "sh" memory that is neither partitioned by the worksharing index nor
inside a critical section / atomic is a race; so is an access outside the
critical section that guards the writes, and so are two accesses to different
partitions (index + 0 and index + 1) one of which writes."""
import re
from collections import defaultdict
from ir import Const, CE, operands

EMPTY = frozenset()
MAXPATH = 9

ALLOC = {"malloc", "calloc", "realloc", "fftw_malloc", "fftwf_malloc", "strdup", "fopen", "opendir", "realpath", "reallocarray", "aligned_alloc", "strndup", "fdopen", "tmpfile"}
# library routines with hidden shared state: not callable concurrently
NONREENTRANT = {"strtok", "localtime", "gmtime", "ctime", "asctime", "rand", "srand", "random", "srandom", "drand48", "lrand48",
                "setlocale", "tmpnam", "getopt", "getopt_long", "basename", "dirname", "strsignal", "chdir", "setenv", "putenv", "umask", "lgamma", "signgam",
                "ttyname", "getlogin", "optarg"}
NONREENTRANT_PREFIX = ("nc_", "fftw_plan", "fftwf_plan", "fftw_destroy_plan", "fftwf_destroy_plan", "fftw_cleanup", "fftwf_cleanup", "fftw_import", "fftw_export")
PURE_NC = {"nc_strerror"}
# argument positions a library routine writes through
WRITES = {"llvm.memcpy": [0], "llvm.memmove": [0], "llvm.memset": [0], "memcpy": [0], "memmove": [0], "memset": [0], "strcpy": [0], "strncpy": [0],
          "strcat": [0], "strncat": [0], "sprintf": [0], "snprintf": [0], "vsprintf": [0], "vsnprintf": [0], "fread": [0], "fgets": [0],
          "asprintf": [0], "vasprintf": [0], "qsort": [0], "gettimeofday": [0], "stat": [1], "free": [0], "fftw_free": [0], "fftwf_free": [0],
          "getline": [0, 1], "frexp": [1], "modf": [1], "sincos": [1, 2], "time": [0], "strtod": [1], "strtol": [1], "lgamma_r": [1], "closedir": [0]}
STREAM_WRITES = {"fprintf": 0, "fwrite": 3, "fputs": 1, "fputc": 1, "putc": 1, "fclose": 0, "fseek": 0, "rewind": 0, "fread": 3, "fgets": 2, "fgetc": 0, "vfprintf": 0}


class Access:
    __slots__ = ("path", "part", "write", "lock", "ins", "fn", "why")

    def __init__(self, path, part, write, lock, ins, fn, why):
        self.path, self.part, self.write, self.lock, self.ins, self.fn, self.why = path, part, write, lock, ins, fn, why


def base_callee(n):
    return re.sub(r"\.(p\d+|i\d+|f\d+).*$", "", n) if n.startswith("llvm.") else n


class Region:
    def __init__(self, M, fn):
        self.M, self.fn = M, fn
        self.mem = defaultdict(lambda: EMPTY)      # (site, off) -> atoms   explicit stores
        self.copied = defaultdict(lambda: EMPTY)   # site -> atoms of block copies (value of unknown offset loads)
        self.accesses = {}
        self.issues = {}
        self.ctx = {}
        self.ret = defaultdict(lambda: EMPTY)
        self.changed = True
        self.calls = set()
        self.addr_taken = M._addr_taken

    # ---------------------------------------------------------------- driver
    def run(self):
        args = []
        for i, p in enumerate(self.fn.params):
            if i < 2:
                args.append(frozenset([("obj", "gtid", 0)]))
                self.mem[("gtid", 0)] = frozenset([("tid",)])
            else:
                args.append(frozenset([("sh", ("cap%d" % i,), None)]))
        self.work = {}
        root = (self.fn.name, tuple(args), EMPTY)
        for it in range(60):
            self.changed = False
            self.done = set()
            self.eval_ctx(root)
            if not self.changed:
                break
        self.iterations = it + 1

    def eval_ctx(self, key):
        if key in self.done:
            return self.ret[key]
        self.done.add(key)
        name, args, locks = key
        fn = self.M.funcs[name]
        vals = self.ctx.setdefault(key, {})
        for p, a in zip(fn.params, args):
            vals[p[1]] = a
        for p in fn.params[len(args):]:
            vals[p[1]] = EMPTY
        lockin = self.locks_of(fn, locks)
        order = fn.rpo()
        for _ in range(20):
            ch = False
            for b in order:
                held = lockin.get(b.name, locks)
                for ins in b.instrs:
                    if ins.op == "call" and ins.callee:
                        held = lock_step(ins, held)
                    nv = self.transfer(fn, key, vals, ins, held)
                    if ins.res is not None and nv is not None:
                        old = vals.get(ins.res, EMPTY)
                        j = join(old, nv)
                        if j != old:
                            vals[ins.res] = j
                            ch = True
            if not ch:
                break
            self.changed = True
        return self.ret[key]

    def locks_of(self, fn, locks):
        """must-held critical sections at block entry"""
        c = getattr(fn, "_haslock", None)
        if c is None:
            c = fn._haslock = any(i.op == "call" and i.callee in LOCKCALLS for i in fn.instrs())
        if not c:
            return {}
        inn = {fn.entry.name: locks}
        work = [fn.entry]
        while work:
            b = work.pop()
            h = inn[b.name]
            for i in b.instrs:
                if i.op == "call" and i.callee:
                    h = lock_step(i, h)
            for s in b.succs:
                n = h if s.name not in inn else inn[s.name] & h
                if s.name not in inn or n != inn[s.name]:
                    inn[s.name] = n
                    work.append(s)
        return inn

    # ---------------------------------------------------------------- values
    def val(self, vals, v):
        if isinstance(v, str):
            if v.startswith("%"):
                return vals.get(v, EMPTY)
            n = v[1:]
            if n in self.M.funcs or n in self.M.decls:
                return frozenset([("fn", n)])
            g = self.M.globals.get(v)
            if g is None:
                return EMPTY
            if g["tls"]:
                return frozenset([("obj", "tls:" + n, 0)])
            if g["const"]:
                return frozenset([("sh", ("const:" + n,), None)])
            return frozenset([("sh", ("global:" + n,), None)])
        if isinstance(v, CE):
            if v.op == "getelementptr":
                b = self.val(vals, v.args[0][1])
                off, dyn, _ = self.M.layout.gep(v.ty, [a[1] for a in v.args[1:]])
                return self.gep(b, off, [(self.val(vals, d), s, d) for d, s in dyn])
            out = EMPTY
            for a in v.args:
                out |= self.val(vals, a[1])
            return out
        return EMPTY

    def gep(self, base, off, dyn):
        out = set()
        for a in base:
            if a[0] == "obj":
                if dyn or a[2] == "*":
                    out.add(("obj", a[1], "*"))
                else:
                    out.add(("obj", a[1], a[2] + off))
            elif a[0] == "sh":
                path, part = a[1], a[2]
                if off:
                    path = addoff(path, off)
                for dv, s, _ in dyn:
                    ivs = [x for x in dv if x[0] in ("iv", "tid")]
                    bad = any(x[0] == "ivd" for x in dv)
                    if ivs and not bad and len(ivs) == 1 and part is None:
                        part = ivs[0]
                        path = addstep(path, "[iv]")
                    else:
                        path = addstep(path, "[]")
                out.add(("sh", path, part))
            elif a[0] in ("fn",):
                out.add(a)
        return frozenset(out)

    def access(self, fn, ins, ptr, write, held, why=""):
        for a in ptr:
            if a[0] != "sh":
                continue
            if a[1][0].startswith("const:") and not write:
                continue
            k = (a[1], a[2], write, held, id(ins))
            if k not in self.accesses:
                self.accesses[k] = Access(a[1], a[2], write, held, ins, fn, why)

    def load(self, ptr):
        out = set()
        for a in ptr:
            if a[0] == "obj":
                if a[2] == "*":
                    for (s, o), v in list(self.mem.items()):
                        if s == a[1]:
                            out |= v
                    out |= self.copied[a[1]]
                else:
                    e = self.mem[(a[1], a[2])]
                    out |= e
                    out |= self.mem[(a[1], "*")]
                    if not e:
                        out |= self.copied[a[1]]
            elif a[0] == "sh":
                if a[1][0].startswith("const:"):
                    continue
                out.add(("sh", addstep(a[1], "*"), a[2]))
                if a[2] is not None:
                    out.add(("ivd",))
        return frozenset(out)

    def store(self, ptr, v):
        for a in ptr:
            if a[0] == "obj":
                k = (a[1], a[2])
                n = self.mem[k] | v
                if n != self.mem[k]:
                    self.mem[k] = cap(n)
                    self.changed = True

    # ---------------------------------------------------------------- transfer
    def transfer(self, fn, key, vals, ins, held):
        op = ins.op
        V = lambda v: self.val(vals, v)
        if op == "alloca":
            return frozenset([("obj", "%s:%s" % (fn.name, ins.res), 0)])
        if op == "load":
            p = V(ins.args[0])
            self.access(fn, ins, p, False, held | (ATOMIC if ins.extra.get("atomic") else EMPTY))
            r = self.load(p)
            if ins.ty != "ptr" and not ins.ty.startswith("{"):
                # scalar payload: keep only index/iteration information
                s = frozenset(a for a in r if a[0] in ("iv", "tid", "ivd"))
                if ins.ty.startswith("i") and not s and any(a[0] == "sh" for a in p):
                    return EMPTY
                return s
            return r
        if op == "store":
            p = V(ins.args[1])
            self.access(fn, ins, p, True, held | (ATOMIC if ins.extra.get("atomic") else EMPTY))
            self.store(p, V(ins.args[0]))
            return None
        if op in ("atomicrmw", "cmpxchg"):
            self.access(fn, ins, V(ins.args[0]), True, held | ATOMIC)
            return EMPTY
        if op == "getelementptr":
            off, dyn, _ = self.M.layout.gep(ins.extra["sty"], ins.args[1:])
            return self.gep(V(ins.args[0]), off, [(V(d), s, d) for d, s in dyn])
        if op == "phi":
            out = EMPTY
            for v, _ in ins.extra["in"]:
                out |= V(v)
            ivs = [a for a in out if a[0] == "iv"]
            if len(ivs) > 1:
                # induction phi: [lb, iv+1] -> the index itself
                base = [a for a in ivs if a[1] == 0]
                out = frozenset(a for a in out if a[0] != "iv") | (frozenset(base) if base else frozenset([("ivd",)]))
            return cap(out)
        if op == "select":
            return V(ins.args[1]) | V(ins.args[2])
        if op in ("sext", "zext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr", "addrspacecast"):
            return V(ins.args[0])
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "and", "or", "xor", "lshr", "ashr"):
            return self.arith(op, ins.args, V)
        if op in ("icmp", "fcmp"):
            a = V(ins.args[0]) | V(ins.args[1])
            return frozenset([("ivd",)]) if any(x[0] in ("iv", "ivd") for x in a) else EMPTY
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "frem"):
            a = EMPTY
            for x in ins.args:
                a |= V(x)
            return frozenset([("ivd",)]) if any(x[0] in ("iv", "ivd") for x in a) else EMPTY
        if op in ("extractvalue", "insertvalue", "extractelement", "insertelement", "shufflevector"):
            a = EMPTY
            for x in ins.args:
                a |= V(x)
            return a
        if op == "ret":
            if ins.args:
                v = V(ins.args[0])
                if not v <= self.ret[key]:
                    self.ret[key] = cap(self.ret[key] | v)
                    self.changed = True
            return None
        if op == "call":
            return self.call(fn, key, vals, ins, held)
        return EMPTY

    def arith(self, op, args, V):
        a, b = V(args[0]), V(args[1])
        def c(v):
            return v.val if isinstance(v, Const) and v.kind == "int" else None
        iva = [x for x in a if x[0] in ("iv", "tid")]
        ivb = [x for x in b if x[0] in ("iv", "tid")]
        if not iva and not ivb:
            return frozenset(x for x in a | b if x[0] in ("ivd", "sh", "obj"))
        if iva and ivb:
            return frozenset([("ivd",)])
        x = (iva or ivb)[0]
        other = args[1] if iva else args[0]
        if any(y[0] == "ivd" for y in a | b):
            return frozenset([("ivd",)])
        k = c(other)
        if op == "add" or (op == "sub" and iva):
            if x[0] == "tid":
                return frozenset([x])
            if k is not None:
                k = k if op == "add" else -k
                if isinstance(x[1], int):
                    return frozenset([("iv", x[1] + k)])
                return frozenset([("iv", (x[1][0], x[1][1] + k) if isinstance(x[1], tuple) else x[1])])
            # thread-invariant offset: a named symbolic constant (same for all iterations)
            return frozenset([("iv", ("s", x[1] if isinstance(x[1], int) else x[1][1]))])
        if op == "mul" or op == "shl":
            return frozenset([x]) if (k is None or k != 0) else EMPTY
        if op == "sub":
            return frozenset([x])
        if op in ("udiv", "sdiv") and k == 1:
            return frozenset([x])
        return frozenset([("ivd",)])

    def issue(self, ins, fn, msg):
        self.issues.setdefault((id(ins), msg), (ins, fn, msg))

    def call(self, fn, key, vals, ins, held):
        V = lambda v: self.val(vals, v)
        name = ins.callee
        if name is None:
            tg = [a[1] for a in V(ins.extra["fp"]) if a[0] == "fn"]
            if not tg:
                tg = [f for f in self.addr_taken if len(self.M.funcs[f].params) == len(ins.args)
                      and [p[0] for p in self.M.funcs[f].params] == ins.extra["atys"]]
            out = EMPTY
            for t in tg:
                out |= self.do_call(fn, ins, t, [V(a) for a in ins.args], held)
            return out
        return self.do_call(fn, ins, name, [V(a) for a in ins.args], held)

    def do_call(self, fn, ins, name, args, held):
        if name in self.M.funcs:
            f = self.M.funcs[name]
            self.calls.add(name)
            key = (name, tuple(args[:len(f.params)]), held)
            # sret/byval handled by pointer identity
            return self.eval_ctx(key)
        b = base_callee(name)
        site = "%s:%s" % (fn.name, ins.res)
        if b.startswith("__kmpc_dispatch_next"):
            for i in (3, 4):
                self.store(args[i], frozenset([("iv", 0)]))
            return EMPTY
        if b.startswith("__kmpc_for_static_init"):
            for i in (4, 5):
                self.store(args[i], frozenset([("iv", 0)]))
            return EMPTY
        if b in ("omp_get_thread_num", "__kmpc_global_thread_num"):
            return frozenset([("tid",)])
        if b in ("llvm.threadlocal.address",) or b.startswith("llvm.threadlocal.address"):
            return args[0]
        if b.startswith("__kmpc") or b.startswith("omp_"):
            return EMPTY
        if b in ("llvm.memcpy", "llvm.memmove", "memcpy", "memmove"):
            self.access(fn, ins, args[1], False, held)
            self.access(fn, ins, args[0], True, held)
            got = EMPTY
            for a in args[1]:
                if a[0] == "sh":
                    got |= frozenset([("sh", addstep(a[1], "*"), a[2])])
                elif a[0] == "obj":
                    ln = ins.args[2].val if isinstance(ins.args[2], Const) and ins.args[2].kind == "int" else None
                    for (s, o), v in list(self.mem.items()):
                        if s == a[1]:
                            if a[2] == "*" or o == "*" or ln is None or any(d[0] == "obj" and d[1] == s for d in args[0]):
                                got |= v
                            elif a[2] <= o < a[2] + ln:
                                for d in args[0]:
                                    if d[0] == "obj" and d[2] != "*":
                                        self.store(frozenset([("obj", d[1], d[2] + o - a[2])]), v)
                                    elif d[0] == "obj":
                                        got |= v
                    got |= self.copied[a[1]]
            got = frozenset(x for x in got if x[0] in ("sh", "obj", "fn"))
            for a in args[0]:
                if a[0] == "obj" and not got <= self.copied[a[1]]:
                    self.copied[a[1]] = cap(self.copied[a[1]] | got)
                    self.changed = True
            return args[0] if b.startswith("mem") else EMPTY
        if (b in NONREENTRANT or b.startswith(NONREENTRANT_PREFIX)) and b not in PURE_NC and not (held - ATOMIC):
            self.issue(ins, fn, "calls %s(), which keeps hidden shared state, from concurrently running threads" % b)
        if b in STREAM_WRITES:
            p = args[STREAM_WRITES[b]] if len(args) > STREAM_WRITES[b] else EMPTY
            sh = [a for a in p if a[0] == "sh" and a[2] is None and a[1][0] not in ("global:stderr", "global:stdout")]
            if sh and len(sh) == len([a for a in p if a[0] in ("sh", "obj")]) and not (held - ATOMIC):
                self.issue(ins, fn, "%s() on a file stream shared by all threads" % b)
        if b in ("fopen",):
            mode = self.M.cstring(ins.args[1])
            if mode and mode[0] in "wa" or mode and "+" in mode:
                pv = args[0]
                dep = any(a[0] == "sh" and a[2] is not None for a in pv) or any(a[0] == "ivd" for a in self.deepload(pv))
                if not dep:
                    self.issue(ins, fn, "opens for writing a file whose name does not depend on the iteration")
        if b == "asprintf" or b == "vasprintf":
            self.access(fn, ins, args[0], True, held)
            dep = EMPTY
            for a in args[2:]:
                if any(x[0] in ("iv", "ivd", "tid") for x in a) or any(x[0] == "ivd" for x in self.deepload(a)) or any(x[0] == "sh" and x[2] is not None for x in a):
                    dep = frozenset([("ivd",)])
            o = frozenset([("obj", site, 0)])
            self.store(o, dep)
            self.store(args[0], o)
            return EMPTY
        if b in ("sprintf", "snprintf", "strcpy", "strcat"):
            dep = EMPTY
            for a in args[1:]:
                if any(x[0] in ("iv", "ivd", "tid") for x in a) or any(x[0] == "ivd" for x in self.deepload(a)):
                    dep = frozenset([("ivd",)])
            self.store(args[0], dep)
        for k in WRITES.get(b, ()):
            if k < len(args):
                self.access(fn, ins, args[k], True, held, b)
        if b in ("__isoc23_sscanf", "sscanf", "__isoc99_sscanf", "fscanf", "__isoc99_fscanf", "__isoc23_fscanf"):
            for a in args[2:]:
                self.access(fn, ins, a, True, held, b)
        if b in ALLOC:
            o = frozenset([("obj", site, 0)])
            if b in ("realloc", "reallocarray"):
                self.access(fn, ins, args[0], True, held, b)
                for a in args[0]:
                    if a[0] == "obj":
                        for (s, of), v in list(self.mem.items()):
                            if s == a[1]:
                                self.store(frozenset([("obj", site, of)]), v)
                        if not self.copied[a[1]] <= self.copied[site]:
                            self.copied[site] |= self.copied[a[1]]
                            self.changed = True
            return o
        if b == "qsort":
            for a in args[3]:
                if a[0] == "fn" and a[1] in self.M.funcs:
                    self.do_call(fn, ins, a[1], [args[0], args[0]], held)
        # remaining library routines: results may point into their arguments
        if ins.ty == "ptr":
            out = EMPTY
            for a in args:
                out |= frozenset(x for x in a if x[0] in ("sh", "obj"))
            return out
        return frozenset([("ivd",)]) if any(x[0] in ("iv", "ivd") for a in args for x in a) else EMPTY

    def deepload(self, ptr):
        out = EMPTY
        for a in ptr:
            if a[0] == "obj":
                for (s, o), v in list(self.mem.items()):
                    if s == a[1]:
                        out |= v
        return out

    # ---------------------------------------------------------------- verdict
    def races(self):
        out = []
        acc = list(self.accesses.values())
        writes = [a for a in acc if a.write]
        for w in writes:
            if w.path[0].startswith("const:"):
                continue
            if w.lock & ATOMIC:
                continue
            if w.part is None and not w.lock:
                out.append((w.ins, w.fn, "writes %s, which all threads share, outside any critical section and not partitioned by the loop index"
                            % self.describe(w.path)))
        # accesses outside the lock that guards the writes
        guarded = defaultdict(set)
        for w in writes:
            if w.part is None and w.lock and not (w.lock & ATOMIC):
                guarded[w.path].add(w.lock)
        for a in acc:
            if a.path in guarded and a.part is None:
                for l in guarded[a.path]:
                    if not (a.lock & l) and (not a.write or a.lock):
                        out.append((a.ins, a.fn, "accesses %s without the critical section that guards its writes" % self.describe(a.path)))
                        break
        # partition mismatch
        bypath = defaultdict(list)
        for a in acc:
            if a.part is not None and a.part[0] == "iv":
                bypath[a.path].append(a)
        for p, l in bypath.items():
            ws = [a for a in l if a.write and not a.lock]
            for w in ws:
                for a in l:
                    if a.part != w.part and not a.lock and isinstance(a.part[1], int) and isinstance(w.part[1], int):
                        out.append((a.ins, a.fn, "touches element index%+d of %s while another iteration writes index%+d of it"
                                    % (a.part[1], self.describe(p), w.part[1])))
        # unpartitioned read of an array whose partitions are written
        wp = defaultdict(list)
        for w in writes:
            if w.part is not None and not w.lock:
                wp[normpath(w.path)].append(w)
        for a in acc:
            if not a.write and a.part is None and not a.lock and normpath(a.path) in wp:
                out.append((a.ins, a.fn, "reads elements of %s that other iterations are writing" % self.describe(a.path)))
        for ins, fn, msg in self.issues.values():
            out.append((ins, fn, msg))
        seen, res = set(), []
        for i, f, m in out:
            k = (self.M.where(i), m)
            if k not in seen:
                seen.add(k)
                res.append((i, f, m))
        return res

    def describe(self, path):
        r = path[0]
        if r.startswith("cap"):
            r = "captured variable #%s" % r[3:]
        return r + "".join(str(s) if isinstance(s, str) else "+%d" % s for s in path[1:])


ATOMIC = frozenset(["<atomic>"])
LOCKCALLS = {"__kmpc_critical", "__kmpc_critical_with_hint", "__kmpc_end_critical", "__kmpc_reduce", "__kmpc_reduce_nowait",
             "__kmpc_end_reduce", "__kmpc_end_reduce_nowait", "__kmpc_ordered", "__kmpc_end_ordered", "__kmpc_single", "__kmpc_end_single",
             "__kmpc_master", "__kmpc_end_master", "__kmpc_masked", "__kmpc_end_masked", "omp_set_lock", "omp_unset_lock"}


def lockname(ins):
    for a in ins.args[1:]:
        if isinstance(a, str) and a.startswith("@"):
            return a
    return ins.callee.replace("end_", "").replace("_nowait", "")


def lock_step(ins, held):
    c = ins.callee
    if c not in LOCKCALLS:
        return held
    if c == "omp_set_lock":
        return held | {"omp_lock"}
    if c == "omp_unset_lock":
        return held - {"omp_lock"}
    if "end_" in c:
        return held - {lockname(ins)}
    return held | {lockname(ins)}


def addoff(path, off):
    if isinstance(path[-1], int):
        return path[:-1] + (path[-1] + off,)
    return trim(path + (off,))


def addstep(path, s):
    return trim(path + (s,))


def trim(path):
    return path if len(path) <= MAXPATH else path[:MAXPATH]


def normpath(path):
    return tuple("[]" if s == "[iv]" else s for s in path)


def cap(s):
    if len(s) <= 60:
        return s
    # widen: drop precision of paths
    out = set()
    for a in s:
        if a[0] == "sh":
            out.add(("sh", a[1][:3] + ("...",), a[2]))
        elif a[0] == "obj":
            out.add(("obj", a[1], "*"))
        else:
            out.add(a)
    return frozenset(out)


def join(a, b):
    return cap(a | b)


def address_taken(M):
    out = set()
    for f in M.funcs.values():
        for i in f.instrs():
            ops = operands(i)
            for a in ops:
                if isinstance(a, str) and a.startswith("@") and a[1:] in M.funcs:
                    out.add(a[1:])
    for g in M.globals.values():
        st = [g["init"]]
        while st:
            x = st.pop()
            if isinstance(x, CE):
                st.extend(a[1] for a in x.args)
            elif isinstance(x, str) and x[1:] in M.funcs:
                out.add(x[1:])
    return out


def regions(M):
    """outlined functions handed to the OpenMP runtime, with their parent"""
    out = []
    for f in M.funcs.values():
        for i in f.instrs():
            if i.op == "call" and i.callee and (i.callee.startswith("__kmpc_fork_call") or i.callee.startswith("__kmpc_fork_teams") or i.callee.startswith("__kmpc_omp_task_alloc")):
                for a in i.args:
                    if isinstance(a, str) and a.startswith("@") and a[1:] in M.funcs:
                        out.append((f, i, M.funcs[a[1:]]))
    return out


def analyse(M):
    M._addr_taken = address_taken(M)
    res = []
    for parent, ins, fn in regions(M):
        r = Region(M, fn)
        r.parent, r.site = parent, ins
        r.run()
        res.append(r)
    return res
