"""LLVM IR (textual, LLVM 18, opaque pointers) -> Python objects.

The analysers work on the compiler's own intermediate representation of
/repo's current sources: callees, types, struct fields and control flow are
resolved by clang, not guessed from text."""
import re, struct, bisect
from collections import defaultdict, OrderedDict


class IRError(Exception):
    pass


# ------------------------------------------------------------------ values
class Const:
    __slots__ = ("kind", "val")

    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val

    def __repr__(self):
        return "Const(%s,%r)" % (self.kind, self.val)

    def __eq__(self, o):
        return isinstance(o, Const) and (self.kind, repr(self.val)) == (o.kind, repr(o.val))

    def __hash__(self):
        return hash((self.kind, repr(self.val)))


class CE:  # constant expression / aggregate
    __slots__ = ("op", "ty", "args")

    def __init__(self, op, ty, args):
        self.op, self.ty, self.args = op, ty, args

    def __repr__(self):
        return "CE(%s,%s,%r)" % (self.op, self.ty, self.args)


class Instr:
    __slots__ = ("op", "res", "ty", "args", "extra", "dbg", "block", "idx", "text")

    def __init__(self, op, res=None, ty=None, args=(), extra=None, dbg=None, text=""):
        self.op, self.res, self.ty, self.args, self.extra, self.dbg = op, res, ty, list(args), extra or {}, dbg
        self.text = text
        self.block = None
        self.idx = -1

    @property
    def callee(self):
        return self.extra.get("callee")

    def __repr__(self):
        return self.text.strip()


class Block:
    __slots__ = ("name", "instrs", "succs", "preds", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.instrs, self.succs, self.preds = [], [], []

    @property
    def term(self):
        return self.instrs[-1]

    def __repr__(self):
        return "<%s:%s>" % (self.fn.name, self.name)


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, name)
        self.ret = None
        self.internal = False
        self.blocks = OrderedDict()
        self.defs = {}
        self.dbg = None
        self.vararg = False
        self._dom = self._pdom = None
        self._uses = None
        self.module = None

    @property
    def entry(self):
        return next(iter(self.blocks.values()))

    def instrs(self):
        for b in self.blocks.values():
            yield from b.instrs

    def finish(self):
        self.defs = {}
        for b in self.blocks.values():
            b.succs, b.preds = [], []
        for b in self.blocks.values():
            for i, ins in enumerate(b.instrs):
                ins.block, ins.idx = b, i
                if ins.res:
                    self.defs[ins.res] = ins
            t = b.instrs[-1]
            for s in t.extra.get("succ", ()):
                sb = self.blocks[s]
                if sb not in b.succs:
                    b.succs.append(sb)
                if b not in sb.preds:
                    sb.preds.append(b)
        self._dom = self._pdom = self._uses = None

    # uses: value name -> [Instr]
    @property
    def uses(self):
        if self._uses is None:
            u = defaultdict(list)
            for ins in self.instrs():
                for a in operands(ins):
                    if isinstance(a, str):
                        u[a].append(ins)
            self._uses = u
        return self._uses

    def rpo(self):
        seen, out = set(), []
        stack = [(self.entry, iter(self.entry.succs))]
        seen.add(self.entry.name)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s.name not in seen:
                    seen.add(s.name)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                out.append(b)
                stack.pop()
        return out[::-1]

    def dom(self):
        """block name -> idom block name"""
        if self._dom is None:
            order = self.rpo()
            self._dom = _idoms([b.name for b in order], {b.name: [p.name for p in b.preds] for b in order})
        return self._dom

    def dominates(self, a, b):
        d = self.dom()
        if b not in d:
            return True
        while b is not None:
            if a == b:
                return True
            b = d[b]
        return False

    def idominates(self, i1, i2):
        if i1.block is i2.block:
            return i1.idx <= i2.idx
        return self.dominates(i1.block.name, i2.block.name)


def _idoms(order, preds):
    idx = {n: i for i, n in enumerate(order)}
    idom = {order[0]: order[0]}
    changed = True
    while changed:
        changed = False
        for n in order[1:]:
            new = None
            for p in preds[n]:
                if p in idom and p in idx:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while idx[a] > idx[b]:
                                a = idom[a]
                            while idx[b] > idx[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(n) != new:
                idom[n] = new
                changed = True
    idom[order[0]] = None
    return idom


def operands(ins):
    """all value operands including phi incomings and callee pointer"""
    out = list(ins.args)
    if ins.op == "phi":
        out = [v for v, _ in ins.extra["in"]]
    if ins.op == "call" and isinstance(ins.extra.get("fp"), str):
        out.append(ins.extra["fp"])
    res = []
    for a in out:
        if isinstance(a, CE):
            _ce_leaves(a, res)
        else:
            res.append(a)
    return res


def _ce_leaves(ce, out):
    for a in ce.args:
        if isinstance(a, CE):
            _ce_leaves(a, out)
        elif isinstance(a, tuple):
            v = a[1]
            if isinstance(v, CE):
                _ce_leaves(v, out)
            else:
                out.append(v)
        else:
            out.append(a)


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self._mdcache = {}

    # -------- debug info helpers
    def loc(self, ins):
        """(file, line) of an instruction, innermost inlined location"""
        return self._loc(ins.dbg) if ins.dbg else (None, 0)

    def _loc(self, d):
        n = self.mdnode(d)
        if not n:
            return (None, 0)
        return (self._scope_file(n.get("scope")), int(n.get("line", 0) or 0))

    def _scope_file(self, s):
        while s:
            n = self.mdnode(s)
            if n is None:
                return None
            if n.get("file"):
                f = self.mdnode(n["file"])
                if f:
                    return f.get("filename", "").strip('"')
            s = n.get("scope")
        return None

    def scope_func(self, ins):
        """name of the innermost source function of an instruction"""
        d = ins.dbg
        n = self.mdnode(d) if d else None
        s = n.get("scope") if n else None
        while s:
            n = self.mdnode(s)
            if n is None:
                return None
            if n["_kind"] == "DISubprogram":
                return n.get("name", "").strip('"')
            s = n.get("scope")
        return None

    def mdnode(self, ref):
        if ref is None:
            return None
        if ref in self._mdcache:
            return self._mdcache[ref]
        t = self.md.get(ref)
        n = None
        if t is not None:
            m = re.match(r"(?:distinct )?!(\w+)\((.*)\)\s*$", t, re.S)
            if m:
                n = {"_kind": m.group(1)}
                for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,]+)', m.group(2)):
                    n[k] = v.strip()
            else:
                m = re.match(r"(?:distinct )?!\{(.*)\}\s*$", t, re.S)
                if m:
                    n = {"_kind": "tuple", "elems": [x.strip() for x in m.group(1).split(",")] if m.group(1).strip() else []}
        self._mdcache[ref] = n
        return n

    def where(self, ins):
        f, l = self.loc(ins)
        return "%s:%s" % (f, l)

    def cstring(self, v):
        """constant C string a value points at, or None"""
        off = 0
        if isinstance(v, CE) and v.op == "getelementptr":
            base = v.args[0][1]
            idx = [a[1].val for a in v.args[1:] if isinstance(a[1], Const)]
            if isinstance(base, str) and base.startswith("@"):
                g = self.globals.get(base)
                if g and isinstance(g["init"], Const) and g["init"].kind == "str":
                    off = idx[-1] if v.ty.startswith("i8") or len(idx) > 1 else 0
                    s = g["init"].val[off:]
                    return s.split(b"\0")[0].decode("utf-8", "replace")
            return None
        if isinstance(v, str) and v.startswith("@"):
            g = self.globals.get(v)
            if g and isinstance(g["init"], Const) and g["init"].kind == "str":
                return g["init"].val.split(b"\0")[0].decode("utf-8", "replace")
            if g and isinstance(g["init"], Const) and g["init"].kind == "zero":
                return ""
        return None

    def cstrings(self, fn, v, seen=None):
        """all constant strings a value can be (through joins, parameters and
        locals stored once), or None when some source is not a constant"""
        seen = set() if seen is None else seen
        c = self.cstring(v)
        if c is not None:
            return {c}
        if not isinstance(v, str) or v.startswith("@"):
            return None
        if (fn.name, v) in seen:
            return set()
        seen.add((fn.name, v))
        d = fn.defs.get(v)
        src = None
        if d is None:
            for k, p in enumerate(fn.params):
                if p[1] == v:
                    src = [(g, i.args[k]) for g in self.funcs.values() for i in g.instrs()
                           if i.op == "call" and i.callee == fn.name and k < len(i.args)]
        elif d.op == "phi":
            src = [(fn, x) for x, _ in d.extra["in"]]
        elif d.op == "select":
            src = [(fn, x) for x in d.args[1:]]
        elif d.op in ("freeze", "bitcast"):
            src = [(fn, d.args[0])]
        if not src:
            return None
        out = set()
        for g, x in src:
            r = self.cstrings(g, x, seen)
            if r is None:
                return None
            out |= r
        return out


# ------------------------------------------------------------------ lexer
TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<global>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class Lex:
    def __init__(self, s, pos=0):
        self.toks = []
        for m in TOK.finditer(s, pos):
            k = m.lastgroup
            self.toks.append((k, m.group()))
        self.i = 0

    def peek(self, n=0):
        j = self.i + n
        return self.toks[j] if j < len(self.toks) else ("eof", "")

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def at(self, s):
        return self.peek()[1] == s

    def eat(self, s):
        if self.peek()[1] == s and self.peek()[0] != "str":
            self.i += 1
            return True
        return False

    def expect(self, s):
        t = self.next()
        if t[1] != s:
            raise IRError("expected %r got %r near %r" % (s, t, self.toks[max(0, self.i - 6):self.i + 4]))


def unq(n):
    return n.replace('"', "") if '"' in n else n


SIMPLE_T = re.compile(r"^(void|ptr|i\d+|float|double|half|x86_fp80|fp128|label|metadata|token|opaque)$")


def parse_type(L):
    k, t = L.next()
    if k == "word" and SIMPLE_T.match(t):
        ty = t
        if ty == "ptr" and L.at("addrspace"):
            L.next(); L.expect("("); L.next(); L.expect(")")
    elif k == "local":
        ty = unq(t)
    elif t == "[":
        n = L.next()[1]; L.expect("x")
        e = parse_type(L); L.expect("]")
        ty = "[%s x %s]" % (n, e)
    elif t == "<":
        if L.at("{"):
            L.next()
            fs = _tlist(L, "}")
            L.expect(">")
            ty = "<{ %s }>" % ", ".join(fs)
        else:
            n = L.next()[1]; L.expect("x")
            e = parse_type(L); L.expect(">")
            ty = "<%s x %s>" % (n, e)
    elif t == "{":
        ty = "{ %s }" % ", ".join(_tlist(L, "}"))
    else:
        raise IRError("type? %r" % (L.toks[L.i - 2:L.i + 4],))
    # function type suffix
    while L.at("("):
        save = L.i
        L.next()
        try:
            args = []
            while not L.at(")"):
                if L.peek()[0] == "dots":
                    L.next(); args.append("...")
                else:
                    args.append(parse_type(L))
                if not L.eat(","):
                    break
            L.expect(")")
            ty = "%s (%s)" % (ty, ", ".join(args))
        except IRError:
            L.i = save
            break
    return ty


def _tlist(L, end):
    fs = []
    while not L.at(end):
        fs.append(parse_type(L))
        if not L.eat(","):
            break
    L.expect(end)
    return fs


CE_OPS = {"getelementptr", "bitcast", "ptrtoint", "inttoptr", "add", "sub", "mul", "trunc", "addrspacecast", "icmp", "xor", "sext", "zext", "shl"}


def parse_num(tok, ty):
    if tok.startswith("0x"):
        if tok[2] in "KMLHR":
            return Const("fpraw", tok)
        return Const("float", struct.unpack(">d", struct.pack(">Q", int(tok[2:], 16)))[0])
    if "." in tok or ty in ("double", "float"):
        return Const("float", float(tok))
    return Const("int", int(tok))


def parse_value(L, ty):
    k, t = L.next()
    if k in ("local", "global"):
        return unq(t)
    if k == "num":
        return parse_num(t, ty)
    if k == "str":
        raw = t[1:] if t.startswith("c") else t
        return Const("str", _unescape(raw[1:-1]))
    if t in ("true", "false"):
        return Const("int", 1 if t == "true" else 0)
    if t == "null":
        return Const("null")
    if t in ("undef", "poison"):
        return Const("undef")
    if t == "zeroinitializer":
        return Const("zero")
    if t == "none":
        return Const("none")
    if t in ("dso_local_equivalent", "no_cfi"):
        return parse_value(L, ty)
    if t == "blockaddress":
        L.expect("("); a = L.next()[1]; L.expect(","); b = L.next()[1]; L.expect(")")
        return Const("blockaddress", (a, b))
    if t in CE_OPS:
        op = t
        while L.peek()[1] in ("inbounds", "nuw", "nsw", "exact", "nneg", "inrange", "eq", "ne", "slt", "sgt", "ult", "ugt"):
            L.next()
        if L.at("inrange"):
            L.next()
        L.expect("(")
        sty = None
        args = []
        if op == "getelementptr":
            sty = parse_type(L); L.expect(",")
            while True:
                L.eat("inrange")
                at = parse_type(L)
                args.append((at, parse_value(L, at)))
                if not L.eat(","):
                    break
        elif op in ("bitcast", "ptrtoint", "inttoptr", "trunc", "addrspacecast", "sext", "zext"):
            at = parse_type(L)
            args.append((at, parse_value(L, at)))
            L.expect("to")
            sty = parse_type(L)
        else:
            while True:
                at = parse_type(L)
                args.append((at, parse_value(L, at)))
                if not L.eat(","):
                    break
        L.expect(")")
        return CE(op, sty, args)
    if t in ("[", "{", "<"):
        packed = t == "<" and L.at("{")
        if packed:
            L.next()
        end = {"[": "]", "{": "}", "<": ">"}[t] if not packed else "}"
        args = []
        while not L.at(end):
            at = parse_type(L)
            args.append((at, parse_value(L, at)))
            if not L.eat(","):
                break
        L.expect(end)
        if packed:
            L.expect(">")
        return CE("agg", ty, args)
    if t == "asm":
        while L.peek()[0] != "str":
            L.next()
        L.next(); L.expect(","); L.next()
        return Const("asm")
    raise IRError("value? %s %r ctx %r" % (ty, t, L.toks[max(0, L.i - 8):L.i + 5]))


def _unescape(s):
    out = bytearray()
    b = s.encode("utf-8")
    i = 0
    while i < len(b):
        if b[i] == 0x5C:
            if b[i + 1] == 0x5C:
                out.append(0x5C); i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16)); i += 3
        else:
            out.append(b[i]); i += 1
    return bytes(out)


PARAM_ATTR = {"noundef", "nonnull", "nocapture", "readonly", "readnone", "writeonly", "noalias", "signext", "zeroext", "inreg",
              "returned", "immarg", "nofree", "nest", "swiftself", "writable", "dead_on_unwind", "noext", "allocalign", "allocptr"}
PARAM_ATTR_P = {"align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "byref", "preallocated", "inalloca", "elementtype", "range", "nofpclass", "initializes"}


def skip_param_attrs(L):
    out = {}
    while True:
        k, t = L.peek()
        if k == "word" and t in PARAM_ATTR:
            L.next(); out[t] = True
        elif k == "word" and t in PARAM_ATTR_P:
            L.next()
            if L.at("("):
                L.next()
                depth = 1
                val = []
                while depth:
                    kk, tt = L.next()
                    if tt == "(":
                        depth += 1
                    elif tt == ")":
                        depth -= 1
                    if depth:
                        val.append(tt)
                out[t] = " ".join(val)
            else:
                out[t] = L.next()[1]
        elif k == "str":
            L.next()
            if L.eat("="):
                L.next()
        else:
            return out


FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "reassoc", "afn", "inbounds", "volatile", "samesign", "nusw"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}
DBGRE = re.compile(r", !dbg (!\d+)")


def parse_instr(line):
    m = DBGRE.search(line)
    dbg = m.group(1) if m else None
    L = Lex(line)
    res = None
    if L.peek()[0] == "local" and L.peek(1)[1] == "=":
        res = unq(L.next()[1]); L.next()
    op = L.next()[1]
    ins = Instr(op, res, None, [], {}, dbg, line)
    ex = ins.extra

    def flags():
        fs = []
        while L.peek()[1] in FLAGS:
            fs.append(L.next()[1])
        return fs

    def tv():
        t = parse_type(L)
        return t, parse_value(L, t)

    if op in ("tail", "musttail", "notail"):
        op = L.next()[1]
        ins.op = op
    if op in BIN:
        flags()
        t = parse_type(L)
        a = parse_value(L, t); L.expect(",")
        b = parse_value(L, t)
        ins.ty, ins.args = t, [a, b]
    elif op == "fneg" or op == "freeze":
        flags()
        t, v = tv()
        ins.ty, ins.args = t, [v]
    elif op in ("icmp", "fcmp"):
        flags()
        ex["pred"] = L.next()[1]
        t = parse_type(L)
        a = parse_value(L, t); L.expect(",")
        b = parse_value(L, t)
        ins.ty, ins.args = "i1", [a, b]
        ex["opty"] = t
    elif op in CAST:
        flags()
        t, v = tv()
        L.expect("to")
        ins.ty, ins.args = parse_type(L), [v]
        ex["from"] = t
    elif op == "alloca":
        flags()
        L.eat("inalloca")
        t = parse_type(L)
        ex["alloc"] = t
        ins.ty = "ptr"
        if L.at(",") and L.peek(1)[1] not in ("align", "addrspace") and L.peek(1)[0] != "md":
            L.next()
            ct, cv = tv()
            ins.args = [cv]
    elif op == "load":
        if L.eat("atomic"):
            ex["atomic"] = True
        if L.eat("volatile"):
            ex["volatile"] = True
        t = parse_type(L); L.expect(",")
        _, p = tv()
        ins.ty, ins.args = t, [p]
    elif op == "store":
        if L.eat("atomic"):
            ex["atomic"] = True
        if L.eat("volatile"):
            ex["volatile"] = True
        t, v = tv(); L.expect(",")
        _, p = tv()
        ins.args = [v, p]
        ex["valty"] = t
    elif op == "getelementptr":
        flags()
        t = parse_type(L); L.expect(",")
        args = []
        while True:
            a = tv()
            args.append(a)
            if not (L.at(",") and L.peek(1)[0] != "md"):
                break
            L.next()
        ex["sty"] = t
        ex["idxty"] = [a[0] for a in args[1:]]
        ins.ty = "ptr"
        ins.args = [a[1] for a in args]
    elif op == "phi":
        flags()
        t = parse_type(L)
        inc = []
        while True:
            L.expect("[")
            v = parse_value(L, t); L.expect(",")
            b = unq(L.next()[1]); L.expect("]")
            inc.append((v, b[1:]))
            if not (L.at(",") and L.peek(1)[1] == "["):
                break
            L.next()
        ins.ty = t
        ex["in"] = inc
    elif op == "select":
        flags()
        _, c = tv(); L.expect(",")
        t, a = tv(); L.expect(",")
        _, b = tv()
        ins.ty, ins.args = t, [c, a, b]
    elif op == "br":
        if L.at("label"):
            L.next()
            ex["succ"] = [unq(L.next()[1])[1:]]
        else:
            _, c = tv(); L.expect(",")
            L.expect("label"); a = unq(L.next()[1])[1:]; L.expect(",")
            L.expect("label"); b = unq(L.next()[1])[1:]
            ins.args = [c]
            ex["succ"] = [a, b]
    elif op == "switch":
        t, v = tv(); L.expect(",")
        L.expect("label"); d = unq(L.next()[1])[1:]
        L.expect("[")
        cases = []
        while not L.at("]"):
            _, cv = tv(); L.expect(",")
            L.expect("label")
            cases.append((cv.val, unq(L.next()[1])[1:]))
        ins.args = [v]
        ex["default"] = d
        ex["cases"] = cases
        ex["succ"] = [d] + [c[1] for c in cases]
    elif op == "ret":
        if L.at("void"):
            pass
        else:
            t, v = tv()
            ins.ty, ins.args = t, [v]
        ex["succ"] = []
    elif op == "unreachable":
        ex["succ"] = []
    elif op in ("call", "invoke"):
        flags()
        # calling conv / ret attrs
        while L.peek()[1] in ("fastcc", "coldcc", "ccc", "cc"):
            L.next()
        skip_param_attrs(L)
        # return type possibly function type
        t = parse_ret_type(L)
        k, tok = L.peek()
        if k in ("local", "global"):
            L.next()
            f = unq(tok)
        else:
            f = parse_value(L, "ptr")
        L.expect("(")
        args, atys, aattr = [], [], []
        while not L.at(")"):
            if L.at("metadata"):
                # metadata operand, skip to , or )
                depth = 0
                L.next()
                while True:
                    kk, tt = L.peek()
                    if depth == 0 and tt in (",", ")"):
                        break
                    if tt in "([{<":
                        depth += 1
                    if tt in ")]}>":
                        depth -= 1
                    L.next()
                args.append(Const("md")); atys.append("metadata"); aattr.append({})
            else:
                at = parse_type(L)
                at_attrs = skip_param_attrs(L)
                args.append(parse_value(L, at)); atys.append(at); aattr.append(at_attrs)
            if not L.eat(","):
                break
        L.expect(")")
        rt = t
        m2 = re.match(r"^(.*?) \((.*)\)$", t)
        if m2 and not t.startswith("{"):
            rt = m2.group(1)
        ins.ty, ins.args = rt, args
        ex["atys"] = atys
        ex["aattr"] = aattr
        if isinstance(f, str) and f.startswith("@"):
            ex["callee"] = f[1:]
        else:
            ex["callee"] = None
            ex["fp"] = f
    elif op == "extractvalue":
        t, v = tv()
        idx = []
        while L.at(",") and L.peek(1)[0] == "num":
            L.next(); idx.append(int(L.next()[1]))
        ins.args = [v]
        ex["idx"] = idx
        ex["aggty"] = t
    elif op == "insertvalue":
        t, v = tv(); L.expect(",")
        t2, v2 = tv()
        idx = []
        while L.at(",") and L.peek(1)[0] == "num":
            L.next(); idx.append(int(L.next()[1]))
        ins.ty, ins.args = t, [v, v2]
        ex["idx"] = idx
    elif op in ("extractelement",):
        t, v = tv(); L.expect(",")
        _, i = tv()
        ins.args = [v, i]
        ins.ty = t
    elif op == "insertelement":
        t, v = tv(); L.expect(",")
        _, e = tv(); L.expect(",")
        _, i = tv()
        ins.ty, ins.args = t, [v, e, i]
    elif op == "shufflevector":
        t, v = tv(); L.expect(",")
        _, w = tv()
        ins.ty, ins.args = t, [v, w]
    elif op == "atomicrmw":
        L.eat("volatile")
        ex["rmw"] = L.next()[1]
        _, p = tv(); L.expect(",")
        t, v = tv()
        ins.ty, ins.args = t, [p, v]
    elif op == "cmpxchg":
        L.eat("weak"); L.eat("volatile")
        _, p = tv(); L.expect(",")
        t, a = tv(); L.expect(",")
        _, b = tv()
        ins.ty, ins.args = t, [p, a, b]
    elif op == "fence":
        pass
    elif op == "va_arg":
        _, p = tv()
        ins.args = [p]
    else:
        raise IRError("instr? %s" % line)
    return ins


def parse_ret_type(L):
    """return type of a call; may be a full (vararg) function type"""
    t = parse_type_nofn(L)
    if L.at("("):
        L.next()
        args = []
        while not L.at(")"):
            if L.peek()[0] == "dots":
                L.next(); args.append("...")
            else:
                args.append(parse_type(L))
            if not L.eat(","):
                break
        L.expect(")")
        t = "%s (%s)" % (t, ", ".join(args))
    return t


def parse_type_nofn(L):
    k, t = L.peek()
    if k == "word" and SIMPLE_T.match(t):
        L.next()
        return t
    if k == "local":
        L.next()
        return unq(t)
    # aggregates: use parse_type but guard against the trailing "("
    save = L.i
    depth = 0
    j = L.i
    while True:
        tt = L.toks[j][1]
        if tt in "[{<":
            depth += 1
        if tt in "]}>":
            depth -= 1
            if depth == 0:
                break
        j += 1
    sub = Lex("")
    sub.toks = L.toks[L.i:j + 1]
    ty = parse_type(sub)
    L.i = j + 1
    return ty


DEF_RE = re.compile(r"^define\b")


def parse_module(text):
    M = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln[0] == ";":
            i += 1
            continue
        c = ln[0]
        if c == "%":
            m = re.match(r'^(%\S+|%"[^"]*") = type (.*)$', ln)
            if m:
                L = Lex(m.group(2))
                if L.at("opaque"):
                    M.types[unq(m.group(1))] = None
                else:
                    packed = L.at("<")
                    if packed:
                        L.next()
                    L.expect("{")
                    M.types[unq(m.group(1))] = _tlist(L, "}")
        elif c == "@":
            _parse_global(M, ln)
        elif c == "!":
            m = re.match(r"^(!\S+) = (.*)$", ln)
            if m:
                M.md[m.group(1)] = m.group(2)
        elif ln.startswith("declare"):
            L = Lex(ln)
            nm = re.search(r"@(\"[^\"]*\"|[-a-zA-Z$._0-9]+)\(", ln)
            if nm:
                M.decls[unq(nm.group(1))] = ln
        elif ln.startswith("define"):
            i = _parse_function(M, lines, i)
            continue
        i += 1
    return M


GLINK = {"private", "internal", "external", "common", "weak", "linkonce", "linkonce_odr", "weak_odr", "dso_local", "unnamed_addr",
         "local_unnamed_addr", "hidden", "protected", "default", "appending", "extern_weak", "available_externally", "externally_initialized"}


def _parse_global(M, ln):
    m = re.match(r'^(@"[^"]*"|@\S+) = (.*)$', ln)
    if not m:
        return
    name = unq(m.group(1))
    L = Lex(m.group(2))
    g = {"tls": False, "const": False, "internal": False, "init": None, "ty": None, "extern": False, "dbg": None}
    while True:
        k, t = L.peek()
        if t in GLINK:
            if t in ("internal", "private"):
                g["internal"] = True
            if t == "external":
                g["extern"] = True
            L.next()
        elif t == "thread_local":
            g["tls"] = True
            L.next()
            if L.at("("):
                L.next(); L.next(); L.expect(")")
        elif t in ("global", "constant"):
            g["const"] = t == "constant"
            L.next()
            break
        elif t == "alias" or t == "ifunc":
            return
        else:
            return
    g["ty"] = parse_type(L)
    if not g["extern"]:
        g["init"] = parse_value(L, g["ty"])
    M.globals[name] = g


def _parse_function(M, lines, i):
    head = lines[i]
    hm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
    name = unq(hm.group(1))
    F = Function(name)
    F.module = M
    F.internal = bool(re.match(r"^define (?:dso_local )?(internal|private)\b", head))
    m = re.search(r"!dbg (!\d+)", head)
    F.dbg = m.group(1) if m else None
    L = Lex(head[hm.end() - 1:])
    L.expect("(")
    while not L.at(")"):
        if L.peek()[0] == "dots":
            L.next(); F.vararg = True
            continue
        t = parse_type(L)
        at = skip_param_attrs(L)
        nm = None
        if L.peek()[0] == "local":
            nm = unq(L.next()[1])
        F.params.append((t, nm, at))
        if not L.eat(","):
            break
    pre = Lex(head[:hm.start()])
    # return type = last type tokens before @name
    try:
        toks = [t for t in pre.toks]
        L2 = Lex("")
        # strip leading words
        j = 0
        while j < len(toks) and (toks[j][1] in ("define", "dso_local", "internal", "private", "hidden", "weak", "linkonce_odr", "fastcc") or toks[j][1] in PARAM_ATTR or toks[j][1] in GLINK):
            j += 1
        L2.toks = toks[j:]
        skip_param_attrs(L2)
        F.ret = parse_type(L2)
    except Exception:
        F.ret = None
    i += 1
    cur = None
    n = len(lines)
    nparam = len(F.params)
    while i < n:
        ln = lines[i]
        if ln == "}":
            i += 1
            break
        s = ln.strip()
        if not s or s[0] == ";":
            i += 1
            continue
        if ln[0] not in " \t":
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = Block(unq(m.group(1)), F)
                F.blocks[cur.name] = cur
                i += 1
                continue
        if cur is None:
            # unnamed entry block: numbered after params
            cur = Block("%d" % nparam if not any(p[1] and not p[1][1:].isdigit() for p in F.params) else "0", F)
            F.blocks[cur.name] = cur
        # multi-line switch
        if s.startswith("switch ") and s.endswith("["):
            buf = s
            i += 1
            while not lines[i].strip().startswith("]"):
                buf += " " + lines[i].strip()
                i += 1
            buf += " " + lines[i].strip()
            s = buf
        if "@llvm.dbg." in s or "@llvm.lifetime" in s or "@llvm.experimental.noalias" in s:
            i += 1
            continue
        cur.instrs.append(parse_instr(s))
        i += 1
    M.funcs[name] = F
    # entry block name fix-up: successors may refer to it only in phis
    F.finish()
    return i


# ------------------------------------------------------------------ layout
class Layout:
    """x86-64 data layout sizes (bytes)"""

    def __init__(self, M):
        self.M = M
        self._c = {}

    def size(self, ty):
        return self.sa(ty)[0]

    def sa(self, ty):
        if ty in self._c:
            return self._c[ty]
        r = self._sa(ty)
        self._c[ty] = r
        return r

    def _sa(self, ty):
        if ty == "ptr":
            return (8, 8)
        if ty == "double":
            return (8, 8)
        if ty == "float":
            return (4, 4)
        if ty == "x86_fp80":
            return (16, 16)
        m = re.match(r"^i(\d+)$", ty)
        if m:
            b = int(m.group(1))
            s = max(1, (b + 7) // 8)
            p = 1
            while p < s:
                p *= 2
            return (p, min(p, 16))
        if ty.startswith("%"):
            fs = self.M.types[ty]
            return self._struct(fs)
        if ty.startswith("<{"):
            fs = split_types(ty[2:-2])
            return (sum(self.size(f) for f in fs), 1)
        if ty.startswith("{"):
            return self._struct(split_types(ty[1:-1]))
        m = re.match(r"^\[(\d+) x (.*)\]$", ty)
        if m:
            s, a = self.sa(m.group(2))
            return (int(m.group(1)) * s, a)
        m = re.match(r"^<(\d+) x (.*)>$", ty)
        if m:
            s = int(m.group(1)) * self.size(m.group(2))
            return (s, s)
        raise IRError("size of %s" % ty)

    def _struct(self, fs):
        off, al = 0, 1
        for f in fs:
            s, a = self.sa(f)
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return ((off + al - 1) // al * al, al)

    def fields(self, ty):
        if ty.startswith("%"):
            return self.M.types[ty]
        if ty.startswith("{"):
            return split_types(ty[1:-1])
        return None

    def field_off(self, ty, idx):
        fs = self.fields(ty)
        off = 0
        for k, f in enumerate(fs):
            s, a = self.sa(f)
            off = (off + a - 1) // a * a
            if k == idx:
                return off
            off += s

    def gep(self, sty, idxs):
        """-> (const byte offset, [(value, stride)], result type)"""
        off = 0
        dyn = []
        ty = sty
        for n, ix in enumerate(idxs):
            if n == 0:
                st = self.size(ty)
                if isinstance(ix, Const) and ix.kind == "int":
                    off += ix.val * st
                else:
                    dyn.append((ix, st))
                continue
            if ty.startswith("[") or (ty.startswith("<") and not ty.startswith("<{")):
                el = re.match(r"^[\[<](\d+) x (.*)[\]>]$", ty).group(2)
                st = self.size(el)
                if isinstance(ix, Const) and ix.kind == "int":
                    off += ix.val * st
                else:
                    dyn.append((ix, st))
                ty = el
            else:
                off += self.field_off(ty, ix.val)
                ty = self.fields(ty)[ix.val]
        return off, dyn, ty


def split_types(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "[{<(":
            depth += 1
        elif ch in "]}>)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
