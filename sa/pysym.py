"""Abstract evaluation of the Python layer.

A function is followed statement by statement with symbolic parameters; the
only things decided about a parameter are whether it is given, whether it is
true (not zero, not empty) and what a comparison says, each way being followed.
Every way that starts a program yields its argument vector as text over the
parameters."""
import ast, os, re
from front import REPO


class Sym:
    __slots__ = ("k", "a", "_c")

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        self._c = None

    def __repr__(self):
        return canon(self)


class Closure:
    def __init__(self, node, mod, env, bound=None):
        self.node, self.mod, self.env, self.bound = node, mod, env, bound


class ClassRef:
    def __init__(self, node, mod):
        self.node, self.mod = node, mod


class PyRaise(Exception):
    def __init__(self, name):
        self.name = name


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Stop(Exception):
    pass


def canon(v):
    if isinstance(v, Sym):
        if v._c is None:
            k, a = v.k, v.a
            if k == "p":
                r = a[0]
            elif k == "attr":
                r = "%s.%s" % (canon(a[0]), a[1])
            elif k == "elem":
                r = "%s[%s]" % (canon(a[0]), a[1] if isinstance(a[1], (int, str)) else canon(a[1]))
            elif k == "str":
                r = "".join(x if isinstance(x, str) else canon(x) for x in a)
            elif k == "fmt":
                c = canon(a[0])
                r = c if c.startswith("<") and a[1] is None else "<%s%s>" % (c, "" if a[1] is None or a[1] >= 15 else "~%s" % a[1])
            elif k == "join":
                r = "<%s|%s>" % (canon(a[1]).strip("<>") if canon(a[1]).count("<") <= 1 else canon(a[1]), a[0])
            elif k == "map":
                r = "{%s}(%s)" % (",".join("%s:%s" % (x, canon(y) if isinstance(y, Sym) else y) for x, y in sorted(a[0].items(), key=str)), canon(a[1]))
            elif k == "size":
                r = "n(%s)" % canon(a[0])
            else:
                r = "%s(%s)" % (a[0] if k == "call" else k, ",".join(canon(x) for x in (a[1:] if k == "call" else a)))
            v._c = r
        return v._c
    if isinstance(v, (list, tuple)):
        return "[%s]" % ",".join(canon(x) for x in v)
    if isinstance(v, dict):
        return "{%s}" % ",".join("%s:%s" % (canon(k), canon(x)) for k, x in v.items())
    if isinstance(v, Closure):
        return "fn:" + v.node.name if hasattr(v.node, "name") else "lambda"
    if isinstance(v, ClassRef):
        return "class:" + v.node.name
    return str(v)


def hassym(v):
    return isinstance(v, (Sym, Closure, ClassRef)) or isinstance(v, (list, tuple, set)) and any(map(hassym, v)) or isinstance(v, dict) and any(hassym(x) or hassym(k) for k, x in v.items())


def star(v):
    if isinstance(v, Sym):
        return v.k != "join" and (v.k == "elem" and v.a[1] == "*" or any(star(x) for x in v.a))
    return isinstance(v, (list, tuple)) and any(map(star, v))


def text(v):
    """str(v)"""
    if isinstance(v, Sym):
        return v if v.k in ("str", "fmt", "join", "map") or v.k == "call" else Sym("fmt", v, None)
    return v if isinstance(v, str) else str(v) if not hassym(v) else Sym("call", "str", v)


def cat(*xs):
    out = []
    for x in xs:
        for y in (x.a if isinstance(x, Sym) and x.k == "str" else (text(x),)):
            if isinstance(y, str) and out and isinstance(out[-1], str):
                out[-1] += y
            elif y != "" or isinstance(y, Sym):
                out.append(y)
    if not out:
        return ""
    return out[0] if len(out) == 1 and isinstance(out[0], str) else Sym("str", *out)


IDENT = {"float", "list", "tuple", "Path", "pathlib.Path", "np.asarray", "np.atleast_1d", "np.ascontiguousarray", "np.array", "os.fspath", "os.path.abspath", "os.path.expanduser", "iter", "np.float64", "np.asanyarray", "PurePath", "np.ravel"}
IDENTM = {"tolist", "astype", "copy", "resolve", "absolute", "expanduser", "as_posix", "item", "flatten", "ravel", "__str__", "__fspath__"}
BUILTINS = {"len", "isinstance", "str", "repr", "format", "int", "bool", "enumerate", "zip", "sorted", "dict", "set", "any", "all", "map", "getattr", "range", "abs", "min", "max", "round", "sum", "reversed", "next", "print", "hasattr", "type", "callable"}


class Module:
    cache = {}

    def __init__(self, name):
        p = os.path.join(REPO, "pygrt", name + ".py")
        self.name = name
        self.tree = ast.parse(open(p, encoding="utf-8").read(), p)
        self.defs = {}
        self.imports = {}
        for n in self.tree.body:
            self.define(n)

    def define(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.defs[n.name] = n
        elif isinstance(n, ast.ImportFrom) and n.level == 1:
            for a in n.names:
                self.imports[a.asname or a.name] = (n.module, a.name)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.defs[n.targets[0].id] = n.value
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.defs[n.target.id] = n.value
        elif isinstance(n, (ast.If, ast.Try)):
            for x in n.body:
                self.define(x)

    @classmethod
    def get(cls, name):
        if name not in cls.cache:
            cls.cache[name] = Module(name)
        return cls.cache[name]


class Ev:
    """one way through"""

    def __init__(self, plan, pref):
        self.plan = plan              # decisions prescribed, in order
        self.pref = pref              # which way to prefer at the others
        self.trail = []               # decisions taken: (key, number of ways, way)
        self.facts = {}
        self.stores = {}              # attributes set
        self.vals = {}
        self.log = []                 # programs started: (argv, node)
        self.depth = 0
        self.optional = set()
        self.steps = 0

    # ------------------------------------------------------------ decisions
    def pick(self, ways, key):
        n = len(self.trail)
        r = self.plan[n] if n < len(self.plan) else self.pref(key) % ways
        self.trail.append((key, ways, r))
        return r

    def decide(self, key):
        if key not in self.facts:
            self.facts[key] = self.pick(2, key) == 0
        return self.facts[key]

    def none(self, v):
        if not isinstance(v, Sym):
            return v is None
        if v.k == "p" and v.a[0] in self.optional or v.k == "attr":
            return self.decide("none:" + canon(v))
        return False

    def truth(self, v):
        if isinstance(v, Sym):
            if v.k == "bool":
                return v.a[0]
            if v.k == "str" and any(isinstance(x, str) and x for x in v.a):
                return True
            if v.k in ("p", "attr"):
                if self.none(v):
                    return False
            if v.k == "size":
                return self.truth(v.a[0]) if v.a[0].k == "p" else self.decide("true:" + canon(v.a[0]))
            if v.k == "fmt":
                return True
            if v.k in ("p", "attr"):
                return self.number(v)
            return self.decide("true:" + canon(v))
        if isinstance(v, (Closure, ClassRef)):
            return True
        return bool(v)

    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ("Is", "IsNot") or n in ("Eq", "NotEq") and (a is None or b is None):
            if b is None or a is None:
                r = self.none(a if b is None else b)
            elif isinstance(a, Sym) and isinstance(b, bool):
                r = (not self.none(a)) and self.truth(a) == b
            elif isinstance(b, Sym) or isinstance(a, Sym):
                r = self.decide("cond:%s is %s" % (canon(a), canon(b)))
            else:
                r = a is b
            return r if n in ("Is", "Eq") else not r
        if not hassym(a) and not hassym(b):
            try:
                return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b, "In": lambda: a in b, "NotIn": lambda: a not in b}[n]()
            except TypeError:
                raise PyRaise("TypeError")
        if n in ("In", "NotIn"):
            if isinstance(b, dict):
                b = list(b)
            if isinstance(b, (list, tuple, set, frozenset)) and not hassym(list(b)) and isinstance(a, Sym):
                if star(a):
                    r = self.decide("cond:%s in %s" % (canon(a), sorted(map(str, b))))
                else:
                    r = self.decide("cond:%s in %s" % (canon(a), sorted(map(str, b))))
            elif not isinstance(b, Sym) and isinstance(b, (list, tuple)):
                r = any(self.compare(ast.Eq(), a, x) for x in b)
            else:
                r = self.decide("cond:%s in %s" % (canon(a), canon(b)))
            return r if n == "In" else not r
        if not isinstance(a, Sym) and isinstance(b, Sym):
            a, b = b, a
            n = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(n, n)
        # number of elements
        if isinstance(a, Sym) and a.k == "size" and isinstance(b, int):
            key = "many:" + canon(a.a[0])
            if (n, b) in (("Gt", 1), ("GtE", 2), ("NotEq", 1)):
                return self.decide(key)
            if (n, b) in (("Eq", 1), ("LtE", 1), ("Lt", 2)):
                return not self.decide(key)
            if b == 0:
                t = self.truth(a)
                return {"Eq": not t, "NotEq": t, "Gt": t, "GtE": True, "Lt": False, "LtE": not t}[n]
        if isinstance(a, Sym) and isinstance(b, (int, float)) and not isinstance(b, bool) and b == 0:
            if n == "Eq":
                return not self.number(a)
            if n == "NotEq":
                return self.number(a)
            sign = "cond:%s<0" % canon(a)
            if n in ("Lt", "GtE"):
                r = False if self.facts.get("true:" + canon(a)) is False else self.decide(sign)
                return r if n == "Lt" else not r
            if n in ("Gt", "LtE"):
                r = self.number(a) and not self.decide(sign)
                return r if n == "Gt" else not r
        if n in ("Eq", "NotEq") and isinstance(a, Sym) and isinstance(b, str):
            c = canon(a)
            if c in self.vals:
                r = self.vals[c] == b
            else:
                r = self.decide("eq:%s:%s" % (c, b))
                if r:
                    self.vals[c] = b
            return r if n == "Eq" else not r
        if n == "NotEq":
            return not self.decide("cond:%s==%s" % (canon(a), canon(b)))
        if n == "Eq":
            return self.decide("cond:%s==%s" % (canon(a), canon(b)))
        if n in ("GtE", "LtE"):
            return not self.decide("cond:%s%s%s" % (canon(a), "<" if n == "GtE" else ">", canon(b)))
        return self.decide("cond:%s%s%s" % (canon(a), "<" if n == "Lt" else ">", canon(b)))

    def number(self, v):
        if self.facts.get("cond:%s<0" % canon(v)):
            return True
        return self.decide("true:" + canon(v))

    # ----------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 200000:
            raise Stop("too long")
        t = type(s).__name__
        if t == "Expr":
            self.ex(s.value, env)
        elif t == "Assign":
            v = self.ex(s.value, env)
            for x in s.targets:
                self.bind(x, v, env)
        elif t == "AnnAssign":
            if s.value is not None:
                self.bind(s.target, self.ex(s.value, env), env)
        elif t == "AugAssign":
            old = self.ex(ast.copy_location(load(s.target), s.target), env)
            new = self.ex(s.value, env)
            if isinstance(old, list) and isinstance(s.op, ast.Add) and isinstance(new, (list, tuple)):
                old.extend(new)
            elif isinstance(old, dict) and isinstance(new, dict):
                old.update(new)
            else:
                self.bind(s.target, self.binop(s.op, old, new), env)
        elif t == "If":
            self.block(s.body if self.truth(self.ex(s.test, env)) else s.orelse, env)
        elif t == "Return":
            raise Ret(self.ex(s.value, env) if s.value is not None else None)
        elif t == "Raise":
            n = "Exception"
            if s.exc is not None:
                e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                n = e.id if isinstance(e, ast.Name) else "Exception"
            raise PyRaise(n)
        elif t in ("FunctionDef",):
            env[s.name] = Closure(s, env["__mod__"], env)
        elif t == "For":
            self.loop(s, env)
        elif t == "While":
            for _ in range(3):
                if not self.truth(self.ex(s.test, env)):
                    break
                try:
                    self.block(s.body, env)
                except Brk:
                    break
                except Cont:
                    pass
        elif t == "Try":
            try:
                try:
                    self.block(s.body, env)
                except PyRaise as e:
                    for h in s.handlers:
                        ns = [x.id for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(x, ast.Name)] if h.type is not None else [e.name]
                        if e.name in ns or "Exception" in ns or "BaseException" in ns or e.name == "KeyError" and "LookupError" in ns:
                            if h.name:
                                env[h.name] = Sym("call", e.name)
                            self.block(h.body, env)
                            break
                    else:
                        raise
                else:
                    self.block(s.orelse, env)
            finally:
                self.block(s.finalbody, env)
        elif t == "With":
            for i in s.items:
                v = self.ex(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            self.block(s.body, env)
        elif t == "Assert":
            if not self.truth(self.ex(s.test, env)):
                raise PyRaise("AssertionError")
        elif t == "Break":
            raise Brk()
        elif t == "Continue":
            raise Cont()
        elif t == "Delete":
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    b, k = self.ex(x.value, env), self.ex(x.slice, env)
                    if isinstance(b, (dict, list)) and not isinstance(k, Sym):
                        try:
                            del b[k]
                        except (KeyError, IndexError):
                            raise PyRaise("KeyError")
        elif t in ("Import", "ImportFrom"):
            for a in s.names:
                if t == "ImportFrom" and s.level == 1:
                    env[a.asname or a.name] = self.imported(s.module, a.name)
                else:
                    env[a.asname or a.name] = Sym("p", (s.module + "." if t == "ImportFrom" and s.module else "") + a.name)

    def loop(self, s, env):
        it = self.ex(s.iter, env)
        if isinstance(it, dict):
            it = list(it)
        if isinstance(it, (list, tuple, str, set)):
            xs = list(it)
        else:
            xs = [self.element(it)]
            if isinstance(it, Sym) and it.k == "p" and not self.truth(Sym("size", it)):
                xs = []
        for x in xs:
            self.bind(s.target, x, env)
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                pass
        self.block(s.orelse, env)

    def element(self, it):
        if isinstance(it, Sym):
            if it.k == "each":
                return it.a[1]
            if it.k == "call" and it.a[0] == "enumerate":
                return (Sym("call", "index", it.a[1]), self.element(it.a[1]))
            if it.k == "call" and it.a[0] == "zip":
                return tuple(self.element(x) for x in it.a[1:])
            return Sym("elem", it, "*")
        if isinstance(it, (list, tuple)):
            return it[0] if it else None
        return Sym("elem", Sym("call", "iter", it), "*")

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (list, tuple)) and len(v) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v):
                    self.bind(x, y, env)
            else:
                for i, x in enumerate(t.elts):
                    self.bind(x.value if isinstance(x, ast.Starred) else x, Sym("elem", v if isinstance(v, Sym) else Sym("call", "value", v), i), env)
        elif isinstance(t, ast.Subscript):
            b, k = self.ex(t.value, env), self.ex(t.slice, env)
            if isinstance(b, (dict, list)) and not isinstance(k, Sym):
                try:
                    b[k] = v
                except IndexError:
                    raise PyRaise("IndexError")
        elif isinstance(t, ast.Attribute):
            k = (canon(self.ex(t.value, env)), t.attr)
            env.setdefault("__attrs__", {})[k] = v
            self.stores[k] = v

    # ----------------------------------------------------------- expressions
    def ex(self, e, env):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            return Sym("call", type(e).__name__, *[self.ex(c, env) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)])
        return m(e, env)

    def x_Constant(self, e, env):
        return e.value

    def x_Name(self, e, env):
        n = e.id
        x = env
        while x is not None:
            if n in x:
                return x[n]
            x = x.get("__up__")
        return self.glob(env["__mod__"], n)

    def glob(self, mod, n):
        d = mod.defs.get(n)
        if isinstance(d, ast.FunctionDef):
            return Closure(d, mod, None)
        if isinstance(d, ast.ClassDef):
            return ClassRef(d, mod)
        if d is not None:
            return self.ex(d, {"__mod__": mod})
        if n in mod.imports:
            return self.imported(*mod.imports[n])
        return Sym("p", n)

    def imported(self, module, name):
        try:
            return self.glob(Module.get(module), name)
        except OSError:
            return Sym("p", "%s.%s" % (module, name))

    def x_Tuple(self, e, env):
        return tuple(self.items(e, env))

    def x_List(self, e, env):
        return self.items(e, env)

    def x_Set(self, e, env):
        xs = self.items(e, env)
        try:
            return set(xs)
        except TypeError:
            return xs

    def items(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ex(x.value, env)
                if isinstance(v, dict):
                    v = list(v)
                if isinstance(v, (list, tuple)):
                    out.extend(v)
                else:
                    out.append(self.element(v))
            else:
                out.append(self.ex(x, env))
        return out

    def x_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                w = self.ex(v, env)
                if isinstance(w, dict):
                    d.update(w)
            else:
                d[self.ex(k, env)] = self.ex(v, env)
        return d

    def x_JoinedStr(self, e, env):
        return cat(*[self.ex(v, env) for v in e.values])

    def x_FormattedValue(self, e, env):
        v = self.ex(e.value, env)
        sp = self.ex(e.format_spec, env) if e.format_spec is not None else ""
        return self.fmt(v, sp)

    def fmt(self, v, sp):
        if not isinstance(v, Sym):
            if hassym(v):
                return text(v)
            try:
                return format(v, sp if isinstance(sp, str) else "")
            except (ValueError, TypeError):
                raise PyRaise("ValueError")
        if sp == "" or sp == "s" or sp == "d":
            return text(v)
        if v.k in ("str", "fmt", "join"):
            return Sym("call", "format", v, sp)
        m = re.match(r"^\.(\d+)([gGeE])$", sp) if isinstance(sp, str) else None
        if m:
            return Sym("fmt", v, int(m.group(1)) + (m.group(2) in "eE"))
        m = re.match(r"^\.?(\d*)f$", sp) if isinstance(sp, str) else None
        return Sym("fmt", v, "%s decimals" % (m.group(1) or "6") if m else "format %s" % canon(sp)) if not m else Sym("call", "fixed%s" % m.group(1), v)

    def x_BinOp(self, e, env):
        return self.binop(e.op, self.ex(e.left, env), self.ex(e.right, env))

    def binop(self, op, a, b):
        n = type(op).__name__
        if n == "Add":
            if isinstance(a, str) or isinstance(b, str) or isinstance(a, Sym) and a.k in ("str", "fmt", "join", "map") or isinstance(b, Sym) and b.k in ("str", "fmt", "join"):
                return cat(a, b)
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                return list(a) + list(b)
            if isinstance(a, list) and isinstance(b, Sym):
                return a + [self.element(b)]
        if n == "Div" and (isinstance(b, str) or isinstance(b, Sym) and b.k == "str"):
            return cat(a, "/", b)
        if n == "Mod" and isinstance(a, str):
            return self.percent(a, b if isinstance(b, tuple) else (b,))
        if n == "BitOr" and isinstance(a, dict) and isinstance(b, dict):
            return {**a, **b}
        if not hassym(a) and not hassym(b):
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b}[n]()
            except (KeyError, TypeError, ZeroDivisionError):
                return Sym("call", n, a, b)
        return Sym("call", n, a, b)

    def percent(self, f, vs):
        out, pos, i = [], 0, 0
        for m in re.finditer(r"%(?:%|[-+ #0]*\d*(?:\.(\d+))?([sdrgGeEfi]))", f):
            out.append(f[pos:m.start()])
            pos = m.end()
            if m.group(0) == "%%":
                out.append("%")
                continue
            v = vs[i] if i < len(vs) else None
            i += 1
            c = m.group(2)
            out.append(self.fmt(v, "" if c in "sdri" else ".%s%s" % (m.group(1) or "6", c)))
        return cat(*out, f[pos:])

    def x_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ex(x, env)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                return v
        return v

    def x_UnaryOp(self, e, env):
        v = self.ex(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        return Sym("call", type(e.op).__name__, v)

    def x_Compare(self, e, env):
        a = self.ex(e.left, env)
        for op, c in zip(e.ops, e.comparators):
            b = self.ex(c, env)
            if not self.compare(op, a, b):
                return False
            a = b
        return True

    def x_IfExp(self, e, env):
        return self.ex(e.body if self.truth(self.ex(e.test, env)) else e.orelse, env)

    def x_NamedExpr(self, e, env):
        v = self.ex(e.value, env)
        self.bind(e.target, v, env)
        return v

    def x_Lambda(self, e, env):
        return Closure(e, env["__mod__"], env)

    def comp(self, e, env, fn):
        def go(i, sc, sym):
            if i == len(e.generators):
                return [fn(sc)], sym
            g = e.generators[i]
            it = self.ex(g.iter, sc)
            if isinstance(it, dict):
                it = list(it)
            out = []
            if isinstance(it, (list, tuple, str, set)):
                for x in list(it):
                    sc2 = {"__up__": sc, "__mod__": env["__mod__"]}
                    self.bind(g.target, x, sc2)
                    if all(self.truth(self.ex(c, sc2)) for c in g.ifs):
                        r, sym = go(i + 1, sc2, sym)
                        out += r
                return out, sym
            sc2 = {"__up__": sc, "__mod__": env["__mod__"]}
            self.bind(g.target, self.element(it), sc2)
            if g.ifs:
                return [Sym("call", "filtered", it, *[c if isinstance(c, Sym) else str(ast.dump(c))[:60] for c in g.ifs])], it
            return go(i + 1, sc2, it)
        r, sym = go(0, env, None)
        if sym is not None and len(r) == 1:
            return Sym("each", sym, r[0])
        return r

    def x_ListComp(self, e, env):
        return self.comp(e, env, lambda sc: self.ex(e.elt, sc))

    x_GeneratorExp = x_SetComp = x_ListComp

    def x_DictComp(self, e, env):
        r = self.comp(e, env, lambda sc: (self.ex(e.key, sc), self.ex(e.value, sc)))
        if isinstance(r, list):
            try:
                return dict(r)
            except TypeError:
                pass
        return Sym("call", "dict", r if isinstance(r, Sym) else "?")

    def x_Starred(self, e, env):
        return self.ex(e.value, env)

    def x_Subscript(self, e, env):
        b = self.ex(e.value, env)
        if isinstance(e.slice, ast.Slice):
            parts = [self.ex(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if isinstance(b, (list, tuple, str)) and not hassym(parts):
                return b[slice(*parts)]
            if all(p is None for p in parts):
                return b
            return Sym("call", "slice", b, *parts)
        k = self.ex(e.slice, env)
        return self.index(b, k)

    def index(self, b, k):
        if isinstance(b, dict):
            if not isinstance(k, Sym):
                if k in b:
                    return b[k]
                raise PyRaise("KeyError")
            c = canon(k)
            if c in self.vals:
                if self.vals[c] in b:
                    return b[self.vals[c]]
                raise PyRaise("KeyError")
            if not self.decide("cond:%s in %s" % (c, sorted(map(str, b)))):
                raise PyRaise("KeyError")
            if not star(k) or any(hassym(v) for v in b.values()):
                ks = sorted(b, key=str)
                self.vals[c] = ks[self.pick(len(ks), "key:" + c)]
                return b[self.vals[c]]
            return Sym("map", dict(b), k)
        if isinstance(b, (list, tuple, str)) and isinstance(k, int):
            try:
                return b[k]
            except IndexError:
                raise PyRaise("IndexError")
        if isinstance(b, Sym):
            if b.k == "each":
                return subst(b.a[1], k)
            return Sym("elem", b, k if isinstance(k, (int, str)) else canon(k))
        return Sym("call", "index", b, k)

    def x_Attribute(self, e, env):
        b = self.ex(e.value, env)
        x = env
        while x is not None:
            at = x.get("__attrs__", {})
            if (canon(b), e.attr) in at:
                return at[(canon(b), e.attr)]
            x = x.get("__up__")
        if isinstance(b, Sym) and b.k == "self":
            for n in b.a[0].node.body:
                if isinstance(n, ast.FunctionDef) and n.name == e.attr:
                    st = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in n.decorator_list)
                    return Closure(n, b.a[0].mod, None, None if st else b)
            return Sym("attr", Sym("p", "self"), e.attr)
        if isinstance(b, ClassRef):
            for n in b.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == e.attr:
                    return Closure(n, b.mod, None, None)
        if isinstance(b, Sym):
            if e.attr == "size":
                return Sym("size", b)
            if e.attr == "returncode":
                return 0
            if b.k == "p" and b.a[0] in MODULES:
                return Sym("p", "%s.%s" % (b.a[0], e.attr))
            return Sym("attr", b, e.attr)
        return Sym("attr", Sym("call", "value", b), e.attr) if not isinstance(b, Closure) else Sym("p", e.attr)

    # ----------------------------------------------------------------- calls
    def x_Call(self, e, env):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ex(a.value, env)
                args += list(v) if isinstance(v, (list, tuple)) else [self.element(v)]
            else:
                args.append(self.ex(a, env))
        kw = {}
        for k in e.keywords:
            v = self.ex(k.value, env)
            if k.arg is None:
                if isinstance(v, dict):
                    kw.update(v)
            else:
                kw[k.arg] = v
        if isinstance(e.func, ast.Attribute):
            b = self.ex(e.func.value, env)
            f = self.x_Attribute(e.func, env)
            if isinstance(f, Closure):
                return self.apply(f, args, kw)
            if isinstance(f, Sym) and f.k == "p":
                return self.lib(f.a[0], args, kw, e)
            return self.method(b, e.func.attr, args, kw, e)
        f = self.ex(e.func, env)
        if isinstance(f, Closure):
            return self.apply(f, args, kw)
        if isinstance(f, Sym) and f.k == "p":
            return self.lib(f.a[0], args, kw, e)
        return Sym("call", canon(f), *args)

    def apply(self, c, args, kw):
        n = c.node
        if getattr(n, "name", None) in CUT and self.depth:
            return Sym("call", n.name, *args)
        if self.depth > 25:
            raise Stop("calls nest too deeply")
        a = n.args
        env = {"__mod__": c.mod, "__up__": c.env}
        ps = [p.arg for p in a.posonlyargs + a.args]
        if c.bound is not None:
            args = [c.bound] + list(args)
        for p, v in zip(ps, args):
            env[p] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(ps):])
        ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        ds.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        rest = dict(kw)
        for p in ps + [p.arg for p in a.kwonlyargs]:
            if p in rest:
                env[p] = rest.pop(p)
            elif p not in env:
                if p in ds:
                    env[p] = self.ex(ds[p], {"__mod__": c.mod})
                else:
                    raise PyRaise("TypeError")
        if a.kwarg:
            env[a.kwarg.arg] = rest
        elif rest:
            raise PyRaise("TypeError")
        if isinstance(n, ast.Lambda):
            return self.ex(n.body, env)
        self.depth += 1
        try:
            self.block(n.body, env)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1

    def lib(self, n, args, kw, e):
        if n in ("subprocess.run", "subprocess.check_call", "subprocess.check_output", "subprocess.call", "subprocess.Popen", "os.system"):
            self.log.append((args[0] if args else kw.get("args"), kw, e))
            return Sym("call", "completed", len(self.log))
        if n in IDENT and len(args) >= 1:
            if n in ("list", "tuple") and isinstance(args[0], (list, tuple, dict, str, set)):
                return (list if n == "list" else tuple)(args[0])
            if n in ("Path", "pathlib.Path") and len(args) > 1:
                return cat(*[y for x in args for y in ("/", x)][1:])
            if n == "float" and not hassym(args[0]):
                try:
                    return float(args[0])
                except (TypeError, ValueError):
                    raise PyRaise("TypeError")
            return args[0]
        if n == "list" or n == "tuple":
            return []
        if n == "dict":
            d = dict(args[0]) if args and isinstance(args[0], (dict, list)) else {}
            d.update(kw)
            return d
        if n == "len":
            v = args[0]
            return len(v) if isinstance(v, (list, tuple, dict, str, set)) and not star(v) else Sym("size", v if isinstance(v, Sym) else Sym("call", "value", v))
        if n == "str":
            return text(args[0]) if args else ""
        if n == "repr":
            return text(args[0]) if isinstance(args[0], Sym) and args[0].k not in ("str", "fmt", "join") else Sym("call", "repr", *args) if hassym(args[0]) else repr(args[0])
        if n == "format":
            return self.fmt(args[0], args[1] if len(args) > 1 else "")
        if n == "bool":
            return self.truth(args[0])
        if n == "int":
            if not hassym(args[0]):
                try:
                    return int(args[0])
                except (TypeError, ValueError):
                    raise PyRaise("ValueError")
            v = args[0]
            return v if v.k == "p" and v.a[0] in self.integers or v.k in ("elem", "size", "call") and canon(v).split("[")[0] in self.integers else Sym("call", "int", v)
        if n in ("any", "all") and args:
            v = args[0]
            if isinstance(v, (list, tuple)):
                return (any if n == "any" else all)([self.truth(x) for x in v])
            return self.decide("cond:%s(%s)" % (n, canon(v)))
        if n == "map" and len(args) == 2:
            f, it = args
            g = lambda x: self.apply(f, [x], {}) if isinstance(f, Closure) else self.lib(f.a[0], [x], {}, e) if isinstance(f, Sym) and f.k == "p" else Sym("call", canon(f), x)
            if isinstance(it, (list, tuple)):
                return [g(x) for x in it]
            return Sym("each", it, g(self.element(it)))
        if n in ("zip", "enumerate"):
            args = [list(x) if isinstance(x, (str, dict)) else x for x in args]
            if all(isinstance(x, (list, tuple)) for x in args):
                return list(zip(*args)) if n == "zip" else list(enumerate(args[0]))
            return Sym("call", n, *args)
        if n in ("set", "frozenset", "sorted", "reversed", "range", "min", "max", "abs", "round", "sum") and args and not hassym(args) and n not in ("reversed",):
            try:
                r = {"set": set, "frozenset": set, "sorted": sorted, "range": range, "min": min, "max": max, "abs": abs, "round": round, "sum": sum}[n](*args)
                return list(r) if n == "range" else r
            except TypeError:
                raise PyRaise("TypeError")
        if n in ("isinstance", "hasattr", "callable") or n.startswith(("np.any", "np.all", "np.is")):
            if n == "isinstance" and not hassym(args[0]):
                return False
            return self.decide("cond:%s(%s)" % (n, ",".join(map(canon, args))))
        if n.startswith("warnings.") or n == "print":
            return None
        if n == "os.path.join":
            return cat(*[y for x in args for y in ("/", x)][1:])
        return Sym("call", n, *args, *[kw[k] for k in sorted(kw)])

    def method(self, b, m, args, kw, e):
        if isinstance(b, list):
            if m == "append":
                b.append(args[0])
                return None
            if m == "extend":
                v = args[0]
                b.extend(v if isinstance(v, (list, tuple)) else [self.element(v)])
                return None
            if m == "insert":
                b.insert(args[0] if isinstance(args[0], int) else 0, args[1])
                return None
            if m in ("pop", "remove", "sort", "reverse", "clear", "copy", "index", "count"):
                try:
                    return getattr(b, m)(*args) if not hassym(args) else None
                except (ValueError, IndexError, TypeError):
                    raise PyRaise("ValueError")
        if isinstance(b, dict):
            if m == "update":
                for v in args:
                    if isinstance(v, dict):
                        b.update(v)
                    elif isinstance(v, (list, tuple)):
                        b.update(dict(v))
                b.update(kw)
                return None
            if m in ("values", "keys", "items"):
                return [tuple(x) for x in b.items()] if m == "items" else list(getattr(b, m)())
            if m in ("get", "pop", "setdefault"):
                k = args[0]
                if not isinstance(k, Sym):
                    if k in b:
                        return b.pop(k) if m == "pop" else b[k]
                    if m == "setdefault":
                        b[k] = args[1] if len(args) > 1 else None
                        return b[k]
                    if m == "pop" and len(args) < 2:
                        raise PyRaise("KeyError")
                    return args[1] if len(args) > 1 else None
                try:
                    return self.index(b, k)
                except PyRaise:
                    return args[1] if len(args) > 1 else None
            if m == "copy":
                return dict(b)
        if isinstance(b, Sym) and b.k == "map" and not kw and not hassym(args) and all(isinstance(x, str) for x in b.a[0].values()):
            try:
                return Sym("map", {x: getattr(y, m)(*args) for x, y in b.a[0].items()}, b.a[1])
            except (AttributeError, TypeError):
                pass
        if m == "join" and isinstance(b, str):
            v = args[0]
            if isinstance(v, dict):
                v = list(v)
            if isinstance(v, (list, tuple)):
                out = []
                for i, x in enumerate(v):
                    if i:
                        out.append(b)
                    out.append(Sym("join", b, text(x)) if star(x) else text(x))
                return cat(*out)
            if isinstance(v, Sym):
                return Sym("join", b, text(self.element(v)))
        if isinstance(b, str):
            if m == "format":
                out = []
                i = 0
                for lit, name, spec, conv in __import__("string").Formatter().parse(b):
                    out.append(lit)
                    if name is not None:
                        if name == "":
                            v = args[i]
                            i += 1
                        elif name.isdigit():
                            v = args[int(name)]
                        else:
                            v = kw.get(name, Sym("call", "field", name))
                        out.append(self.fmt(v, spec or ""))
                return cat(*out)
            if not hassym(args):
                try:
                    return getattr(b, m)(*args)
                except (AttributeError, TypeError):
                    return Sym("call", m, b)
        if isinstance(b, set):
            if m in ("add", "update"):
                try:
                    getattr(b, m)(*args)
                except TypeError:
                    pass
                return None
        if isinstance(b, Sym):
            if m in IDENTM:
                return b
            if m == "tolist":
                return b
            if m == "joinpath":
                return cat(b, *[y for x in args for y in ("/", x)])
            if m in ("is_file", "is_dir", "exists"):
                return self.decide("%s:%s" % (m, canon(b)))
            if m in ("upper", "lower", "strip"):
                return Sym("call", m, b)
            return Sym("call", "." + m, b, *args)
        return Sym("call", "." + m, b if isinstance(b, Sym) else canon(b), *args)

    integers = frozenset()


CUT = {"find_grt", "read_static_nc", "read_static_grn"}      # what they do is not part of the request
MODULES = {"np", "os", "subprocess", "shutil", "warnings", "os.path", "pathlib", "npct", "math", "ctypes"}


def subst(v, k):
    if isinstance(v, Sym):
        if v.k == "elem" and v.a[1] == "*":
            return Sym("elem", v.a[0], k)
        return Sym(v.k, *[subst(x, k) for x in v.a])
    return v


def load(t):
    n = ast.parse(ast.unparse(t), mode="eval").body
    return n


class Function:
    """a function of the Python layer with symbolic arguments"""

    def __init__(self, mod, cls, name):
        self.ok = False
        M = Module.get(mod)
        if cls:
            c = M.defs.get(cls)
            f = next((n for n in c.body if isinstance(n, ast.FunctionDef) and n.name == name), None) if isinstance(c, ast.ClassDef) else None
        else:
            f = M.defs.get(name)
        if not isinstance(f, ast.FunctionDef):
            return
        a = f.args
        names = [p for p in a.posonlyargs + a.args + a.kwonlyargs]
        dflt = dict(zip([p.arg for p in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        dflt.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.opt, self.ints = set(), set()
        for p in names:
            ann = ast.unparse(p.annotation) if p.annotation is not None else ""
            d = dflt.get(p.arg)
            if "Optional" in ann or "None" in ann or isinstance(d, ast.Constant) and d.value is None:
                self.opt.add(p.arg)
            if re.search(r"\bint\b", ann) and "float" not in ann:
                self.ints.add(p.arg)
        self_ = names[0].arg if cls and names and names[0].arg == "self" else None
        self.closure = Closure(f, M, None, Sym("self", ClassRef(M.defs[cls], M)) if self_ else None)
        self.names = [p.arg for p in names if p.arg != self_]
        self.ok = True

    def go(self, plan, pref):
        ev = Ev(plan, pref)
        ev.optional = self.opt
        ev.integers = frozenset(self.ints)
        res = err = None
        try:
            res = ev.apply(self.closure, [], {p: Sym("p", p) for p in self.names})
        except PyRaise as e:
            err = e.name
        return ev, res, err


def base(fn, first):
    """a way that starts a program, preferring what first(key) says; the preferences that lead there"""
    learned = {}
    for _ in range(300):
        ev, res, err = fn.go([], lambda k: learned.get(k, first(k)))
        if err is None:
            return learned
        done = True
        for k, n, r in reversed(ev.trail):
            if k not in learned:
                learned[k] = (r + 1) % n
                done = False
                break
        if done:
            return None
    return None


def ways(fn, first, depth, limit=600000):
    """every way that deviates from a base way in at most `depth` decisions (all ways if there are not more than the limit)"""
    learned = base(fn, first)
    if learned is None:
        learned = {}
    pref = lambda k: learned.get(k, first(k))
    stack = [([], depth)]
    n = 0
    while stack:
        plan, left = stack.pop()
        got = fn.go(plan, pref)
        yield got
        n += 1
        if n > limit:
            raise Stop("too many ways")
        ev, err = got[0], got[2]
        t = ev.trail
        # an unprescribed choice that only ends in an error is mended without counting as a deviation
        if err is not None and not ev.log and len(t) > len(plan):
            k, w, r = t[-1]
            p = [x[2] for x in t[:-1]]
            for o in range(w):
                if o != r:
                    stack.append((p + [o], left))
        else:
            p = None
        if left:
            for i in range(len(plan), len(t) - (1 if p is not None else 0)):
                k, w, r = t[i]
                pre = [x[2] for x in t[:i]]
                for o in range(w):
                    if o != r:
                        stack.append((pre + [o], left - 1))
