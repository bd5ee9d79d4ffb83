"""Python side: obligations on subprocess results, over the statement tree."""
import ast, os
from front import REPO


def load(mod):
    p = os.path.join(REPO, "pygrt", mod)
    return ast.parse(open(p, encoding="utf-8").read(), p)


def functions(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out[n.name] = n
    return out


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


RUNNERS_OBJ = {"subprocess.run", "run"}
RUNNERS_RC = {"subprocess.call", "os.system", "call"}


def is_runner(call):
    d = dotted(call.func)
    if d in RUNNERS_OBJ:
        for k in call.keywords:
            if k.arg == "check" and isinstance(k.value, ast.Constant) and k.value.value is True:
                return None
        return "obj"
    if d in RUNNERS_RC:
        return "rc"
    if d in ("subprocess.Popen", "Popen"):
        return "obj"
    return None


class Walk:
    """pending: frozenset of (name, kind).  Returns the states at the fall-through end."""

    def __init__(self, funcs, imports):
        self.funcs, self.imports = funcs, imports
        self.bad = []
        self.n = 0
        self.depth = 0

    def func(self, fn, pending=frozenset()):
        ends = self.block(fn.body, {pending})
        for s in ends:
            if s:
                self.bad.append((fn, "%s: the exit status of the command is not examined before %s returns" % (sorted(x[0] for x in s)[0], fn.name)))

    def block(self, stmts, states):
        for st in stmts:
            if not states:
                break
            states = self.stmt(st, states)
        return states

    def stmt(self, st, states):
        if isinstance(st, (ast.Raise,)):
            return set()
        if isinstance(st, ast.Return):
            for s in states:
                s = self.effects(st.value, s) if st.value is not None else s
                rest = {x for x in s if not (st.value is not None and self.mentions(st.value, x))}
                if rest:
                    self.bad.append((st, "%s: the exit status of the command is not examined before the function returns" % sorted(x[0] for x in rest)[0]))
            return set()
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and is_runner(st.value) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            self.n += 1
            k = is_runner(st.value)
            return {s | {(st.targets[0].id, k)} for s in states}
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            # rc = completed.returncode
            out = set()
            for s in states:
                hit = [x for x in s if self.status_expr(st.value, x)]
                if hit:
                    s = (s - set(hit)) | {(st.targets[0].id, "rc")}
                else:
                    s = self.effects(st.value, s)
                out.add(s)
            return out
        if isinstance(st, ast.If):
            t, f = set(), set()
            for s in states:
                s = self.effects(st.test, s)
                okt, okf = self.cond(st.test, s)
                t.add(s - okt)
                f.add(s - okf)
            return self.block(st.body, t) | self.block(st.orelse, f)
        if isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
            body = self.block(st.body, set(states))
            return self.block(st.orelse, set(states) | body)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                if isinstance(it.context_expr, ast.Call) and is_runner(it.context_expr) and isinstance(it.optional_vars, ast.Name):
                    states = {s | {(it.optional_vars.id, "obj")} for s in states}
                    self.n += 1
            return self.block(st.body, states)
        if isinstance(st, ast.Try):
            b = self.block(st.body, set(states))
            b = self.block(st.orelse, b)
            h = set()
            for hd in st.handlers:
                h |= self.block(hd.body, set(states))
            return self.block(st.finalbody, b | h)
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return states
        if isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Call) and is_runner(st.value):
                self.n += 1
                self.bad.append((st, "the exit status of the command is discarded"))
            return {self.effects(st.value, s) for s in states}
        return states

    def status_expr(self, e, x):
        if x[1] == "rc":
            return isinstance(e, ast.Name) and e.id == x[0]
        return isinstance(e, ast.Attribute) and e.attr == "returncode" and isinstance(e.value, ast.Name) and e.value.id == x[0] or \
            (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "wait" and isinstance(e.func.value, ast.Name) and e.func.value.id == x[0])

    def mentions(self, e, x):
        return any(isinstance(n, ast.Name) and n.id == x[0] for n in ast.walk(e))

    def cond(self, e, s):
        """(discharged when true, discharged when false)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.cond(e.operand, s)
            return b, a
        if isinstance(e, ast.BoolOp):
            cs = [self.cond(v, s) for v in e.values]
            if isinstance(e.op, ast.And):
                t = set().union(*[c[0] for c in cs])
                f = set.intersection(*[set(c[1]) for c in cs])
            else:
                t = set.intersection(*[set(c[0]) for c in cs])
                f = set().union(*[c[1] for c in cs])
            return t, f
        for x in s:
            if self.status_expr(e, x):
                return set(), {x}
            if isinstance(e, ast.Compare) and len(e.ops) == 1:
                l, r = e.left, e.comparators[0]
                if self.status_expr(r, x):
                    l, r = r, l
                if self.status_expr(l, x) and (isinstance(r, ast.Constant) and r.value == 0 and not isinstance(r.value, bool) or dotted(r) == "os.EX_OK"):
                    if isinstance(e.ops[0], (ast.NotEq, ast.IsNot)):
                        return set(), {x}
                    if isinstance(e.ops[0], (ast.Eq, ast.Is)):
                        return {x}, set()
        return set(), set()

    def effects(self, e, s):
        if e is None:
            return s
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr == "check_returncode" and isinstance(n.func.value, ast.Name):
                    s = frozenset(x for x in s if x[0] != n.func.value.id)
                elif isinstance(n.func, ast.Name) and n.func.id in self.funcs and self.depth < 4:
                    g = self.funcs[n.func.id]
                    for k, a in enumerate(n.args):
                        for x in list(s):
                            isobj = x[1] == "obj" and isinstance(a, ast.Name) and a.id == x[0]
                            isrc = self.status_expr(a, x)
                            if (isobj or isrc) and k < len(g.args.args):
                                w = Walk(self.funcs, self.imports)
                                w.depth = self.depth + 1
                                w.func(g, frozenset([(g.args.args[k].arg, "rc" if isrc else "obj")]))
                                if not w.bad:
                                    s = s - {x}
        return s


def swallowing(tree, names):
    """calls of `names` inside a try whose handler swallows the error"""
    out = []

    def visit(n, guard):
        if isinstance(n, ast.Try):
            catches = any(h.type is None or any(dotted(t) in ("Exception", "BaseException", "RuntimeError", "subprocess.CalledProcessError")
                          for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])) and not any(isinstance(x, ast.Raise) for x in ast.walk(h))
                          for h in n.handlers)
            for b in n.body:
                visit(b, guard or catches)
            for b in n.handlers + n.orelse + n.finalbody:
                visit(b, guard)
            return
        if isinstance(n, ast.With):
            for it in n.items:
                if isinstance(it.context_expr, ast.Call) and (dotted(it.context_expr.func) or "").endswith("suppress"):
                    guard = True
        if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in names and guard:
            out.append(n)
        for c in ast.iter_child_nodes(n):
            visit(c, guard)
    visit(tree, False)
    return out
