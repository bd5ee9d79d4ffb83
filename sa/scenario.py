"""A command under a choice of options: which letters getopt may return, and
which options are certainly given."""
import optflow as O
from ir import Const
from absint import Interp, Loc, EMPTY


class Commands:
    def __init__(self, M, fatal):
        self.M = M
        self.W = O.Walker(M, fatal)
        self.R = O.roots(M)

    def given_cells(self, root, c):
        """cells that every way through option -c sets, as offsets of objects of the command's frame"""
        f = self.M.funcs[root]
        g, ostr = self.R[root][0]
        W = self.W
        seen = {}

        def obs(ins, env):
            if ins.op == "store" and ins.block.fn is f:
                k = W.key(f, ins.args[1])
                if k is not None and not k[2]:
                    seen.setdefault(k, []).append(ins)
        W.walk(f, g, {g.res: (None, (ord(c), ord(c), False, False))}, stop=lambda i, e, fn: i is g, observe=obs)
        out = set()
        for k in seen:
            if isinstance(k[0], str) and k[0] in f.defs and self.mandatory(f, g, c, k):
                d = f.defs[k[0]]
                if d.op == "alloca":
                    out.add(((f.name, (), d.res), k[1]))
                elif d.op == "call":
                    out.add(((f.name, (), d.res + "@" + d.block.name), k[1]))
        return out

    def mandatory(self, f, g, c, key):
        again = []
        W = self.W

        def stop(ins, env, fn):
            if ins is g:
                again.append(1)
                return True
            return ins.op == "store" and ins.block.fn is f and W.key(f, ins.args[1]) == key
        W.walk(f, g, {g.res: (None, (ord(c), ord(c), False, False))}, stop=stop)
        return not again

    def interp(self, root, dom, exclude="", given="", **kw):
        f = self.M.funcs[root]
        g, ostr = self.R[root][0]
        I = Interp(self.M, dom, **kw)
        I.optset = frozenset([-1] + [ord(c) for c in O.letters(ostr) if c not in exclude])
        for c in given:
            I.given |= self.given_cells(root, c)
        if I.given:
            for i in f.instrs():
                if i.op == "store" and f.idominates(i, g):
                    I.before.add(id(i))
        return I

    def run(self, root, dom, exclude="", given="", **kw):
        I = self.interp(root, dom, exclude, given, **kw)
        I.run(root, [(EMPTY, dom.neutral()), (frozenset([Loc("argv")]), None)])
        return I
