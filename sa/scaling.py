"""Scaling laws of whole commands: inputs are given degrees, the degrees of
everything that is written are computed (see degree.py) and compared with the
law.  Scenarios run side by side in forked processes."""
import os, pickle, sys, multiprocessing
import errflow as E
import optflow as O
import scenario
from degree import Degree
from result import Vanished

LAYER = ("H", "va", "vb", "rho", "Qa", "Qb")        # the six columns of a model file


class Scenario:
    """model: degree per column; opts: degree per option letter (letter+sub-option), or per field of it;
    fault: degree per column of a fault file, kode: its kinds; wild: literals that are documented safeguards."""
    def __init__(self, name, root, want, excl="", given="", model=None, opts=None, fault=None, kode=None, wild=(), traces=0, fields=0, head=None, skip=(), inr=False, ncfields=None, limit=0):
        self.__dict__.update(locals())
        self.model, self.opts, self.fault = model or {}, opts or {}, fault or {}


def evaluate(M, C, sites, s):
    seeded = set()

    def seed(fr, ins, k):
        t = sites.get(id(ins))
        conv = t.conv if t is not None else O.conversions(M.cstring(ins.args[1]) or "")
        real = [i for i, c in enumerate(conv) if c[-1] in "fge"]
        if len(real) == 6 and len(conv) == 6:
            d = s.model.get(LAYER[k], 0)
            if d:
                seeded.add(LAYER[k])
            return d
        if len(real) == 11:
            if s.kode and k == 5:
                return ("int", 0, frozenset(s.kode))
            d = s.fault.get(k, 0)
            if d:
                seeded.add("fault")
            return d
        if t is not None and k in real:
            for o in sorted(t.opts):
                v = s.opts.get(o + "+" + t.sub if t.sub and o + "+" + t.sub in s.opts else o if not t.sub else None)
                if isinstance(v, dict):
                    v = v.get(k, 0)
                if v is not None:
                    if v:
                        seeded.add(o)
                    return v
        return 0
    d = Degree(seed, positive=True)
    d.wild = frozenset(s.wild) | {-12345.0}       # "not set" in SAC headers
    d.traces, d.fields = s.traces, s.fields
    I = C.run(s.root, d, s.excl, s.given, **({"limit": s.limit} if s.limit else {}))
    outs = []
    for (kind, ins, ctx), (names, deg) in d.outs.items():
        cells = d.cells.get((ins, ctx)) if kind == "head" else None
        n = 0
        if kind == "head":
            n = ins.args[1].val * ins.args[2].val
        outs.append((kind, M.where(ins), ins.block.fn.name, sorted(names), deg, cells, n, [c[0] for c in ctx]))
    need = {k for k, v in s.model.items() if v} | {o.split("+")[0] for o, v in s.opts.items()} | ({"fault"} if s.fault else set())
    return {"events": dict(d.events), "outs": outs, "missing": sorted(need - seeded), "frames": len(I.frames), "steps": I.steps}


_work = None


def _one(i):
    sys.setrecursionlimit(20000)
    M, C, sites, scen = _work
    try:
        return evaluate(M, C, sites, scen[i])
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def run_all(M, scen):
    global _work
    C = scenario.Commands(M, E.exit_summary(M))
    for s in scen:
        if s.root not in C.R:
            raise Vanished("command " + s.root)
    sites = {id(x.ins): x for x in O.sites(M, C.W, set(M.funcs))}
    _work = (M, C, sites, scen)
    order = sorted(range(len(scen)), key=lambda i: 0 if scen[i].root.startswith("eigen") else 1)
    with multiprocessing.get_context("fork").Pool(min(8, len(scen))) as p:
        got = p.map(_one, order, chunksize=1)
    res = [None] * len(scen)
    for i, g in zip(order, got):
        if isinstance(g, str):
            raise RuntimeError("%s: %s" % (scen[i].name, g))
        res[i] = g
    return res


def judge(r, s, g, verbose=False):
    """compare what the command writes with the law"""
    r.count("scenarios")
    r.count("function_contexts", g["frames"])
    r.count("instructions_evaluated", g["steps"])
    if g["missing"]:
        raise Vanished("%s: nothing reads %s" % (s.name, ", ".join(g["missing"])))
    for (where, text), chain in g["events"].items():
        if where == "None:0" and not chain:
            continue
        r.bad("%s:%s" % (chain[0], text), "%s: %s" % (s.name, text), where)
    results = 0
    for kind, where, fn, names, deg, cells, n, ctx in g["outs"]:
        if verbose:
            print("   ", s.name, kind, where, names[:3], deg, ctx[-2:])
        if any(x in s.skip for x in names) or kind in s.skip:
            continue
        if kind == "head" and s.head is not None and n == 440:
            for o, x in cells.items():
                if not isinstance(o, int) or o % 4:
                    continue
                r.count("header_fields_checked")
                want = s.head.get(o // 4, 0)
                if x not in (None, "Z", "W", want) and not (want is None):
                    r.bad("%s:header%d" % (fn, o // 4), "%s: header field %d written here scales with degree %s instead of %s" % (s.name, o // 4, x, want), where)
            continue
        if kind == "head" and s.head is not None and n == 192:
            continue                            # texts
        want = s.want.get(kind)
        if callable(want):
            want = want(names)
        if want is None:
            continue
        if want:
            results += 1
        r.count("outputs_checked")
        if deg in (None, "Z", "W") and not want:
            continue
        if deg != want:
            r.bad("%s:%s" % (fn, kind), "%s: what is written here scales with degree %s instead of %s (%s)" % (s.name, deg, want, "/".join(names[:3])), where)
        elif not want:
            results += 1
    if not results and s.want:
        raise Vanished(s.name + ": no result is written")
