import itertools
from result import Result, Vanished
import errflow as E
import optflow as O

REQ = {"greenfn_main": "MNOR", "kernel_main": "MDFCO", "syn_main": "GASO", "lamb1_main": "PTA", "eigenfn_main": "C", "eigenv_main": "MS", "modsum_main": "COR", "okada_main": "IO",
       "static_greenfn_main": "MXYO", "static_syn_main": "GO", "travt_main": "MDR"}
DEP = ["D+ Ds+", "D+ Dr+", "Ds+ Dr-", "Ds- Dr+", "D- Ds- Dr-"]
ONE_SOURCE = ["M+ F+", "M+ T+", "F+ T+"]
FORBID = {
    "greenfn_main": DEP, "modsum_main": DEP, "static_greenfn_main": DEP,
    "syn_main": ONE_SOURCE,
    "static_syn_main": ONE_SOURCE + ["C+ S+", "C+ M+", "C+ F+", "C+ T+", "C- S-", "M+ S-", "F+ S-", "T+ S-", "Q+ X+", "Q+ Y+", "X+ Y-", "X- Y+", "Q+ Dr+", "C+ Ds+"],
    "okada_main": ["S+ C+", "M+ C+", "C- S-", "M+ S-", "S+ Ds-", "C+ Ds+", "Q- X-", "Q- Y-", "Q- Dr-"],
    "eigenv_main": ["F+ X+", "F- X-", "X- C-"],
    "disp2asc_main": ["C+ U+", "C- U-"],
}


def run(fe, tier):
    M = O.module(fe)
    r = Result("For every command: after an unknown option or a missing argument (getopt's '?' and ':'), after the options with a mandatory one absent, and after every documented inadmissible combination of present and absent options, "
               "no path leads to a successful end of the command (the options' presence flags are found as the memory cells set while the option is handled).")
    fatal = E.exit_summary(M)
    W = O.Walker(M, fatal)
    R = O.roots(M)
    if len(R) < 10:
        raise Vanished("command-line parsing")

    def is_root(f):
        return f.name in R or f.name == "main"
    nh = n0 = 0
    missing = []
    for root, gs in R.items():
        f = M.funcs[root]
        for g, ostr in gs:
            if ostr is None:
                missing.append(root)
                continue
            for ch, what in ((ord("?"), "an unknown option"), (ord(":"), "an option without its argument")):
                if ch == ord(":") and not ostr.lstrip("+-").startswith(":"):
                    continue
                nh += 1
                if W.accepted(f, g, {g.res: (None, (ch, ch, False, False))}, is_root, stop=None):
                    r.bad("%s:%c" % (root, ch), "%s: %s does not always end the command with an error" % (root, what), M.where(g))
            fl = O.flags(M, W, f, g, ostr)
            combos = [c + "-" for c in REQ.get(root, "")] + FORBID.get(root, [])
            for combo in combos:
                env = {g.res: (None, (-1, -1, False, False))}
                ok = True
                for t in combo.split():
                    name, given = t[:-1], t[-1] == "+"
                    cells = fl.get((name[0], name[1:]))
                    if not cells:
                        ok = False
                        break
                    if given:
                        if len(cells) > 1:
                            cells = {k for k in cells if mandatory(W, f, g, name[0], k)}
                        if not cells:
                            ok = False
                    elif len(name) == 1 and name != "D":
                        cells = set().union(*(v for k, v in fl.items() if k[0] == name[0]))
                    for k in cells:
                        env[("m", k)] = (None, (int(given), int(given), False, False))
                if not ok:
                    missing.append(root + " " + combo)
                    continue
                nh += 1
                if W.accepted(f, g, env, is_root) and split(W, f, g, env, fl, FORBID.get(root, []), is_root):
                    txt = " and ".join(("with" if t[-1] == "+" else "without") + " -" + t[:-1] for t in combo.split())
                    r.bad("%s:%s" % (root, combo), "%s %s does not always end with an error" % (root.replace("_main", "").replace("_", " "), txt), M.where(g))
    r.coverage.update(commands=len(R), hypotheses=nh, rules=sum(map(len, REQ.values())) + sum(map(len, FORBID.values())), unresolved=len(missing))
    r.coverage["unresolved_rules"] = missing
    r.assumptions = ["the option record starts zeroed"]
    return r


def mandatory(W, f, g, c, key):
    """is the cell set on every way from this option to the next one?"""
    again = []

    def stop(ins, env, fn):
        if ins is g:
            again.append(1)
            return True
        return ins.op == "store" and W.key(f, ins.args[1]) == key
    W.walk(f, g, {g.res: (None, (ord(c), ord(c), False, False))}, stop=stop)
    return not again


def split(W, f, g, env, fl, combos, is_root):
    """repeat the question for every assignment of the other options' flags"""
    cells = []
    for n in sorted({t[:-1] for c in combos for t in c.split()}):
        for k in sorted(fl.get((n[0], n[1:]), ()), key=repr):
            if ("m", k) not in env and k not in cells:
                cells.append(k)
    if len(cells) > 10:
        return True
    for bits in itertools.product((0, 1), repeat=len(cells)):
        e = dict(env)
        for k, b in zip(cells, bits):
            e[("m", k)] = (None, (b, b, False, False))
        if W.accepted(f, g, e, is_root):
            return True
    return False
