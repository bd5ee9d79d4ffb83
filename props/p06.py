from result import Result, Vanished
import errflow as E
import optflow as O
from optflow import NEG, NONPOS, gt, ge, lt

GRN = ("greenfn_main", "modsum_main", "static_greenfn_main")
POINT = ("syn_main", "static_syn_main", "okada_main")
ONE = "single value"
# (commands, option, sub-option or None, number of fields, number given or None for all, field, forbidden interval | "asc", description)
RULES = []


def rule(cmds, opt, sub, n, field, bad, text, given=None):
    for c in (cmds if isinstance(cmds, tuple) else (cmds,)):
        RULES.append((c, opt, sub, n, given, field, bad, text))


def span(cmds, opt, sub, lo_bad, hi_bad, asc=">", givens=(None,)):
    """start / end / step"""
    for g in givens:
        if g is None or g == 3:
            rule(cmds, opt, sub, 3, 2, NONPOS, "a step that is not positive", g)
        rule(cmds, opt, sub, 3, (0, 1), asc, "a start beyond the end", g)
        if lo_bad:
            rule(cmds, opt, sub, 3, 0, lo_bad, "an inadmissible start", g)
        if hi_bad:
            rule(cmds, opt, sub, 3, 1, hi_bad, "an inadmissible end", g)


# depths
for k in (0, 1):
    rule(GRN, "D", "", 2, k, NEG, "a negative depth")
rule(GRN, "D", None, 1, 0, NEG, "a negative depth")
span(GRN, "D", None, None, None)
rule(("kernel_main", "travt_main"), "D", None, 1, 0, NEG, "a negative depth")
rule(POINT, "D", "s", 1, 0, NEG, "a negative depth")
rule(POINT, "D", "r", 1, 0, NEG, "a negative depth")
# distances
rule(GRN + ("travt_main", "syn_main"), "R", None, 1, 0, NEG, "a negative distance")
span(GRN + ("travt_main",), "R", None, None, None)
# grids
span(("static_greenfn_main", "static_syn_main", "okada_main"), "X", None, None, None)
span(("static_greenfn_main", "static_syn_main", "okada_main"), "Y", None, None, None)
# time sampling
rule("greenfn_main", "N", "", 2, 0, NONPOS, "a sample count that is not positive")
rule("greenfn_main", "N", "", 2, 1, NONPOS, "a sampling interval that is not positive")
rule("greenfn_main", "H", "", 2, (0, 1), "+>", "a lower band limit above the upper one")
rule("greenfn_main", "N", "n", 1, 0, NONPOS, "a factor that is not positive")
rule("greenfn_main", "N", "w", 1, 0, NONPOS, "an imaginary-frequency factor that is not positive")
rule("kernel_main", "F", "w", 1, 0, NONPOS, "an imaginary-frequency factor that is not positive")
rule("modsum_main", "W", "", 1, 0, NONPOS, "a factor that is not positive")
rule("lamb1_main", "T", "", 3, 2, NONPOS, "a step that is not positive")
rule("lamb1_main", "T", "", 3, (0, 1), ">", "a start beyond the end")
rule("lamb1_main", "T", "", 3, 0, NEG, "a negative start")
# frequencies and modes
span("kernel_main", "F", "", NEG, NONPOS)
span(("eigenfn_main", "disp2asc_main"), "F", None, NEG, NONPOS, givens=(2, 3))
span("eigenv_main", "F", None, NEG, NONPOS, givens=(3,))
rule(("eigenfn_main", "disp2asc_main", "eigenv_main"), "F", None, 3, 0, NONPOS, "a single value that is not positive", 1)
span(("eigenfn_main", "modsum_main", "disp2asc_main"), "N", None, NEG, NEG, givens=(2, 3))
rule(("eigenfn_main", "modsum_main", "disp2asc_main"), "N", None, 3, 0, NEG, "a negative mode", 1)
rule("eigenv_main", "N", None, 1, 0, NEG, "a negative mode count")
rule("modsum_main", "F", None, 2, 0, NEG, "a negative frequency")
rule("modsum_main", "F", None, 2, 1, NEG, "a negative frequency")
rule("modsum_main", "F", None, 2, (0, 1), ">", "a start beyond the end")
rule("eigenv_main", "X", "", 1, 0, NONPOS, "a frequency that is not positive")
rule("eigenv_main", "X", "c", 2, 0, NEG, "a negative velocity")
rule("eigenv_main", "X", "c", 2, 1, NEG, "a negative velocity")
rule("eigenv_main", "X", "c", 2, (0, 1), ">", "a start beyond the end")
rule("eigenv_main", "X", "i", 1, 0, NEG, "a negative layer index")
rule("eigenfn_main", "K", "z", 1, 0, NONPOS, "a step that is not positive")
span("eigenfn_main", "W", "z", NEG, NONPOS, givens=(3,))
rule("eigenfn_main", "W", "z", 3, 0, NONPOS, "a single value that is not positive", 1)
span("kernel_main", "C", None, NONPOS, NONPOS, givens=(3,))
rule("kernel_main", "C", None, 3, 0, NONPOS, "a single value that is not positive", 1)
# integration
rule(("greenfn_main", "static_greenfn_main"), "K", "k", 1, 0, NEG, "a negative k0")
rule("greenfn_main", "K", "s", 1, 0, NEG, "a negative amplification")
rule("greenfn_main", "K", "v", 1, 0, NONPOS, "a velocity that is not positive")
rule(("greenfn_main", "kernel_main", "eigenv_main", "modsum_main"), "P", None, 1, 0, NONPOS, "a number of threads that is not positive")
rule("greenfn_main", "S", None, 1, 0, NEG, "a negative index")
rule(("greenfn_main", "modsum_main"), "E", "p", 1, 0, ge(0.0), "a delay before P that is not negative")
rule(("greenfn_main", "modsum_main"), "E", "", 2, 1, NEG, "a negative reduction velocity")
# source
rule("syn_main", "A", "", 1, 0, NEG, "an azimuth below 0")
rule("syn_main", "A", "", 1, 0, gt(360.0), "an azimuth above 360")
for g in (2, 3):
    rule(POINT, "M", "", 3, 0, NEG, "a strike below 0", g)
    rule(POINT, "M", "", 3, 0, gt(360.0), "a strike above 360", g)
    rule(POINT, "M", "", 3, 1, NEG, "a dip below 0", g)
    rule(POINT, "M", "", 3, 1, gt(90.0), "a dip above 90", g)
rule(POINT, "M", "", 3, 2, lt(-180.0), "a rake below -180", 3)
rule(POINT, "M", "", 3, 2, gt(180.0), "a rake above 180", 3)
rule("syn_main", "I", None, 1, 0, NONPOS, "an order that is not positive")
rule("syn_main", "J", None, 1, 0, NONPOS, "an order that is not positive")
rule("static_syn_main", "C", "i", 2, 0, NONPOS, "a sub-fault length that is not positive")
rule("static_syn_main", "C", "i", 2, 1, NONPOS, "a sub-fault width that is not positive")
rule("syn_main", "D", "", 1, 0, NONPOS, "a duration or frequency of the time function that is not positive")
rule("syn_main", "D", None, 3, 0, NEG, "a negative time of the trapezoid")
rule("syn_main", "D", None, 3, 1, NEG, "a negative time of the trapezoid")
rule("syn_main", "D", None, 3, 2, NONPOS, "a trapezoid without duration")
rule("syn_main", "D", None, 3, (0, 1), ">", "unordered times of the trapezoid")
rule("syn_main", "D", None, 3, (1, 2), ">", "unordered times of the trapezoid")
# media
rule("okada_main", "I", None, 4, 0, NONPOS, "a P velocity that is not positive", 3)
rule("okada_main", "I", None, 4, 1, NEG, "a negative S velocity", 3)
rule("okada_main", "I", None, 4, 2, NONPOS, "a density that is not positive", 3)
rule("lamb1_main", "P", "", 1, 0, NONPOS, "a Poisson ratio that is not positive")
rule("lamb1_main", "P", "", 1, 0, ge(0.5), "a Poisson ratio of 0.5 or more")
rule("lamb1_main", "A", "", 1, 0, NEG, "an azimuth below 0")
rule("lamb1_main", "A", "", 1, 0, gt(360.0), "an azimuth above 360")
for g in (4, 6):
    rule("*", "", None, 6, 1, NONPOS, "a P velocity in the model that is not positive", g)
    rule("*", "", None, 6, 2, NEG, "a negative S velocity in the model", g)
    rule("*", "", None, 6, 3, NONPOS, "a density in the model that is not positive", g)
rule("*", "", None, 6, 4, NONPOS, "a quality factor in the model that is not positive", 6)
rule("*", "", None, 6, 5, NONPOS, "a quality factor in the model that is not positive", 6)
rule(("static_syn_main", "okada_main"), "C", "", 11, 5, NEG, "a negative fault type")
rule(("static_syn_main", "okada_main"), "C", "", 11, 8, NONPOS, "a dip that is not positive")
rule(("static_syn_main", "okada_main"), "C", "", 11, 8, gt(90.0), "a dip above 90")
rule(("static_syn_main", "okada_main"), "C", "", 11, 9, NEG, "a fault top above the surface")
rule(("static_syn_main", "okada_main"), "C", "", 11, (9, 10), ">", "a fault top below its bottom")


def run(fe, tier):
    M = O.module(fe)
    r = Result("For every number read from an option, model file or fault file and every interval of values documented as inadmissible for it (or an inadmissible order of two of them), "
               "the paths from its conversion are followed under the hypothesis that the value lies anywhere in that interval; none on which the hypothesis is not refuted leads to a successful end of the command.")
    fatal = E.exit_summary(M)
    W = O.Walker(M, fatal)
    R = O.roots(M)
    S = [s for s in O.sites(M, W, set(M.funcs)) if s.fn.name in R and s.fmt is not None and s.ins.callee in O.SCANS]
    if not S:
        raise Vanished("text conversions")

    def is_root(f):
        return f.name in R or f.name == "main"
    used = set()
    nh = 0
    for s in S:
        fn, c = s.fn, s.ins
        n = len(s.conv)
        for ri, (cmd, opt, sub, nn, given, field, bad, text) in enumerate(RULES):
            if nn != n or (cmd != "*" and cmd != fn.name) or (opt and opt not in s.opts):
                continue
            if cmd == "*" and "/" in s.fmt:
                continue
            if sub and sub not in s.sub or sub == "" and s.sub:
                continue
            if any(x[-1] in "cs[" for x in s.conv[:max(field if isinstance(field, tuple) else (field,)) + 1]):
                continue
            if O.revalidated(M, W, s, S):
                continue
            used.add(ri)
            nh += 1
            env = {}
            if c.res:
                k = given or n
                env[c.res] = (None, (k, k, False, False))
            cell = [("m", W.key(fn, a)) for a in c.args[2:]]
            if isinstance(field, tuple):
                a, b = field
                iv = gt(0.0) if bad == "+>" else O.ALL
                env[cell[a]] = (("f", a), iv)
                env[cell[b]] = (("f", b), iv)
                env[("rel",)] = (("f", a), ("f", b))
            else:
                iv = bad
                if s.conv[field][-1] in "di":
                    iv = O.integer(bad)
                env[cell[field]] = (("f", field), iv)
            keep = set(cell) | set(s.ctx or ())
            for k in s.ctx or ():
                env.setdefault(k, (None, (1, 1, False, False)))

            def stop(ins, e, f, keep=keep, c=c, fn=fn, gs={id(x) for x, _ in R[fn.name]}, cell=set(cell)):
                if f is not fn or ins.op != "call":
                    return False
                if ins.callee in O.SCANS and any(("m", W.key(fn, a)) in cell for a in ins.args[2:]):
                    return True          # the value is replaced by another one
                if id(ins) in gs:
                    # the options that follow may be any
                    for k in [k for k, v in e.items() if isinstance(k, tuple) and k[0] == "m" and k not in keep]:
                        e.pop(k)
                    e[("late",)] = (None, (1, 1, False, False))      # -h may follow
                return False
            if W.accepted(fn, c, env, is_root, stop=stop):
                src = M.scope_func(c) or fn.name
                r.bad("%s:%s:%s:%s" % (fn.name, opt or "file", M.where(c).rsplit("/", 1)[-1], text), "%s%s accepts %s" % (fn.name.replace("_main", "").replace("_", " "), " -" + opt if opt else "", text), M.where(c))
    r.coverage.update(conversions=len(S), rules=len(RULES), rules_with_a_site=len(used), hypotheses=nh)
    r.unused = [RULES[i] for i in range(len(RULES)) if i not in used]
    r.coverage["rules_without_site"] = [" ".join(map(str, x[:3])) + " " + x[-1] for x in r.unused]
    r.assumptions = ["values are finite (not-a-number is not considered)", "text after the last number is not examined"]
    return r
