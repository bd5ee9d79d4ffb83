from result import Result, Vanished
import errflow as E
import optflow as O
import scenario
from degree import Degree, COORD

# (scenario, command, excluded options, options certainly given, what is scaled, only positive factors)
SCEN = [
    ("source strength, synthetic seismograms", "syn_main", "", "SGAO", {"opt": "S"}, False),
    ("force components, synthetic seismograms", "syn_main", "MT", "FSGAO", {"opt": "F"}, False),
    ("moment tensor components, synthetic seismograms", "syn_main", "MF", "TSGAO", {"opt": "T"}, False),
    ("Green's functions, synthetic seismograms", "syn_main", "D", "SGAO", {"traces": 1}, False),
    ("source strength, static displacements", "static_syn_main", "C", "SGO", {"opt": "S"}, False),
    ("force components, static displacements", "static_syn_main", "CMT", "FSGO", {"opt": "F"}, False),
    ("moment tensor components, static displacements", "static_syn_main", "CMF", "TSGO", {"opt": "T"}, False),
    ("Green's functions, static displacements", "static_syn_main", "C", "SGO", {"fields": 1}, False),
    ("fault slip components, static displacements", "static_syn_main", "SMFT", "CGO", {"fault": (6, 7), "inr": False}, True),
    ("fault net slip, static displacements", "static_syn_main", "SMFT", "CGO", {"fault": (7,), "inr": True}, True),
    ("source strength, half-space displacements", "okada_main", "C", "SIO", {"opt": "S"}, False),
    ("fault slip components, half-space displacements", "okada_main", "SM", "CIO", {"fault": (6, 7), "inr": False}, True),
    ("fault net slip, half-space displacements", "okada_main", "SM", "CIO", {"fault": (7,), "inr": True}, True),
    ("displacements, strain", "strain_main", "", "", {"traces": 1}, False),
    ("displacements, rotation", "rotation_main", "", "", {"traces": 1}, False),
    ("displacements, stress", "stress_main", "", "", {"traces": 1}, False),
    ("displacements, static strain", "static_strain_main", "", "", {"fields": 1}, False),
    ("displacements, static rotation", "static_rotation_main", "", "", {"fields": 1}, False),
    ("displacements, static stress", "static_stress_main", "", "", {"fields": 1}, False),
]


def run(fe, tier, only=None, verbose=False):
    M = O.module(fe)
    r = Result("For every command that combines a source or a displacement field: starting from the numbers that describe its strength (degree 1; everything else degree 0), every sum adds equal degrees, every product adds and every quotient subtracts them; "
               "what is written as a trace or field has degree 1, coordinates and headers degree 0, no decision, rounding or nonlinear function is applied to a value of degree 1.")
    C = scenario.Commands(M, E.exit_summary(M))
    if len(C.R) < 10:
        raise Vanished("command-line parsing")
    sites = {id(s.ins): s for s in O.sites(M, C.W, set(M.funcs))}
    for name, root, excl, given, what, pos in SCEN:
        if only and only not in name:
            continue
        if root not in C.R:
            raise Vanished("command " + root)
        seeded = []

        def seed(fr, ins, k):
            s = sites.get(id(ins))
            if "opt" in what and s is not None and what["opt"] in s.opts and ins.block.fn.name == root:
                seeded.append(ins)
                return 1
            if what.get("inr") and nfields(M, ins) == 11 and k == 5:
                return ("int", 0, frozenset([100]))        # the only kind of fault this format has
            if "fault" in what and nfields(M, ins) == 11 and k in what["fault"]:
                seeded.append(ins)
                return 1
            return 0
        d = Degree(seed, positive=pos)
        d.traces, d.fields = what.get("traces", 0), what.get("fields", 0)
        if "inr" in what:
            d.equal = {".inr": what["inr"]}
        I = C.run(root, d, excl, given)
        r.count("scenarios")
        r.count("function_contexts", len(I.frames))
        r.count("instructions_evaluated", I.steps)
        if ("opt" in what or "fault" in what) and not seeded:
            raise Vanished("%s: no conversion reads it" % name)
        for (where, text), chain in d.events.items():
            r.bad("%s:%s" % (chain[0], text), "%s: %s" % (name, text), where)
        n1 = 0
        for (kind, ins, ctx), (names, deg) in d.outs.items():
            r.count("outputs_checked")
            if verbose:
                print("   ", kind, M.where(ins), sorted(names)[:4], deg, [c[0] for c in ctx][-2:])
            want = 1 if kind in ("data", "var") else 0
            if kind == "var" and names & COORD or kind == "data" and any("sig.sac" in n for n in names):
                want = 0
            n1 += want
            if want == 0 and deg in (None, "Z"):
                continue
            if deg != want:
                r.bad("%s:%s" % (ins.block.fn.name, kind), "%s: %s written here scales with degree %s instead of %d" % (name, {"data": "a trace", "head": "a header", "var": "a variable", "att": "an attribute"}[kind], deg, want), M.where(ins))
        if not n1:
            raise Vanished(name + ": no result is written")
    r.assumptions = ["numbers are real numbers (rounding is not considered)", "the library transforms (FFT) are linear"]
    return r


def nfields(M, ins):
    s = M.cstring(ins.args[1])
    return s.count("%lf") if s else 0
