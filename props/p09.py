import errflow as E
import optflow as O
import scaling
from result import Result, Vanished
from degree import COORD

RHO = {"rho": 1}
OTHER = frozenset(["model"])            # the whole model table in one variable


def field(d):
    def want(names):
        if set(names) & OTHER:
            return None
        if set(names) & {"src_rho", "rcv_rho"}:
            return 1
        return 0 if set(names) & COORD else d
    return want


def scenarios(tier):
    S = scaling.Scenario
    sac = {43: 1, 48: 1}
    out = [
        S("dynamic Green's functions", "greenfn_main", {"data": lambda n: 0 if "%s/%s" in n else -1, "head": 0}, given="MON", model=RHO, head=sac),
        S("static Green's functions", "static_greenfn_main", {"var": field(-1), "att": 0, "head": None}, model=RHO),
        S("integrand of the Green's functions", "kernel_main", {}, given="MOFC", model=RHO),
        S("half-space displacements of a fault", "okada_main", {"var": lambda n: 1 if "rcv_rho" in n else 0, "att": lambda n: 1 if set(n) & {"rcv_rho", "lambda", "mu"} else 0}, excl="SM", given="CIO", opts={"I": {2: 1}}, kode=[100, 200, 300]),
        S("surface-wave phase velocities", "eigenv_main", {"var": 0, "att": 0}, given="MO", model=RHO, limit=400000000),
    ]
    return out


def run(fe, tier):
    M = O.module(fe)
    r = Result("For every command that computes from a layered model: the numbers of the model file (and of the options) that carry densities get their degree, everything else degree 0; every sum adds equal degrees, every product adds and every quotient subtracts them, over all call paths; "
               "each trace, variable, attribute and header field written has the degree of the scaling law, and no decision, rounding or nonlinear function is applied to a value with a degree other than 0 (comparisons of equal degrees excepted).")
    ss = scenarios(tier)
    for s, g in zip(ss, scaling.run_all(M, ss)):
        scaling.judge(r, s, g, verbose=False)
    r.assumptions = ["numbers are real numbers (rounding is not considered)", "the library transforms (FFT) are linear",
                     "factors are positive"]
    return r
