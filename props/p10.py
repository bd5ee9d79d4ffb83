import errflow as E
import optflow as O
import scaling
from result import Result, Vanished
from degree import COORD

VEL = {"va": 1, "vb": 1}
OTHER = frozenset(["model"])
TIMES = {0: -1, 5: -1, 6: -1, 10: -1, 11: -1, 40: 1, 41: 1, 42: 1, 46: 1, 47: 1}
# lower bounds and sentinels the documentation names, and the marker of "no value"
GUARD = (0.1, 1e-6, 9e30, -1.0)


def field(d):
    def want(names):
        if set(names) & OTHER:
            return None
        if set(names) & {"src_va", "src_vb", "rcv_va", "rcv_vb"}:
            return 1
        return 0 if set(names) & COORD else d
    return want


def scenarios(tier):
    S = scaling.Scenario
    return [
        S("dynamic Green's functions", "greenfn_main", {"data": lambda n: 0 if "%s/%s" in n else -1}, given="MON", model=VEL,
          opts={"N": -1, "E": {0: -1, 1: 1}, "E+p": -1, "H": 1, "K": 1, "K+v": 1}, head=TIMES, wild=GUARD, limit=400000000),
        S("static Green's functions", "static_greenfn_main", {"var": field(-2), "att": 0}, model=VEL, limit=400000000),
        S("integrand of the Green's functions", "kernel_main", {}, given="MOFC", model=VEL, opts={"F": 1, "C": 1}, wild=(9e30,), limit=400000000),
        S("half-space displacements of a fault", "okada_main", {"var": lambda n: 1 if set(n) & {"rcv_va", "rcv_vb"} else 0,
          "att": lambda n: 1 if set(n) & {"rcv_va", "rcv_vb"} else 2 if set(n) & {"lambda", "mu"} else 0}, excl="SM", given="CIO", opts={"I": {0: 1, 1: 1}}, kode=[100, 200, 300]),
    ]


def run(fe, tier):
    M = O.module(fe)
    r = Result("For every command that computes from a layered model: the numbers of the model file (and of the options) that carry velocities and times get their degree, everything else degree 0; every sum adds equal degrees, every product adds and every quotient subtracts them, over all call paths; "
               "each trace, variable, attribute and header field written has the degree of the scaling law, and no decision, rounding or nonlinear function is applied to a value with a degree other than 0 (comparisons of equal degrees excepted).")
    ss = scenarios(tier)
    for s, g in zip(ss, scaling.run_all(M, ss)):
        scaling.judge(r, s, g, verbose=False)
    r.assumptions = ["numbers are real numbers (rounding is not considered)", "the library transforms (FFT) are linear",
                     "factors are positive; documented floors (lowest reference velocity 0.1 km/s, lowest angular frequency) are not crossed"]
    return r
