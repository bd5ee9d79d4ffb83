import itertools, multiprocessing, re, sys
import pysym as Y
from result import Result, Vanished

SIZES = {"force": 3, "moment_tensor": 6, "norths": 3, "easts": 3, "modelparams": 3, "subfault_size": 2, "freqband": 2}


class Ignored(Exception):
    pass


class F:
    """what one way through the function knows about its arguments"""

    def __init__(self, ev):
        self.f = ev.facts
        self.v = ev.vals
        self.opt = ev.optional

    def given(self, p):
        if p not in self.opt:
            return True
        k = "none:" + p
        if k in self.f:
            return not self.f[k]
        if self.f.get("true:" + p):
            return True
        raise Ignored(p)

    def true(self, p):
        k = "true:" + p
        if self.f.get("none:" + p):
            return False
        if k in self.f:
            return self.f[k]
        if self.f.get("cond:%s<0" % p):
            return True
        raise Ignored(p)

    def zero(self, p):
        """known to be zero"""
        return self.f.get("true:" + p) is False

    def many(self, *ps):
        r = [self.f.get("many:" + p) for p in ps]
        return True if True in r else False if False in r and None not in r else None


def lst(p, sep):
    n = SIZES.get(p)
    if n:
        return sep.join("<%s[%d]>" % (p, i) for i in range(n))
    return "<%s[*]|%s>" % (p, sep)


def norm(tok, facts):
    """text of an argument with lists of known length written out"""
    def one(m):
        p, sep = m.group(1), m.group(2)
        if facts.get("many:" + p) is False:
            return "<%s[0]>" % p
        return lst(p, sep) if p in SIZES else m.group(0)
    return re.sub(r"<(\w+)\[\*\]\|([^>]*)>", one, tok)


def split(tok):
    """an argument as (letter and value, sub-options in any order)"""
    parts, depth, cur = [], 0, ""
    for c in tok:
        if c in "<{(":
            depth += 1
        elif c in ">})":
            depth -= 1
        if c == "+" and depth == 0:
            parts.append(cur)
            cur = ""
        cur += c
    parts.append(cur)
    return parts[0], tuple(sorted(parts[1:]))


def source(f):
    if f.given("force"):
        yield "-F" + lst("force", "/")
    if f.given("moment_tensor"):
        yield "-T" + lst("moment_tensor", "/")
    yield from geometry(f)


def geometry(f):
    if f.given("strike"):
        if not f.given("dip"):
            raise Ignored("dip")
        yield "-M<strike>/<dip>" + ("/<rake>" if f.given("rake") else "")
    else:
        for p in ("dip", "rake"):
            if f.given(p):
                raise Ignored(p)


def depths(f):
    m = f.many("depsrc", "deprcv")
    both = ("-Ds<depsrc[*]|,>", "-Dr<deprcv[*]|,>")
    if m is False:
        yield [("-D<depsrc[0]>/<deprcv[0]>",), both]
    else:
        yield [both]


def enum(f, name, m, subject):
    """text an argument with fixed values becomes"""
    if subject in f.v:
        return m.get(f.v[subject])
    return None


TOP = {"free": "f", "rigid": "r", "halfspace": "h"}
BOT = {"free": "F", "rigid": "R", "halfspace": "H"}
CVG = {"AUTO": "", "DCM": "d", "PTAM": "p", "NONE": "n"}
GFS = {"EX": "e", "VF": "v", "HF": "h", "DC": "s"}


def mp(m, k):
    return "{%s}(%s)" % (",".join("%s:%s" % x for x in sorted(m.items())), k)


def boundary(f):
    t, b = f.v.get("self.topbound"), f.v.get("self.botbound")
    yield "-B" + (TOP[t] if t in TOP else mp(TOP, "self.topbound")) + (BOT[b] if b in BOT else mp(BOT, "self.botbound"))


def cvg(f):
    k = "upper(converg_method)"
    if k in f.v:
        if CVG.get(f.v[k]):
            yield "-C" + CVG[f.v[k]]
        return
    t = "true:" + mp(CVG, k)
    if t not in f.f:
        raise Ignored("converg_method")
    if f.f[t]:
        yield "-C" + mp(CVG, k)


def sub(f, ch, p):
    """a sub-option that may be left out when its argument is zero"""
    if f.zero(p):
        return None
    return "+%s<%s>" % (ch, p)


def nz(f, head, *subs):
    return [head] + [x for x in subs if x]


def grn(f):
    yield "greenfn"
    yield "-M<self.modelpath>"
    yield from depths(f)
    yield "".join(nz(f, "-N<nt>/<dt>", "+w<zeta>", "+n<upsampling_n>", "+a" if f.true("keepAllFreq") else "", "+f" if f.true("skipImagComps") else ""))
    yield "-R" + lst("dists", ",")
    yield "-O<self.grn>"
    yield from boundary(f)
    yield "-H<freqband[0]>/<freqband[1]>"
    yield "".join(nz(f, "-L<Length>", sub(f, "l", "filonLength"), sub(f, "a", "safilonTol"), sub(f, "o", "filonCut")))
    yield from cvg(f)
    yield "".join(nz(f, "-K", "+k<k0>", "+f" if f.true("use_kmax_ref") else "", "+s<ampk>", "+e<keps>", sub(f, "v", "vmin_ref")))
    yield "-Ep<delayT0>" if f.true("ref_first_p") else "-E<delayT0>/<delayV0>"
    if f.given("gf_source"):
        k = "upper(<gf_source[*]>)"
        yield [("-G<%s|>" % mp(GFS, k),), ("-G<%s|>" % mp(GFS, "upper(gf_source[*])"),), ("-G",) if f.f.get("true:gf_source") is False else ("-G<%s|>" % mp(GFS, k),)]
    if f.given("statsidxs"):
        yield "-S" + lst("statsidxs", ",")
    if f.true("calc_upar"):
        yield "-e"
    if not f.true("print_log"):
        yield "-s"


def stgrn(f):
    yield "static"
    yield "greenfn"
    yield "-M<self.modelpath>"
    yield from depths(f)
    yield "-O<self.stgrn>"
    yield from boundary(f)
    if f.given("dists"):
        for p in ("norths", "easts"):
            if f.given(p):
                raise Ignored(p)
        yield "-R" + lst("dists", ",")
    else:
        yield "-X" + lst("norths", "/")
        yield "-Y" + lst("easts", "/")
    yield "".join(nz(f, "-L<Length>", sub(f, "l", "filonLength"), sub(f, "a", "safilonTol"), sub(f, "o", "filonCut")))
    yield from cvg(f)
    yield "".join(nz(f, "-K", "+k<k0>", "+f" if f.true("use_kmax_ref") else "", "+e<keps>"))
    m = f.many("depsrc", "deprcv")
    if f.true("stats") and m is not True:
        yield "-S"
    if f.true("calc_upar"):
        yield "-e"


def depth(f):
    for p, o in (("depsrc", "-Ds"), ("deprcv", "-Dr")):
        if f.given(p):
            yield "%s<%s>" % (o, p)


def tail(f):
    if f.true("zne"):
        yield "-N"
    if f.true("calc_upar"):
        yield "-e"


def syn(f):
    yield "syn"
    yield "-G<self.grn>"
    yield "-A<azimuth>"
    yield "-S%s<scale>" % ("u" if f.true("scale_with_mu") else "")
    yield "-O<output_path>"
    yield from depth(f)
    if f.given("dist"):
        yield "-R<dist>"
    yield from source(f)
    if f.given("time_function"):
        yield "-D<time_function>"
    if f.given("integrate_order"):
        yield "-I<integrate_order>"
    if f.given("differentiate_order"):
        yield "-J<differentiate_order>"
    yield from tail(f)


def receivers(f):
    if f.given("recv_points"):
        yield "-Q<recv_points>"
        for p in ("norths", "easts", "deprcv"):
            if f.given(p):
                raise Ignored(p)
    else:
        a, b = f.given("norths"), f.given("easts")
        if a != b:
            raise Ignored("norths" if a else "easts")
        if a:
            yield "-X" + lst("norths", "/")
            yield "-Y" + lst("easts", "/")


def fault(f, more):
    if f.given("finite_fault"):
        for p in ("scale", "depsrc", "strike", "dip", "rake", "force", "moment_tensor"):
            if p in more and f.given(p):
                raise Ignored(p)
        if f.true("scale_with_mu"):
            raise Ignored("scale_with_mu")
        yield "-C<finite_fault>" + ("+i" + lst("subfault_size", "/") if "subfault_size" in more and f.given("subfault_size") else "")
    else:
        if not f.given("scale"):
            raise Ignored("scale")
        if "subfault_size" in more and f.given("subfault_size"):
            raise Ignored("subfault_size")
        yield "-S%s<scale>" % ("u" if f.true("scale_with_mu") else "")
        if f.given("depsrc"):
            yield "-Ds<depsrc>"
        if "force" in more:
            yield from source(f)
        else:
            yield from geometry(f)


def stsyn(f):
    yield "static"
    yield "syn"
    yield "-G<self.stgrn>"
    yield "-O<output_path>"
    yield from fault(f, {"scale", "depsrc", "strike", "dip", "rake", "force", "moment_tensor", "subfault_size"})
    if f.given("deprcv"):
        yield "-Dr<deprcv>"
    yield from receivers(f)
    yield from tail(f)


def okada(f):
    yield "okada"
    yield "-I" + lst("modelparams", "/")
    yield "-O<output_path>"
    yield from fault(f, {"scale", "depsrc", "strike", "dip", "rake"})
    if f.given("deprcv"):
        yield "-Dr<deprcv>"
    yield from receivers(f)
    yield from tail(f)


def derived(kind):
    def g(f):
        if f.f.get("is_dir:path"):
            yield kind
        else:
            yield "static"
            yield kind
        yield "<path>"
    return g


def returns(pattern):
    def g(f):
        return pattern if f.true("return_result") else "None"
    return g


def derived_result(kind):
    def g(f):
        if not f.true("return_result"):
            return "None"
        return "read(<path>/%s_*.sac)" % kind if f.f.get("is_dir:path") else "read_static_nc(path)"
    return g


JOBS = [("pymod", "PyModel1D", "compute_grn", grn, None), ("pymod", "PyModel1D", "compute_static_grn", stgrn, None),
        ("pymod", "PyModel1D", "compute_syn", syn, returns("read(<output_path>/*.sac)")), ("pymod", "PyModel1D", "compute_static_syn", stsyn, returns("read_static_nc(output_path)")),
        ("utils", "", "compute_okada", okada, returns("read_static_nc(output_path)"))] + \
       [("utils", "", "compute_" + k, derived(k), derived_result(k)) for k in ("strain", "rotation", "stress")] + \
       [("pymod", "PyModel1D", "__init__", None, None)]


DEPTH = 3


def GIVEN(k):
    return 1 if k.startswith("none:") else 0


def BARE(k):
    return 0 if k.startswith("none:") else 1


def _init():
    fn = Y.Function("pymod", "PyModel1D", "__init__")
    bad, n, facts = {}, 0, set()
    if not fn.ok:
        return 0, 0, 0, []
    for ev, res, err in itertools.chain(Y.ways(fn, GIVEN, 9), Y.ways(fn, BARE, 9)):
        n += 1
        facts.update(ev.facts)
        if err is not None:
            continue
        me = {k[1]: v for k, v in ev.stores.items() if k[0].startswith("self")}
        f = F(ev)
        for p in ("topbound", "botbound"):
            if p in me and Y.canon(me[p]).strip("<>") != p:
                bad.setdefault("init:" + p, "PyModel1D: keeps %s as its %s" % (Y.canon(me[p]), p))
        for p in ("grn", "stgrn", "modelpath"):
            try:
                want = p if f.given(p) else "None"
            except Ignored:
                bad.setdefault("init:" + p, "PyModel1D: %s makes no difference when it is given" % p)
                continue
            if p in me and Y.canon(me[p]).strip("<>") != want:
                bad.setdefault("init:" + p, "PyModel1D: keeps %s as its %s where %s was meant" % (Y.canon(me[p]), p, want))
    return n, n, len(facts), sorted(bad.items())


def match(exp, got):
    """(missing, unexpected)"""
    got = list(got)
    missing = []
    for e in exp:
        alts = e if isinstance(e, list) else [(e,)]
        for alt in alts:
            want = [split(x) for x in alt]
            if all(w in got for w in want):
                for w in want:
                    got.remove(w)
                break
        else:
            missing.append(" ".join(alts[0]))
    return missing, got


def _one(j):
    sys.setrecursionlimit(10000)
    mod, cls, name, exp, ret = JOBS[j]
    if name == "__init__":
        try:
            return _init()
        except Exception as e:
            return "%s: %s" % (type(e).__name__, e)
    bad, n, started, facts = {}, 0, 0, set()
    try:
        fn = Y.Function(mod, cls or None, name)
        if not fn.ok:
            return 0, 0, 0, []
        for ev, res, err in itertools.chain(Y.ways(fn, GIVEN, DEPTH), Y.ways(fn, BARE, DEPTH)):
            n += 1
            facts.update(ev.facts)
            if not ev.log:
                if err is None:
                    bad.setdefault((name + ":nothing"), "%s: a way through it starts no program and reports no error" % name)
                continue
            started += 1
            if len(ev.log) > 1:
                bad.setdefault(name + ":twice", "%s: starts more than one program" % name)
            argv, kw, node = ev.log[0]
            if Y.canon(kw.get("shell", False)) not in ("False",) or not isinstance(argv, (list, tuple)):
                bad.setdefault(name + ":shell", "%s: the program is not started with a list of arguments" % name)
                continue
            got = [norm(Y.canon(Y.text(a)), ev.facts) for a in argv]
            f = F(ev)
            try:
                want = [[tuple(norm(y, ev.facts) for y in alt) for alt in x] if isinstance(x, list) else norm(x, ev.facts) for x in exp(f)]
            except Ignored as e:
                bad.setdefault("%s:ignored:%s" % (name, e), "%s: %s makes no difference when it is given: %s" % (name, e, " ".join(got[1:])[:160]))
                continue
            miss, extra = match(want, [split(g) for g in got[1:]])
            if miss or extra:
                k = "%s:%s" % (name, ",".join(sorted(re.sub(r"[<{].*", "", m)[:4] for m in miss)) or "extra")
                bad.setdefault(k, "%s: asks for %s where its arguments mean %s" % (name, " ".join("".join((x[0],) + x[1]) for x in extra)[:130] or "nothing", " ".join(miss)[:130] or "nothing"))
            first = [g for g in got[1:] if g in ("static",)]
            if first and got[1] != "static":
                bad.setdefault(name + ":order", "%s: the module comes after its options" % name)
            if ret is not None and err is None:
                try:
                    w = ret(f)
                    g = Y.canon(res)
                    if g.replace("<", "").replace(">", "") != w.replace("<", "").replace(">", ""):
                        bad.setdefault(name + ":result", "%s: returns %s instead of %s" % (name, g[:100], w))
                except Ignored as e:
                    bad.setdefault("%s:ignored:%s" % (name, e), "%s: %s makes no difference" % (name, e))
        return n, started, len(facts), sorted(bad.items())
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def run(fe, tier):
    global DEPTH
    if tier == "thorough":
        DEPTH = 4
    r = Result("Every way through every computing function of the Python layer (which arguments are given, true, zero or several; helpers and the program runner included) that starts the command-line program: its argument vector, as text over the parameters, "
               "is exactly the documented option for every argument given, in place, with at least 15 significant digits, and nothing else; the value returned is read from the output that was asked for.")
    order = sorted(range(len(JOBS)), key=lambda j: JOBS[j][2] not in ("compute_grn", "compute_static_grn", "compute_syn"))
    with multiprocessing.get_context("fork").Pool(min(8, len(JOBS))) as p:
        got = p.map(_one, order, chunksize=1)
    for j, g in zip(order, got):
        if isinstance(g, str):
            raise RuntimeError("%s: %s" % (JOBS[j][2], g))
        n, started, facts, bad = g
        if not n:
            raise Vanished("function %s" % JOBS[j][2])
        if not started:
            r.bad(JOBS[j][2] + ":never", "%s: no way through it starts the program" % JOBS[j][2], "pygrt/%s.py" % JOBS[j][0])
        r.count("functions")
        r.count("ways", n)
        r.count("argument_vectors", started)
        r.count("decisions", facts)
        for k, m in bad:
            r.bad(k, m, "pygrt/%s.py" % JOBS[j][0])
    r.assumptions = ["numpy, obspy and subprocess behave as documented", "arguments have the annotated types"]
    return r
