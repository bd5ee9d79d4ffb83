"""Front end: compile every C source below /repo to LLVM IR and load it."""
import os, re, subprocess, sys, tempfile, shutil, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
import ir

REPO = os.environ.get("VERIF_REPO", "/repo")
CEXT = os.path.join(REPO, "pygrt/C_extension")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BIN = "/usr/lib/llvm-18/bin/"


class FrontError(Exception):
    pass


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(CEXT, "src")):
        for f in fs:
            if f.endswith(".c"):
                out.append(os.path.relpath(os.path.join(d, f), CEXT))
    return sorted(out)


def flags():
    return ["-std=gnu99", "-fPIC", "-fopenmp", "-Iinclude", "-I" + os.path.join(VERIF, "include"), "-D_GNU_SOURCE",
            '-DGRT_VERSION="v"', '-DGRT_DATE="d"', "-w", "-g"]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise FrontError("%s\n%s" % (" ".join(cmd), p.stderr[-3000:]))
    return p.stdout


def own_inlines(path):
    """`inline` functions written in the source file itself (not in a header)
    belong to that file: two files may use one name for different functions,
    and each call has to reach the one of its own file."""
    text = open(path).read()
    if "available_externally" not in text:
        return
    main = re.search(r"!DICompileUnit\([^\n]*?file: (!\d+)", text).group(1)
    dirty = False
    for m in re.finditer(r"^define (available_externally) [^\n]*?@([-\w$.]+)\([^\n]* !dbg (!\d+)[^\n]*\{$", text, flags=re.M):
        d = re.search(r"^%s = [^\n]*file: (!\d+)" % re.escape(m.group(3)), text, flags=re.M)
        if d and d.group(1) == main:
            text = text[:m.start(1)] + "internal            " + text[m.end(1):]
            dirty = True
    if dirty:
        open(path, "w").write(text)


class Frontend:
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix="verif_ir_")
        self.linked = None
        self.cache = {}

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def compile_all(self):
        if self.linked:
            return self.linked
        srcs = sources()
        if not srcs:
            raise FrontError("no C sources found under %s" % CEXT)

        def one(s):
            o = os.path.join(self.tmp, s.replace("/", "_") + ".ll")
            run([BIN + "clang", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-S", "-o", o, s] + flags(), cwd=CEXT)
            own_inlines(o)
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        self.linked = os.path.join(self.tmp, "all.bc")
        run([BIN + "llvm-link", "-o", self.linked] + objs)
        self.nsrc = len(srcs)
        return self.linked

    def module(self, inline=False, passes=None, keep=(), inline_also=()):
        """inline: force-inline every internal (static) function that is not
        recursive and whose name does not match a prefix in `keep`."""
        key = (inline, passes, tuple(keep), tuple(inline_also))
        if key in self.cache:
            return self.cache[key]
        src = self.compile_all()
        out = os.path.join(self.tmp, "m%d.ll" % len(self.cache))
        passes = passes or "sroa,mem2reg,simplifycfg"
        if inline:
            pre = os.path.join(self.tmp, "pre%d.ll" % len(self.cache))
            run([BIN + "opt", "-S", "-passes=sroa,mem2reg,simplifycfg", src, "-o", pre])
            text = open(pre).read()

            def sub(m):
                nm = ir.unq(m.group("n"))
                base = re.sub(r"\.\d+$", "", nm)
                internal = " internal " in m.group(0)[:40]
                if base in keep or nm in keep or any(k.endswith("*") and base.startswith(k[:-1]) for k in keep):
                    return m.group(0)
                if not internal and base not in inline_also:
                    return m.group(0)
                if ".omp_outlined" in nm or "omp." in nm:
                    return m.group(0)
                return re.sub(r"( (?:section \"[^\"]*\" )?(?:align \d+ )?(?:personality .*)?)(!dbg !\d+ )?\{$",
                              lambda q: " alwaysinline" + q.group(0), m.group(0))
            text = re.sub(r'^define [^\n]*@(?P<n>"[^"]*"|[-\w$.]+)\([^\n]*\{$', sub, text, flags=re.M)
            p2 = pre + ".2.ll"
            open(p2, "w").write(text)
            run([BIN + "opt", "-S", "-passes=always-inline," + passes, p2, "-o", out])
        else:
            run([BIN + "opt", "-S", "-passes=" + passes, src, "-o", out])
        M = ir.parse_module(open(out).read())
        M.layout = ir.Layout(M)
        self.cache[key] = M
        return M
