"""Normal-form obligations: a harness H_x over the project's code against a reference R_x."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from front import run, AnalysisError, CLANG, LLVM, BUILD
import fw


class Spec:
    """Collects C text and obligations for one nf run."""

    def __init__(self, prelude=""):
        self.prelude = prelude
        self.body = []
        self.pairs = []       # (id, anchor function, description)
        self.opaque = []      # (function, kind)
        self.n = 0

    def pair(self, anchor, key, desc, ret, params, h, r):
        """One obligation: the two bodies must have the same normal form."""
        self.n += 1
        n = self.n
        self.body.append("%s H_%d(%s){ %s }\n%s R_%d(%s){ %s }\n" % (ret, n, params, h, ret, n, params, r))
        self.pairs.append((n, anchor, key, desc))

    def hpair(self, anchor, key, desc, ret, params, h, r):
        """As pair, over the specification's heap; the balance of live blocks starts and ends at zero and is not an effect."""
        self.n += 1
        n = self.n
        args = "" if params.strip() in ("", "void") else ", ".join(re.search(r"(\w+)\s*$", p).group(1) for p in params.split(","))
        self.body.append("".join("INL %s %sI_%d(%s){ %s }\n%s %s_%d(%s){ M_live = 0; %s r = %sI_%d(%s); M_live = 0; return r; }\n" %
                                 (ret, k, n, params, b, ret, k, n, params, ret, k, n, args) for k, b in (("H", h), ("R", r))))
        self.pairs.append((n, anchor, key, desc))

    def text(self):
        return self.prelude + "\n" + "\n".join(self.body)


def fn_locations(prog):
    """name -> file:line of every function the library defines (from the IR's debug info)."""
    out = {}
    for s, o in prog.units:
        pass
    p = os.path.join(prog.dir, "fns.json")
    if not os.path.exists(p):
        run([fw.TOOL, "fns", prog.bc, p + ".tmp"])
        os.rename(p + ".tmp", p)
    return json.load(open(p))


CONTROLS = [  # pairs that must be told apart: the comparison itself is exercised on every run
    ("int", "int x, int y", "return x < y;", "return (unsigned)x < (unsigned)y;"),
    ("int", "int x, int y", "if(x > 3) return y; return 0;", "if(x > 2) return y; return 0;"),
    ("void", "int *x, int y", "x[0] = y; x[1] = 0;", "x[1] = 0;"),
    ("int", "double x, double y", "return x < y;", "return !(x >= y);"),
    ("int", "int *x, int *y", "*x = 1; *y = 2; return *x;", "*x = 1; *y = 2; return 1;"),
    ("uint32_t", "uint32_t x", "return __builtin_bswap32(x);", "return x;"),
]


def _batch(prog, spec, tmp, k, at):
    """One invocation of the analyser over the obligations that the slice picks."""
    src = os.path.join(tmp, "spec%d.c" % k)
    ctl = "#include <stdint.h>\n" + "".join("%s HC_%d(%s){ %s }\n%s RC_%d(%s){ %s }\n" % (r, i, p, h, r, i, p, q) for i, (r, p, h, q) in enumerate(CONTROLS))
    open(src, "w").write(spec.prelude + "\n" + "\n".join(spec.body[at]) + "\n" + ctl)
    bc = os.path.join(tmp, "spec%d.bc" % k)
    run([CLANG] + prog.flags + ["-w", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing", "-fno-math-errno", "-ffp-contract=off",
                                "-I", prog.src, "-emit-llvm", "-c", "-o", bc, src])
    m = os.path.join(tmp, "all%d.bc" % k)
    run([LLVM + "/llvm-link", "-o", m, prog.bc, bc])
    pairs, opaque, out = (os.path.join(tmp, "%s%d" % (x, k)) for x in ("pairs", "opaque", "out"))
    open(pairs, "w").write("".join("H_%d R_%d\n" % (n, n) for n, *_ in spec.pairs[at]) +
                           "".join("HC_%d RC_%d\n" % (i, i) for i in range(len(CONTROLS))))
    open(opaque, "w").write("".join("%s %s\n" % o for o in spec.opaque))
    run([fw.TOOL, "nf", m, pairs, opaque, out])
    res = {}
    for r in json.load(open(out)):
        if r["h"].startswith("HC_"):
            if r["status"] != "differ":
                raise AnalysisError("control pair %s not told apart" % r["h"])
        else:
            res[int(r["h"][2:])] = r
    return res


def decide(c, spec, floor, chunk=120, mix=False):
    prog = c.prog
    locs = fn_locations(prog)
    for _, anchor, _, _ in spec.pairs:
        if anchor not in locs:
            raise AnalysisError("anchor function vanished: " + anchor)
    tmp = tempfile.mkdtemp(prefix="nf-", dir=BUILD)
    try:
        n = len(spec.pairs)
        jobs = [(k, slice(k, n, -(-n // chunk)) if mix else slice(lo, min(lo + chunk, n))) for k, lo in enumerate(range(0, n, chunk))]
        res = {}
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(lambda j: _batch(prog, spec, tmp, *j), jobs):
                res.update(r)
        if os.environ.get("NF_KEEP"):
            shutil.copytree(tmp, os.environ["NF_KEEP"], dirs_exist_ok=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.need("normal_form_pairs", c.counts.get("normal_form_pairs", 0) + len(spec.pairs), floor)
    mx = 0
    for n, anchor, key, desc in spec.pairs:
        r = res.get(n)
        if r is None or r["status"] == "missing":
            raise AnalysisError("obligation lost during analysis: %s" % key)
        mx = max(mx, r["insts"])
        if os.environ.get("NF_TIME") and r.get("ms", 0) > 50:
            print("%6d ms %5d leaves %s" % (r["ms"], r["leaves"], key))
        if r["status"] == "equal":
            c.ok("%s: %s" % (key, desc))
        else:
            c.bad(key, "%s (%s)" % (anchor, locs[anchor]), desc,
                  "code reduces to:\n%s\nrequired:\n%s" % (r["got"].strip(), r["want"].strip()))
    c.counts["largest_normal_form_insts"] = max(mx, c.counts.get("largest_normal_form_insts", 0))
    c.rules.append("Each obligation is one (operation, type, argument shape) instance: the library's code, with the whole program "
                   "inlined and the type constants propagated by the compiler's IR passes, is reduced to a canonical "
                   "value/effect form and must coincide with the form of an independently written reference.")
