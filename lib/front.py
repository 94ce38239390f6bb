"""Front end: turn /repo's current working tree into one resolved program (LLVM IR).

The tree is mirrored into a scratch directory, the parsers and scanners are generated there, and
every translation unit the project's own Makefile builds for its `linux` target is compiled with the
Makefile's own flags to LLVM IR.  Nothing is ever run; /repo is only read."""
import hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("LIBO_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin"
CLANG = LLVM + "/clang"


class AnalysisError(Exception):
    """The analysis itself is broken (anchor vanished, nothing to analyse): never a verdict."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisError("command failed (%d): %s\n%s" % (p.returncode, " ".join(map(str, cmd)), p.stderr[-3000:]))
    return p.stdout


SRC_EXT = (".c", ".h", ".r", ".y", ".l")


def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(d for d in dirs if not (rel == "." and d in (".git", "_build", "doc", "test")))
        for f in sorted(files):
            if f.endswith(SRC_EXT) or f == "Makefile":
                out.append(os.path.normpath(os.path.join(rel, f)))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


class Program:
    def __init__(self, d):
        self.dir = d
        self.src = os.path.join(d, "src")
        self.bc = os.path.join(d, "libo.bc")       # whole program, -O0 form (clang codegen), debug info
        self.units = []                              # [(source, object .bc)]
        self.flags = []


def _mkflags(line):
    toks = line.split()
    flags, src, i = [], None, 1
    while i < len(toks):
        t = toks[i]
        if t == "-c":
            pass
        elif t == "-o":
            i += 1
        elif t.endswith(".c"):
            src = t
        else:
            flags.append(t)
        i += 1
    return src, flags


def load():
    """Return the Program for /repo's current tree (built now unless this exact tree is cached)."""
    key = tree_hash()
    d = os.path.join(BUILD, "ir", key)
    prog = Program(d)
    stamp = os.path.join(d, "units.txt")
    if os.path.exists(stamp):
        for l in open(stamp):
            s, o, fl = l.rstrip("\n").split("\t")
            prog.units.append((s, o))
            prog.flags = fl.split()
        return prog
    os.makedirs(os.path.join(BUILD, "ir"), exist_ok=True)
    # keep the cache small
    old = sorted((os.path.join(BUILD, "ir", x) for x in os.listdir(os.path.join(BUILD, "ir"))), key=os.path.getmtime)
    for x in old[:-6]:
        shutil.rmtree(x, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=os.path.join(BUILD, "ir"))
    src = os.path.join(tmp, "src")
    for f in source_files():
        # generated files are never taken from the tree
        if re.match(r"osc_\w*(parser|scanner)\.[ch]$", f):
            continue
        dst = os.path.join(src, f)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, f), dst)
    dry = run(["make", "-n", "-B", "-f", "Makefile", "linux", "CC=/usr/bin/clang", "STATIC-LINK=true"], cwd=src)
    gen, comp = [], []
    for l in dry.splitlines():
        if re.match(r"\s*(bison|flex)\b", l):
            gen.append(l.split())
        elif "clang" in l and " -c " in l:
            s, fl = _mkflags(l)
            if s:
                comp.append((s, fl))
    if len(comp) < 30 or len(gen) < 6:
        raise AnalysisError("the Makefile's linux target no longer lists the units this analysis expects "
                            "(%d compilations, %d generated sources)" % (len(comp), len(gen)))
    for g in gen:
        if g[0] == "bison":
            g = g[:1] + ["--xml=" + g[g.index("-o") + 1][:-2] + ".xml"] + g[1:]
        run(g, cwd=src)

    def one(c):
        s, fl = c
        o = os.path.join(tmp, s.replace("/", "_")[:-2] + ".bc")
        run([CLANG] + fl + ["-w", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing", "-fno-math-errno", "-ffp-contract=off",
                            "-fno-discard-value-names", "-ftrivial-auto-var-init=pattern",
                            "-emit-llvm", "-c", "-o", o, s], cwd=src)
        return s, o
    with ThreadPoolExecutor(8) as ex:
        units = list(ex.map(one, comp))
    run([LLVM + "/llvm-link", "-o", os.path.join(tmp, "libo.bc")] + [o for _, o in units])
    flags = comp[0][1]
    with open(os.path.join(tmp, "units.txt"), "w") as fh:
        for s, o in units:
            fh.write("%s\t%s\t%s\n" % (s, o.replace(tmp, d), " ".join(flags)))
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    prog.units = [(s, o.replace(tmp, d)) for s, o in units]
    prog.flags = flags
    return prog


if __name__ == "__main__":
    p = load()
    print(p.dir, len(p.units), p.flags)
