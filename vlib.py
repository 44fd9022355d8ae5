"""Build + run machinery: real sources of /repo -> bitcode -> symex (SMT) -> native replay -> evidence."""
import os, sys, json, hashlib, subprocess, threading, time, shutil, re
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 8
INC = ["-I", VERIF + "/stubs", "-I", VERIF + "/rt", "-I", BUILD + "/gen", "-I", REPO + "/include", "-I", "/usr/include/rapidxml", "-I", VERIF + "/harness"]
COMMON = ["-std=c++17", "-w", '-DVERIFYPN_VERSION="verif"', "-DVERIF_SYMEX"]
BCFLAGS = COMMON + ["-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-fno-discard-value-names", "-fno-vectorize", "-fno-slp-vectorize", "-fno-use-cxa-atexit", "-ffp-contract=off"]
NATFLAGS = COMMON + ["-O0", "-g1", "-ffp-contract=off"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]


_fh = {}
def fhash(path):
    if path not in _fh:
        try:
            with open(path, "rb") as f: _fh[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError: _fh[path] = "-"
    return _fh[path]


class BuildError(Exception):
    pass


def compile_cached(compiler, flags, src, kind):
    """compile src; cached by command and by the content of every file of /repo and /verif it includes"""
    ext = ".bc" if kind == "bc" else ".o"
    cmdkey = digest(compiler, flags, src)
    meta = os.path.join(BUILD, "cache", cmdkey + "." + kind + ".dep")
    if os.path.exists(meta):
        try:
            m = json.load(open(meta))
            k = digest(cmdkey, *[d + fhash(d) for d in m])
            out = os.path.join(BUILD, "cache", k + ext)
            if os.path.exists(out): return out
        except ValueError: pass
    tmp = os.path.join(BUILD, "cache", "tmp.%s.%d.%d" % (cmdkey, os.getpid(), threading.get_ident()))
    cmd = [compiler] + flags + (["-emit-llvm"] if kind == "bc" else []) + ["-c", src, "-o", tmp + ext, "-MD", "-MF", tmp + ".d"]
    r = sh(cmd)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-3000:]))
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted(set(os.path.normpath(x) for x in txt.split(":", 1)[1].split()))
    deps = [d for d in deps if d.startswith(REPO + "/") or d.startswith(VERIF + "/")]
    json.dump(deps, open(meta + ".%d" % threading.get_ident(), "w")); os.replace(meta + ".%d" % threading.get_ident(), meta)
    k = digest(cmdkey, *[d + fhash(d) for d in deps])
    out = os.path.join(BUILD, "cache", k + ext)
    os.replace(tmp + ext, out); os.unlink(tmp + ".d")
    return out


def build_engine():
    src = [VERIF + "/engine/symex.cpp", VERIF + "/engine/expr.h"]
    k = digest(*[fhash(s) for s in src]); out = os.path.join(BUILD, "symex-" + k)
    if os.path.exists(out): return out
    cxx = sh(["llvm-config", "--cxxflags"]).stdout.split(); cxx = [c for c in cxx if c not in ("-fno-exceptions",) and not c.startswith("-std")]
    ld = sh(["llvm-config", "--ldflags", "--libs"]).stdout.split()
    r = sh(["clang++", "-O2", "-g0", "-std=c++17", "-w"] + cxx + ["-fexceptions", "-fno-rtti", src[0], "-o", out + ".tmp%d" % os.getpid()] + ld + ["-lz3"])
    if r.returncode != 0: raise BuildError("engine build failed:\n" + r.stdout[-3000:])
    os.replace(out + ".tmp%d" % os.getpid(), out)
    return out


GEN = {"pql": ("src/PetriEngine/PQL/PQLQueryParser.y", "src/PetriEngine/PQL/PQLQueryTokens.l", "PQLQueryParser.parser", "PQLQueryTokens.lexer")}
_gen_lock = threading.Lock()
def gen_sources():
    """bison/flex outputs, regenerated from /repo into the build directory"""
    d = BUILD + "/gen"; os.makedirs(d, exist_ok=True)
    with _gen_lock:
        for y, l, yo, lo in GEN.values():
            stamp = digest(fhash(REPO + "/" + y), fhash(REPO + "/" + l)); sf = d + "/" + yo + ".stamp"
            if os.path.exists(sf) and open(sf).read() == stamp: continue
            for cmd in (["bison", "-d", "-o", d + "/" + yo + ".cpp", REPO + "/" + y], ["flex", "-o" + d + "/" + lo + ".cpp", REPO + "/" + l]):
                r = sh(cmd)
                if r.returncode: raise BuildError(r.stdout)
            open(sf, "w").write(stamp)


def src_path(s):
    if s.startswith("gen:"): return BUILD + "/gen/" + s[4:]
    if s.startswith("v:"): return VERIF + "/" + s[2:]
    return REPO + "/" + s


class Harness:
    def __init__(self, name, file, sources, flags=(), models=("rt/models.cpp", "rt/streams.cpp"), entries=None):
        self.name = name; self.file = file; self.sources = list(sources); self.flags = list(flags); self.models = list(models)
        txt = open(os.path.join(VERIF, file)).read()
        self.entries = entries or re.findall(r"^ENTRY\((\w+)\)", txt, re.M)
        self.err = None

    def units_bc(self):
        u = [(BCFLAGS + self.flags + INC, src_path(s)) for s in self.sources] + [(BCFLAGS + self.flags + INC, VERIF + "/" + self.file)]
        u += [(BCFLAGS + ["-D_GLIBCXX_EXTERN_TEMPLATE=0"] + INC, VERIF + "/" + m) for m in self.models]
        return u

    def units_nat(self):
        return [(NATFLAGS + self.flags + INC, src_path(s)) for s in self.sources] + [(NATFLAGS + self.flags + INC, VERIF + "/" + self.file)]

    def link_bc(self, objs):
        key = digest("v3", *objs, *self.entries); out = os.path.join(BUILD, "cache", "lnk-" + key + ".bc"); self.undef = []
        if not os.path.exists(out):
            t = out + ".t%d" % os.getpid()
            main = objs[:-len(self.models)] if self.models else objs; mods = objs[len(main):]
            cmd = ["llvm-link"] + main + sum([["--override=" + m] for m in mods], []) + ["-o", t + "1"]
            r = sh(cmd)
            if r.returncode: raise BuildError("llvm-link: " + r.stdout[-2000:])
            r = sh(["opt", "--passes=internalize,globaldce,default<O1>,globaldce", "--internalize-public-api-list=" + ",".join(self.entries), "--vectorize-loops=false", "--vectorize-slp=false", "--disable-loop-idiom-all", t + "1", "-o", t + "2"])
            if r.returncode: raise BuildError("opt: " + r.stdout[-2000:])
            os.unlink(t + "1"); os.replace(t + "2", out)
        self.bc = out

    def link_nat(self, objs):
        key = digest("n1", *objs, *self.entries, fhash(VERIF + "/rt/replay_rt.cpp")); out = os.path.join(BUILD, "cache", "nat-" + key)
        if not os.path.exists(out):
            d = out + ".d%d" % os.getpid(); os.makedirs(d, exist_ok=True)
            open(d + "/entries.inc", "w").write("".join("H(%s)\n" % e for e in self.entries))
            r = sh(["g++", "-std=c++17", "-w", "-O0", "-g1", "-I", d, "-I", VERIF + "/rt", VERIF + "/rt/replay_rt.cpp"] + objs + ["-Wl,--unresolved-symbols=ignore-all", "-o", out + ".t", "-lpthread"])
            shutil.rmtree(d)
            if r.returncode: raise BuildError("native link: " + r.stdout[-3000:])
            os.replace(out + ".t", out)
        self.nat = out


def build(harnesses, native=True):
    os.makedirs(BUILD + "/cache", exist_ok=True)
    gen_sources()
    jobs = {}
    with ThreadPoolExecutor(NCPU) as ex:
        eng = ex.submit(build_engine)
        seen = {}
        for h in harnesses:
            for kind, comp, units in (("bc", "clang++", h.units_bc()), ("nat", "g++", h.units_nat() if native else [])):
                for fl, s in units:
                    k = (kind, tuple(fl), s)
                    if k not in seen: seen[k] = ex.submit(compile_cached, comp, fl, s, kind)
        def res(kind, units): return [seen[(kind, tuple(fl), s)].result() for fl, s in units]
        err = None
        for f in list(seen.values()) + [eng]:
            try: f.result()
            except BuildError as e: err = err or e
        if err: raise err
        fs = []
        for h in harnesses:
            fs.append(ex.submit(h.link_bc, res("bc", h.units_bc())))
            if native: fs.append(ex.submit(h.link_nat, res("nat", h.units_nat())))
        for f in fs: f.result()
        return eng.result()


def prune_cache(limit=3 << 30):
    d = BUILD + "/cache"
    fs = [(os.path.getmtime(d + "/" + f), os.path.getsize(d + "/" + f), d + "/" + f) for f in os.listdir(d) if os.path.isfile(d + "/" + f)]
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot < limit: break
        if time.time() - m < 3600: continue
        try: os.unlink(p)
        except OSError: pass
        tot -= s
