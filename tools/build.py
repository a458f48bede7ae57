#!/usr/bin/env python3
"""Content-hash build of /repo's sources for the verification harness.

Every object is cached under a key made of the command line and the content of
every project header the compiler actually read, so that nothing is rebuilt
when only time stamps changed, and everything affected is rebuilt when content
did.  Output goes to /verif/build (git-ignored).
"""
import fcntl, hashlib, json, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OCLINT_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CACHE = os.path.join(OUT, "cache")
LLVM = "/usr/lib/llvm-20"
OVERLAY = os.path.join(OUT, "overlay")
CXX = "clang++-18"
BASE = ["-std=c++17", "-fno-rtti", "-fPIC", "-O0", "-g0", "-w", "-fno-caret-diagnostics",
        "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
        "-D__STDC_LIMIT_MACROS"]
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4)
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined", "-g1"]
SAN = ASAN if os.environ.get("VERIF_SAN") else []     # everything of oclint with AddressSanitizer and UBSan


class BuildError(Exception):
    pass


def incs():
    r = REPO
    return ["-I" + OVERLAY, f"-I{r}/oclint-core/include", f"-I{r}/oclint-metrics/include",
            f"-I{r}/oclint-rules/include", f"-I{r}/oclint-rules", f"-I{r}/oclint-driver/include",
            f"-I{r}/oclint-driver", f"-I{VERIF}/harness",
            "-isystem", f"{LLVM}/include"]


_hash_memo = {}
_memo_lock = threading.Lock()


def fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    with _memo_lock:
        if k in _hash_memo:
            return _hash_memo[k]
    with open(path, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()
    with _memo_lock:
        _hash_memo[k] = h
    return h


def atomic_write(path, data):
    tmp = f"{path}.{os.getpid()}.{threading.get_ident()}.tmp"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def make_overlay():
    """LLVM 20 headers plus the few LLVM 21 signatures oclint-driver uses."""
    d = os.path.join(OVERLAY, "clang", "Basic")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(LLVM, "include/clang/Basic/TargetInfo.h")
    t = open(src).read()
    a = "  virtual ~TargetInfo();\n"
    assert t.count(a) == 1
    t = t.replace(a, """  static TargetInfo *CreateTargetInfo(DiagnosticsEngine &Diags, const TargetOptions &Opts) {
    return CreateTargetInfo(Diags, std::make_shared<TargetOptions>(Opts));
  }
""" + a)
    a = "  virtual void adjust(DiagnosticsEngine &Diags, LangOptions &Opts);\n"
    assert t.count(a) == 1
    t = t.replace(a, a + """  void adjust(DiagnosticsEngine &Diags, LangOptions &Opts, const TargetInfo *) { adjust(Diags, Opts); }
""")
    src = os.path.join(LLVM, "include/clang/Basic/Diagnostic.h")
    u = open(src).read()
    a = "  DiagnosticsEngine(const DiagnosticsEngine &) = delete;\n"
    assert u.count(a) == 1
    u = u.replace(a, """  explicit DiagnosticsEngine(IntrusiveRefCntPtr<DiagnosticIDs> Diags,
                             DiagnosticOptions &Opts,
                             DiagnosticConsumer *client = nullptr,
                             bool ShouldOwnClient = true)
      : DiagnosticsEngine(Diags,
          IntrusiveRefCntPtr<DiagnosticOptions>(new DiagnosticOptions(Opts)),
          client, ShouldOwnClient) {}
""" + a)
    for name, text in (("TargetInfo.h", t), ("Diagnostic.h", u)):
        p = os.path.join(d, name)
        if not os.path.exists(p) or open(p).read() != text:
            atomic_write(p, text.encode())


class Obj:
    def __init__(self, src, flags=()):
        self.src, self.flags = src, list(flags)

    def build(self):
        """Returns the path of the object file, compiling only on a cache miss."""
        cmd = [CXX] + BASE + SAN + self.flags + incs() + ["-c", self.src]
        ident = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()[:24]
        os.makedirs(CACHE, exist_ok=True)
        man = os.path.join(CACHE, ident + ".json")
        entries = []
        if os.path.exists(man):
            try:
                entries = json.load(open(man))
            except ValueError:
                entries = []
        for e in entries:
            if os.path.exists(os.path.join(CACHE, e["obj"])) and \
                    all(fhash(p) == h for p, h in e["deps"]):
                return os.path.join(CACHE, e["obj"])
        tmp = os.path.join(CACHE, f"{ident}.{os.getpid()}.{threading.get_ident()}")
        dep = tmp + ".d"
        r = subprocess.run(cmd + ["-o", tmp + ".o", "-MMD", "-MF", dep],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(f"compiling {self.src} failed:\n" + r.stdout[-4000:])
        txt = open(dep).read().replace("\\\n", " ")
        os.unlink(dep)
        deps = [d for d in txt.split(":", 1)[1].split() if not d.startswith(LLVM)]
        pairs = [[d, fhash(d)] for d in deps]
        key = hashlib.sha256(json.dumps([ident, pairs]).encode()).hexdigest()[:24]
        os.replace(tmp + ".o", os.path.join(CACHE, key + ".o"))
        entries = [{"obj": key + ".o", "deps": pairs}] + entries[:7]
        atomic_write(man, json.dumps(entries).encode())
        return os.path.join(CACHE, key + ".o")


def link(kind, objs, name, extra=()):
    """Links objs; the output is content addressed by the object names."""
    cmd = [CXX, "-fuse-ld=lld"] + [x for x in SAN if x != "-g1"] + (["-shared"] if kind == "shared" else ["-rdynamic"]) \
        + list(objs) + list(extra)
    key = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()[:20]
    d = os.path.join(CACHE, "link", key)
    out = os.path.join(d, name)
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    tmp = f"{out}.{os.getpid()}.{threading.get_ident()}.tmp"
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f"linking {name} failed:\n" + r.stdout[-4000:])
    os.replace(tmp, out)
    return out


CLANG_LIBS = [f"{LLVM}/lib/libclang-cpp.so.20.1", f"{LLVM}/lib/libLLVM.so.20.1",
              f"-Wl,-rpath,{LLVM}/lib", "-ldl", "-lpthread"]


def glob_cpp(*parts):
    d = os.path.join(REPO, *parts)
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))


def core_sources():
    return glob_cpp("oclint-core", "lib")


def metric_sources():
    return glob_cpp("oclint-metrics", "lib")


def rulelib_sources():
    return (glob_cpp("oclint-rules", "lib") + glob_cpp("oclint-rules", "lib", "helper")
            + glob_cpp("oclint-rules", "lib", "util"))


def driver_sources():
    return glob_cpp("oclint-driver", "lib")


def main_sources():
    d = os.path.join(REPO, "oclint-driver")
    return [d + "/main.cpp", d + "/reporters_dlfcn_port.cpp", d + "/rules_dlfcn_port.cpp"]


def rule_sources():
    """class-name stem -> path, from the rules tree (custom, legacy and so on included)."""
    res = {}
    for root, _, files in os.walk(os.path.join(REPO, "oclint-rules", "rules")):
        for f in files:
            if f.endswith("Rule.cpp"):
                res[f[:-4]] = os.path.join(root, f)
    return dict(sorted(res.items()))


def shipped():
    """Class-name stems of the rules that the build of oclint makes."""
    res = set()
    for root, _, files in os.walk(os.path.join(REPO, "oclint-rules", "rules")):
        if "CMakeLists.txt" in files:
            t = re.sub(r"#.*", "", open(os.path.join(root, "CMakeLists.txt")).read())
            res |= {w + "Rule" for w in re.findall(r"\w+", t)}
    return res


def reporter_sources():
    return {os.path.basename(p)[:-4]: p for p in glob_cpp("oclint-reporters", "reporters")}


class Builder:
    """Collects objects, compiles them in parallel, then links."""

    def __init__(self):
        os.makedirs(OUT, exist_ok=True)
        make_overlay()
        self.pool = ThreadPoolExecutor(JOBS)
        self.objs = {}

    def obj(self, src, flags=()):
        k = (src, tuple(flags))
        if k not in self.objs:
            self.objs[k] = self.pool.submit(Obj(src, flags).build)
        return self.objs[k]

    def objs_of(self, srcs, flags=()):
        return [self.obj(s, flags) for s in srcs]

    @staticmethod
    def done(fs):
        return [f.result() for f in fs]


def product(rules=None, reporters=None, oclint=False, units=(), doc=False, scaffold=False):
    """Builds what is asked and returns the paths.

    rules: None = all, or an iterable of rule class stems
    reporters: None = all
    units: harness executables (harness/<name>.cpp) linked with core+driver lib
    doc: the documentation generator and all rules for it
    scaffold: the objects that scaffolded rules are linked with
    """
    lock = open(os.path.join(VERIF, ".buildlock"), "w") if os.access(VERIF, os.W_OK) else None
    if lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
    b = Builder()
    res = {"rules": {}, "reporters": {}, "units": {}}
    allrules, allreps = rule_sources(), reporter_sources()
    rsel = list(allrules) if rules is None else [r for r in rules if r in allrules]
    psel = list(allreps) if reporters is None else [r for r in reporters if r in allreps]
    rule_o = {r: b.obj(allrules[r]) for r in rsel}
    base_o = (b.objs_of(core_sources() + driver_sources()) +
              b.objs_of(main_sources()[1:]) +
              [b.obj(main_sources()[0], ["-Dmain=oclint_main"]),
               b.obj(os.path.join(VERIF, "harness", "zygote.cpp")),
               b.obj(os.path.join(VERIF, "harness", "api.cpp"))])
    lib_o = b.objs_of(metric_sources() + rulelib_sources()) if rsel else []
    rep_o = {r: b.obj(allreps[r]) for r in psel}
    vrep = b.obj(os.path.join(VERIF, "harness", "VerifReporter.cpp"))
    real_o = b.obj(main_sources()[0]) if oclint else None
    D = ["-DDOCGEN"]
    doc_o = b.objs_of(core_sources() + driver_sources() + main_sources()[2:] + [os.path.join(REPO, "oclint-driver", "main_docgen.cpp")], D) if doc else []
    doclib_o = b.objs_of(metric_sources() + rulelib_sources(), D) if doc else []
    docrule_o = {r: b.obj(p, D) for r, p in allrules.items() if r in shipped()} if doc else {}
    mock_o = b.obj(os.path.join(VERIF, "harness", "docrule.cpp"), D) if doc else None
    scaf_o = b.objs_of(core_sources() + metric_sources() + rulelib_sources() + [os.path.join(VERIF, "harness", "scaffold_main.cpp")], D) if scaffold else []
    pch_o = b.obj(os.path.join(VERIF, "harness", "scaffold.h"), D + ["-x", "c++-header"]) if scaffold else None
    unit_o = {u: b.obj(os.path.join(VERIF, "harness", u + ".cpp")) for u in units}
    # links
    base = b.done(base_o)
    jobs = {}
    jobs["zygote"] = b.pool.submit(link, "exe", base, "zygote", CLANG_LIBS + ["-Wl,-z,now"])
    drv = base[:-3]
    if oclint:
        jobs["oclint"] = b.pool.submit(link, "exe", drv + [real_o.result()], "oclint", CLANG_LIBS)
    for u, o in unit_o.items():
        jobs["unit:" + u] = b.pool.submit(link, "exe", drv + [o.result()], u, CLANG_LIBS)
    lib = b.done(lib_o)
    for r, o in rule_o.items():
        jobs["rule:" + r] = b.pool.submit(link, "shared", [o.result()] + lib, f"lib{r}.so")
    for r, o in rep_o.items():
        jobs["rep:" + r] = b.pool.submit(link, "shared", [o.result()], f"lib{r}.so")
    if doc:
        res["docrules"] = {}
        jobs["docgen"] = b.pool.submit(link, "exe", b.done(doc_o), "oclint-docgen", CLANG_LIBS)
        jobs["docmock"] = b.pool.submit(link, "shared", [mock_o.result()], "libDocRule.so")
        dl = b.done(doclib_o)
        for r, o in docrule_o.items():
            jobs["doc:" + r] = b.pool.submit(link, "shared", [o.result()] + dl, f"lib{r}.so")
    if scaffold:
        res["pch"] = pch_o.result()
        res["scaffold"] = b.done(scaf_o)
    jobs["rep:VerifReporter"] = b.pool.submit(link, "shared", [vrep.result()], "libVerifReporter.so")
    for k, f in jobs.items():
        p = f.result()
        if k.startswith("rule:"):
            res["rules"][k[5:]] = p
        elif k.startswith("rep:"):
            res["reporters"][k[4:]] = p
        elif k.startswith("doc:"):
            res["docrules"][k[4:]] = p
        elif k.startswith("unit:"):
            res["units"][k[5:]] = p
        else:
            res[k] = p
    if lock:
        lock.close()
    return res


if __name__ == "__main__":
    import time
    t = time.time()
    r = product(oclint=True, doc=True, scaffold=True)
    print(f"built {len(r['rules'])} rules, {len(r['reporters'])} reporters in {time.time()-t:.1f}s")
