"""Client side of the fork server, install trees, report parsing."""
import os, shutil, subprocess, sys, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B  # noqa: E402

LLVM_RES = B.LLVM + "/lib/clang"


class HarnessError(Exception):
    """Something wrong with the machinery itself, never a verdict."""


class V:
    """One violation as reported."""
    __slots__ = ("rule", "cat", "pri", "path", "sl", "sc", "el", "ec", "msg")

    def __init__(self, rule, cat, pri, path, sl, sc, el, ec, msg):
        self.rule, self.cat, self.pri, self.path = rule, cat, pri, path
        self.sl, self.sc, self.el, self.ec, self.msg = sl, sc, el, ec, msg

    def key(self):
        return (self.rule, self.cat, self.pri, self.path, self.sl, self.sc, self.el, self.ec, self.msg)

    def loc(self):
        return (self.sl, self.sc, self.el, self.ec)

    def __repr__(self):
        return f"{self.rule}@{os.path.basename(self.path)}:{self.sl}:{self.sc}-{self.el}:{self.ec} P{self.pri} {self.msg!r}"

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Report:
    FIELDS = ("n", "p1", "p2", "p3", "files", "fileswith", "nerr", "nwarn", "nbug")

    def __init__(self, raw):
        a = raw.index(b"@VERIF@") + 7
        self.before = raw[:a - 7]
        pos = a

        def item():
            nonlocal pos
            c = raw.index(b":", pos)
            n = int(raw[pos:c])
            s = raw[c + 1:c + 1 + n]
            if len(s) != n:
                raise ValueError("short")
            pos = c + 1 + n
            return s.decode("utf-8", "surrogateescape")

        def vs():
            r = []
            for _ in range(int(item())):
                rule, cat, pri, path = item(), item(), int(item()), item()
                sl, sc, el, ec = (int(item()) for _ in range(4))
                r.append(V(rule, cat, pri, path, sl, sc, el, ec, item()))
            return r
        self.violations, self.errors, self.warnings, self.bugs = vs(), vs(), vs(), vs()
        for f in self.FIELDS:
            setattr(self, f, int(item()))
        if raw[pos:pos + 5] != b"@END@":
            raise ValueError("no end mark")
        self.after = raw[pos + 5:]


class Run:
    def __init__(self, rc, sig, out, err):
        self.rc, self.sig, self.out, self.err = rc, sig, out, err
        self._rep = None

    @property
    def report(self):
        if self._rep is None and b"@VERIF@" in self.out:
            self._rep = Report(self.out)
        return self._rep

    def text(self):
        return f"exit={self.rc} signal={self.sig}\nstdout: {self.out[-1500:]!r}\nstderr: {self.err[-1500:]!r}"


def enc(items):
    out = []
    for i in items:
        if isinstance(i, str):
            i = i.encode("utf-8", "surrogateescape")
        out.append(b"%d:" % len(i) + i)
    return b"".join(out)


class Server:
    """One zygote process."""

    def __init__(self, exe, preload=(), more=None):
        env = {"PATH": "/usr/bin:/bin", "LANG": "C"}
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_container_overflow=0:detect_odr_violation=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
        env.update(more or {})
        self.p = subprocess.Popen([exe] + list(preload), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env)
        self.lock = threading.Lock()
        self.runs = 0

    def run(self, argv, cwd, env=None, timeout=60):
        e = dict(env or {})
        items = [os.fspath(cwd), str(timeout), str(len(e))] + \
            [f"{k}={v}" if v is not None else k for k, v in e.items()] + list(argv)
        with self.lock:
            self.runs += 1
            try:
                self.p.stdin.write(enc([str(len(items))]) + enc(items))
                self.p.stdin.flush()
                h = self.p.stdout.readline()
                rc, sig, ol, el = (int(x) for x in h.split())
                out = self.p.stdout.read(ol)
                err = self.p.stdout.read(el)
            except (ValueError, BrokenPipeError) as x:
                raise HarnessError(f"zygote died: {x} {self.p.poll()}")
        if rc == 98:
            raise HarnessError(f"cannot chdir to {cwd}")
        return Run(rc, sig, out, err)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


class Inst:
    """An install tree (bin, lib/oclint/..., etc) in a scratch directory, and a server."""

    def __init__(self, prod, rules=None, reporters=("VerifReporter",), preload=True, noload=("UnusedLocalVariableRule",)):
        self.dir = tempfile.mkdtemp(prefix="ocv_", dir=scratch_root())
        self.prod = prod
        self.rules = {r: p for r, p in prod["rules"].items() if rules is None or r in rules}
        os.umask(0)
        os.chmod(self.dir, 0o777)   # the server runs as an unprivileged user
        mk = lambda *a: os.makedirs(os.path.join(self.dir, *a), exist_ok=True)
        mk("inst", "bin"); mk("inst", "lib/oclint/rules"); mk("inst", "lib/oclint/reporters")
        mk("inst", "etc"); mk("home"); mk("w")
        L = os.path.join(self.dir, "inst", "lib")
        os.symlink(LLVM_RES, os.path.join(L, "clang"))
        for r, p in self.rules.items():
            os.symlink(p, os.path.join(L, "oclint/rules", os.path.basename(p)))
        for r in reporters:
            p = prod["reporters"][r]
            os.symlink(p, os.path.join(L, "oclint/reporters", os.path.basename(p)))
        self.argv0 = os.path.join(self.dir, "inst", "bin", "oclint")
        pre = [p for r, p in self.rules.items() if preload and r not in noload]
        pre += [prod["reporters"][r] for r in reporters]
        # the resource directory is found beside the executable's real path
        self.exe = os.path.join(self.dir, "inst", "bin", "zygote")
        try:
            os.link(prod["zygote"], self.exe)
        except OSError:
            shutil.copy2(prod["zygote"], self.exe)
        self.pre = pre
        self.servers = []

    def server(self, more=None):
        s = Server(self.exe, self.pre, more)
        self.servers.append(s)
        return s

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        for s in self.servers:
            s.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def scratch_root():
    r = os.environ.get("VERIF_SCRATCH")
    if not r:
        r = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return r
