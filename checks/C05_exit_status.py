"""C05: the exit status tells what happened."""
import json, os, re, shutil, tempfile
from hypothesis import strategies as st
from util import *

LOADED = ["MisplacedNullCheckRule", "EmptyIfStatementRule", "TooManyParametersRule"]
NEEDS = dict(rules=LOADED, reporters=[])
RULE = ("runs with chosen numbers of priority 1/2/3 violations, limits at, above and below them (defaults included), and up to "
        "several faults at once: unknown option, no rules, unloadable rule, unknown reporter, missing compile directory, command "
        "with several jobs, unwritable report, compile errors; the exit status against a precedence table "
        "(non-trivial: a limit within one of its count, or a fault)")


class Exit(Sub):
    name = "exit"
    quick, thorough = 800, 6000

    def strategy(self):
        cnt = lambda m: st.one_of(st.integers(0, 3), st.integers(0, m))
        lim = st.none() | st.integers(-2, 2).map(lambda d: ["rel", d]) | st.integers(-1, 25).map(lambda d: ["abs", d])
        fault = st.sampled_from(["option", "norules", "nodir", "badrule", "reporter", "cwd", "jobs", "output", "error", "warning"])
        return st.fixed_dictionaries({
            "n": st.tuples(cnt(4), st.one_of(cnt(12), st.integers(9, 12)), st.one_of(cnt(22), st.integers(19, 22))).map(list),
            "lim": st.tuples(lim, lim, lim).map(list),
            "faults": st.one_of(st.just([]), fault.map(lambda x: [x]), st.lists(fault, max_size=3, unique=True)),
            "split": st.integers(0, 3), "repeat": st.booleans(), "dups": st.booleans(), "where": st.booleans()})

    def test(self, ctx, case):
        i = ctx.inst(rules=LOADED, preload=False)
        d = tempfile.mkdtemp(prefix="x", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            return self.run(ctx, i, case, d)
        finally:
            shutil.rmtree(d)

    def run(self, ctx, i, case, d):
        n, f = case["n"], case["faults"]
        body = [f"int na{k}(struct S *p) {{ if (p->x && p) return 1; return 0; }}" for k in range(n[0])]
        body += [f"int nb{k}(int p) {{ if (p) {{ }} return 0; }}" for k in range(n[1])]
        body += [f"int nc{k}(int,int,int,int,int,int,int,int,int,int,int);" .replace(";", "{ return 0; }") for k in range(n[2])]
        nf = 1 + case["split"]
        srcs = []
        for k in range(nf):
            srcs.append(write(os.path.join(d, f"f{k}.c"), "struct S { int x; };\n" + "\n".join(body[k::nf]) + "\n"))
        bad = write(os.path.join(d, "bad.c"), "int broken( { return undeclared; }\n" if "error" in f else "int ok(void) { return 0; }\n")
        warn = write(os.path.join(d, "w.c"), "int *w(void) { int x = 3; return x; }\n")
        order = list(srcs)
        if case["repeat"]:
            order.append(srcs[0])
        if "error" in f:
            order.insert(0 if case["where"] else len(order), bad)
        cflags = ["-w"]
        if "warning" in f:
            order.append(warn)
            cflags = ["-Wno-everything", "-Wint-conversion", "-Wno-error=int-conversion"]
        args = ["-report-type", "nothere" if "reporter" in f else "verif"]
        if case["dups"]:
            args.append("-allow-duplicated-violations")
        counts = list(n)
        if case["repeat"] and case["dups"]:
            for p in range(3):
                counts[p] += sum(1 for k, b in enumerate(body[0::nf]) if b.startswith("int n" + "abc"[p]))
        limits = [0, 10, 20]
        for p, l in enumerate(case["lim"]):
            if l is not None:
                limits[p] = l[1] + (counts[p] if l[0] == "rel" else 0)
                args.append(f"-max-priority-{p+1}={limits[p]}")
        if "option" in f:
            args.append("-no-such-option-at-all")
        if "norules" in f:
            os.makedirs(os.path.join(d, "emptyrules"))
            args += ["-R", os.path.join(d, "emptyrules")]
        elif "nodir" in f:
            args += ["-R", os.path.join(d, "absent")]
        if "badrule" in f:
            os.makedirs(os.path.join(d, "badrules"))
            write(os.path.join(d, "badrules", "libBad.so"), "this is not a library")
            args += ["-R", os.path.join(d, "badrules")]
        if "output" in f:
            args += ["-o", os.path.join(d, "absent", "report.txt")]
        if "cwd" in f or "jobs" in f:
            db = []
            for k, s in enumerate(dict.fromkeys(order)):
                cmd = ["clang", "-c", *cflags, s]
                if "jobs" in f and k == (0 if case["where"] else nf - 1):
                    cmd = ["clang", "-c", *cflags, s, bad if bad != s else srcs[0]]
                db.append({"directory": os.path.join(d, "gone") if "cwd" in f and k == (0 if case["where"] else nf - 1) else d,
                           "file": s, "arguments": cmd})
            write(os.path.join(d, "compile_commands.json"), json.dumps(db))
            cmdline = args + ["-p", d] + order
        else:
            cmdline = args + order + ["--"] + cflags
        r = oclint(ctx, i, cmdline, cwd=d)
        if r.sig:
            raise Fail("killed: " + r.text())
        # ---- precedence
        if "option" in f:
            want = 7
        elif "badrule" in f or "norules" in f or "nodir" in f:
            want = 1
        elif "reporter" in f:
            want = 2
        elif "cwd" in f or "jobs" in f:
            want = 3
        elif "output" in f:
            want = 4
        elif "error" in f:
            want = 6
        elif any(c > l for c, l in zip(counts, limits)):
            want = 5
        else:
            want = 0
        eq(r.rc, want, f"exit status (faults {f}, counts {counts}, limits {limits})\n{r.text()}")
        if want in (0, 5, 6):
            rep = need_report(r)
            eq([rep.p1, rep.p2, rep.p3], counts, "violation counts")
            eq(len(rep.errors) > 0, "error" in f, "compile errors listed")
            if "warning" in f and not rep.warnings:
                raise Fail("the compiler warning is not listed " + r.text())
        elif b"@VERIF@" in r.out:
            raise Fail(f"a report was printed with exit status {r.rc}")
        # ---- a failure is explained on standard error, and success needs no words
        err = r.err.decode("utf-8", "replace")
        if 1 <= want <= 4 and not re.search(r"oclint: error: *\S", err):
            raise Fail(f"no message for exit status {want}\n{r.text()}")
        if want == 5:
            m = re.search(r"oclint: error: .*\nP1=(\d+)\[(-?\d+)\] P2=(\d+)\[(-?\d+)\] P3=(\d+)\[(-?\d+)\]", err)
            if not m:
                raise Fail(f"counts and limits are not printed\n{r.text()}")
            eq([int(x) for x in m.groups()], [x for cl in zip(counts, limits) for x in cl], f"counts and limits printed\n{r.text()}")
        if want in (0, 6) and "oclint: error" in err:
            raise Fail(f"an error message for exit status {want}\n{r.text()}")
        if want == 7 and not err.strip():
            raise Fail("no message for a bad command line")
        near = any(abs(c - l) <= 1 for c, l in zip(counts, limits))
        return ["near" if near and not f else "", *["fault-" + x for x in f], "default-limits" if case["lim"] == [None] * 3 else "",
                f"exit{want}" if want or near else ""]


def subs(tier):
    return [Exit()]
