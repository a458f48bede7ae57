"""C37: the report arrives where it was asked for, whole, wherever the tool is started from."""
import json, os, re, shutil, tempfile
from hypothesis import strategies as st
from util import *

LOADED = ["EmptyIfStatementRule", "TooManyParametersRule", "ShortVariableNameRule"]
REP = {"text": "TextReporter", "html": "HTMLReporter", "json": "JSONReporter", "pmd": "PMDReporter", "xml": "XMLReporter", "xcode": "XcodeReporter", "verif": "VerifReporter"}
NEEDS = dict(rules=LOADED, reporters=[r for r in REP.values() if r != "VerifReporter"])
RULE = ("runs over one to three compile commands in several directories, in every format, with the report sent to standard output, to relative and absolute paths, over existing "
        "files and to places that cannot be written, started through an absolute path, a relative path or the search path: the bytes and the exit status against a plain run "
        "(non-trivial: the report goes elsewhere, or cannot)")
IDS = {"EmptyIfStatement": "empty if statement", "TooManyParameters": "too many parameters", "ShortVariableName": "short variable name"}
OUT = ["", "out.txt", "./out.txt", "sub/out.txt", "../up.txt", "a b.txt", "ABS", "ABS2", "over.txt", "LINK", "/dev/full", "absent/x.txt", "sub", "readonly.txt", "-", "FULLLINK"]
TIME = re.compile(rb"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ?|\"timestamp\":\s*\d+|(?:Mon|Tue|Wed|Thu|Fri|Sat|Sun)[^<\n]{0,60}\d\d:\d\d:\d\d[^<\n]{0,20}")


class Delivery(Sub):
    name = "delivery"
    quick, thorough = 250, 5000

    def strategy(self):
        fn = st.tuples(st.integers(0, 3), st.integers(0, 20)).map(list)
        return st.fixed_dictionaries({"type": st.sampled_from(sorted(REP)), "out": st.sampled_from(OUT + OUT[:8]), "start": st.sampled_from(["abs", "rel", "path", "abs"]),
                                      "list": st.booleans(), "files": st.lists(st.fixed_dictionaries({"fns": st.lists(fn, max_size=6), "dir": st.integers(0, 2), "err": st.sampled_from([False] * 6 + [True])}),
                                                                             min_size=1, max_size=3),
                                      "old": st.sampled_from([0, 10, 5000, 100000]), "db": st.booleans(), "max": st.sampled_from([0, 10, None]), "conf": st.booleans(),
                                      "rule": st.lists(st.sampled_from(sorted(IDS)), max_size=2, unique=True), "off": st.lists(st.sampled_from(sorted(IDS)), max_size=1)})

    def test(self, ctx, case):
        i = ctx.inst(rules=LOADED, reporters=tuple(REP.values()))
        d = tempfile.mkdtemp(prefix="x", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            return self.run(ctx, i, case, d)
        finally:
            shutil.rmtree(d)

    def run(self, ctx, i, case, d):
        w = os.path.join(d, "w")
        for x in ("w", "w/sub", "d1", "d1/d2", "away"):
            os.makedirs(os.path.join(d, x))
            os.chmod(os.path.join(d, x), 0o777)
        dirs = [w, os.path.join(d, "d1"), os.path.join(d, "d1/d2")]
        BODY = ["int f{0}(int par) {{ if (par) {{ }} return 1; }}", "int f{0}(int x) {{ return x; }}",
                "int f{0}(int aaa,int bbb,int ccc,int ddd,int eee,int fff,int ggg,int hhh,int iii,int jjj,int kkk) {{ return aaa; }}", "int f{0}(void);"]
        db, srcs = [], []
        for k, f in enumerate(case["files"]):
            t = "".join("\n" * (n % 3) + BODY[b].format(j) + "\n" for j, (b, n) in enumerate(f["fns"])) + ("int broken( {\n" if f["err"] else "")
            p = write(os.path.join(dirs[f["dir"]], f"s{k}.c"), t)
            srcs.append(p)
            db.append({"directory": dirs[f["dir"]], "file": p, "arguments": ["cc", "-w", "-c", f"s{k}.c"]})
        write(os.path.join(d, "d1", "compile_commands.json"), json.dumps(db))
        sel = [x for r in case["rule"] for x in ("-rule", r)] + [x for r in case["off"] for x in ("-disable-rule", r)]
        base = ["-report-type", case["type"]] + sel + ([] if case["max"] is None else [f"-max-priority-{p}={case['max']}" for p in (1, 2, 3)])
        tail = ["-p", os.path.join(d, "d1")] + srcs if case["db"] else srcs + ["--", "-w"]
        plain = oclint(ctx, i, base + tail, cwd=w)
        if plain.sig or plain.rc not in (0, 5, 6):
            raise Fail(f"plain run {plain.text()}")
        # ---- where to
        o = case["out"]
        target, ok = None, True
        old = b"#" * case["old"]
        if o == "ABS":
            o = target = os.path.join(d, "away", "r.txt")
        elif o == "ABS2":
            o, target = w + "/sub/../r.txt", os.path.join(w, "r.txt")
        elif o == "LINK":
            target = os.path.join(d, "away", "t.txt")
            write(target, old)
            os.chmod(target, 0o666)
            o = "link.txt"
            os.symlink(target, os.path.join(w, o))
        elif o == "FULLLINK":
            o = "link.txt"
            os.symlink("/dev/full", os.path.join(w, o))
            ok = False
        elif o in ("/dev/full", "absent/x.txt", "sub"):
            ok = False
        elif o == "readonly.txt":
            write(os.path.join(w, o), old)
            os.chmod(os.path.join(w, o), 0o444)
            ok = False
        elif o not in ("", "-"):
            target = os.path.join(w, o)
            if o == "over.txt":
                write(target, old)
                os.chmod(target, 0o666)
        env, argv0 = {}, i.argv0
        if case["start"] == "rel":
            argv0 = os.path.relpath(i.argv0, w)
        elif case["start"] == "path":
            argv0 = "oclint"
            env["PATH"] = "/nowhere:" + os.path.dirname(i.argv0)
            if not os.path.exists(i.argv0):
                os.symlink(i.exe, i.argv0)
        args = base + (["-list-enabled-rules"] if case["list"] else [])
        if o and case["conf"]:
            write(os.path.join(w, ".oclint"), json.dumps({"output": o}) + "\n")
        elif o:
            args += ["-o", o]
        r = oclint(ctx, i, args + tail, cwd=w, argv0=argv0, env=env)
        if r.sig:
            raise Fail("killed: " + r.text())
        say = f"{args + tail} from {argv0} {case['conf'] and o}\n{r.text()}\nplain run: {plain.text()}"
        out = r.out
        if case["list"]:
            en = set(case["rule"]) - set(case["off"])
            on = [x for x in IDS if (not en or x in en) and x not in case["off"]]
            m = re.match(rb"Enabled rules:\n((?:- .*\n)*)\n", out)
            if not m:
                raise Fail(f"no list of the rules first\n{say}")
            eq(sorted(x[2:] for x in m.group(1).decode().split("\n") if x), sorted(on), f"listed rules\n{say}")
            out = out[m.end():]
        norm = lambda b: TIME.sub(b"TIME", b)
        if o in ("/dev/full", "link.txt") and not ok and not plain.out:
            ok = True                      # nothing is written
        if not ok:
            eq(r.rc, 4, f"exit status when the report cannot be written\n{say}")
            eq(out, b"", f"standard output\n{say}")
            return ["unwritable", case["type"]]
        eq(r.rc, plain.rc, f"exit status\n{say}")
        if target is None:
            eq(norm(out), norm(plain.out), f"report\n{say}")
        else:
            eq(out, b"", f"standard output\n{say}")
            try:
                got = open(target, "rb").read()
            except OSError as e:
                raise Fail(f"no report at {target}\n{say}")
            eq(norm(got), norm(plain.out), f"report in {o}\n{say}")
        return [case["out"] if target else "", case["type"] if target else "", case["start"] if case["start"] != "abs" else "", "config" if case["conf"] and target else "",
                f"exit{r.rc}" if target else ""]


def subs(tier):
    return [Delivery()]
