"""C11: each source is analyzed as its compile command says, with __OCLINT__ defined, and nothing is written."""
import json, os, shlex, shutil, tempfile
from hypothesis import strategies as st
from util import *

LOADED = ["EmptyIfStatementRule"]
NEEDS = dict(rules=LOADED, reporters=[])
RULE = ("compilation databases of up to four commands (command strings and argument lists, odd directories, escaped spaces, several "
        "commands per file, macros, include paths, language and mode flags, output and dependency flags, '--') over sources whose "
        "violations depend on every flag; the reported lines against a model of the flags, and the tree before and after "
        "(non-trivial: two commands that differ, or a flag that changes the result)")

# (condition, what decides it)
CONDS = ["defined(__OCLINT__)", "defined(AA)", "AA == 1", "AA == 2", "defined(BB)", "BB == 7", "defined(__cplusplus)",
         "!defined(__cplusplus)", "defined(__OPTIMIZE__)", "HDR == 1", "HDR == 2", "HDR == 3", "defined(FORCED)",
         "!defined(__OCLINT__)", "defined(NDEBUG)", "defined(LOCAL_HDR)", "defined(_FORTIFIED) && defined(__OCLINT__)",
         "defined(__GXX_RTTI)"]
SRC = '#include "hdr.h"\n#include "local.h"\n' + "".join(
    f"#if {c}\nint fn{k}(int xx) {{ if (xx) {{ }} return 1; }}\n#endif\n" for k, c in enumerate(CONDS))
LINE = {c: 4 + 3 * k for k, c in enumerate(CONDS)}

FLAGS = ["-DAA", "-DAA=1", "-DAA=2", "-UAA", "-DBB=7", "-DBB", "-O2", "-O0", "-g", "-DNDEBUG", "-UNDEBUG", "-fPIC", "-Wall", "-D _FORTIFIED",
         "-xc++", "-xc", "-include forced.h", "-gmodules", "-MD", "-MMD -MF dep.d", "-MD -MT x -MF out/dep.d", "-fsyntax-only", "-c", "-o a.o",
         "-o out/a.o", "-oa.o", "-pipe", "-S", "-E", "-save-temps", "-fno-rtti", "-D__FOO__=\"a b\"", "-fcolor-diagnostics", "-pthread",
         "-std=c11", "-std=c++17", "-w", "-Wno-everything"]
DIRS = ["plain", "with space", "d/e", "t-x"]

EXTRA = ["-DAA=2", "-DAA=1", "-UAA", "-DBB=7", "-DNDEBUG", "-UNDEBUG", "-O2", "-O0", "-include forced.h", "-D _FORTIFIED", "-w"]

cmd = st.fixed_dictionaries({
    "file": st.integers(0, 2), "dir": st.integers(0, len(DIRS) - 1),
    "flags": st.lists(st.sampled_from(FLAGS), max_size=6),
    "inc": st.integers(0, 3), "tool": st.sampled_from(["cc", "cc", "clang", "gcc", "g++", "clang++", "/usr/bin/x86_64-linux-gnu-g++"]),
    "rsp": st.sampled_from([False] * 5 + [True]), "how": st.integers(0, 3), "dashes": st.booleans(), "abs": st.booleans(), "esc": st.booleans()})


class Commands(Sub):
    name = "commands"
    quick, thorough = 700, 4000

    def strategy(self):
        return st.fixed_dictionaries({
            "cmds": st.lists(cmd, min_size=1, max_size=4), "order": st.permutations([0, 1, 2]).map(list), "n": st.integers(1, 3),
            "fixed": st.sampled_from([False, False, False, True]), "global": st.booleans(), "empty": st.sampled_from([False] * 15 + [True]),
            "ghost": st.sampled_from([False] * 5 + [True]), "found": st.sampled_from([False, False, True]),
            "after": st.sampled_from([0, 0, 1, 2]).flatmap(lambda n: st.lists(st.sampled_from(EXTRA), min_size=n, max_size=n)),
            "before": st.sampled_from([0, 0, 1]).flatmap(lambda n: st.lists(st.sampled_from(EXTRA), min_size=n, max_size=n))})

    def test(self, ctx, case):
        i = ctx.inst(rules=LOADED)
        d = tempfile.mkdtemp(prefix="c", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            return self.run(ctx, i, case, d)
        finally:
            shutil.rmtree(d)

    def run(self, ctx, i, case, d):
        # the tree: sources in src/, a hdr.h per directory and include directory
        os.makedirs(os.path.join(d, "src"))
        names = ["a.c", "b b.c", "c.cpp"]
        for n in names:
            write(os.path.join(d, "src", n), SRC)
        write(os.path.join(d, "src", "local.h"), "#define LOCAL_HDR 1\n")
        for k, x in enumerate(DIRS):
            dd = os.path.join(d, x)
            os.makedirs(os.path.join(dd, "i1")); os.makedirs(os.path.join(dd, "i2")); os.makedirs(os.path.join(dd, "out"))
            write(os.path.join(dd, "hdr.h"), "")
            write(os.path.join(dd, "i1", "hdr.h"), f"#define HDR {1 + k % 3}\n")
            write(os.path.join(dd, "i2", "hdr.h"), f"#define HDR {1 + (k + 1) % 3}\n")
            write(os.path.join(dd, "forced.h"), "#define FORCED 1\n")
        os.makedirs(os.path.join(d, "i0"))
        write(os.path.join(d, "i0", "hdr.h"), "#define HDR 3\n")
        files = [os.path.join(d, "src", n) for n in names]
        after, before = ([x for y in case[k] for x in y.split()] for k in ("after", "before"))
        cmds = [dict(c) for c in case["cmds"]]
        cmds = cmds[:1] if case["fixed"] or case["ghost"] else case["cmds"]
        db, per_file = [], {}
        for c in cmds:
            f = files[c["file"]]
            if case["ghost"]:
                c["flags"] = [x for x in c["flags"] if x not in ("-xc", "-xc++")]
            c["flags"] = self.fit(c, f)
            cwd = os.path.join(d, DIRS[c["dir"]])
            fl = [x for y in c["flags"] for x in (shlex.split(y) if not y.startswith("-D _") else ["-D", "_FORTIFIED"])]
            inc = [["-I", "."], ["-Ii1"], ["-I", "i2"], ["-I" + os.path.join(d, "i0")]][c["inc"]]
            path = f if c["abs"] else os.path.relpath(f, cwd)
            argv = [c["tool"], *inc, *fl, *(["--"] if c["dashes"] else []), path]
            if not c["dashes"] and c["how"] >= 2 and "-xc" not in fl and "-xc++" not in fl:
                argv = [c["tool"], path, *inc, *fl]
            if c["rsp"] and not c["dashes"] and not (c["esc"] and " " in cwd):
                # the flags in a response file
                k = len(db)
                write(os.path.join(cwd, f"a{k}.rsp"), "\n".join(shlex.quote(x) if "\"" not in x else x.replace("\"", "\\\"").replace(" ", "\\ ") for x in inc + fl))
                argv = [c["tool"], f"@a{k}.rsp", path]
            e = {"directory": cwd.replace(" ", "\\ ") if c["esc"] else cwd, "file": f if c["abs"] or c["esc"] else os.path.relpath(f, cwd)}
            if c["how"] % 2:
                e["command"] = " ".join(shlex.quote(x) if "\"" not in x else x.replace("\"", "\\\"").replace(" ", "\\ ") for x in argv)
            else:
                e["arguments"] = argv
            db.append(e)
            per_file.setdefault(f, []).append((path, self.model(c, before + fl + after, f)))
        asked = [files[o] for o in case["order"][:case["n"]]]
        opts = ["-report-type", "verif"] + (["-enable-global-analysis"] if case["global"] else [])
        if case["fixed"]:
            c = {**cmds[0], "tool": "cc"}
            c["flags"] = [x for x in c["flags"] if not x.startswith("-std=") and x not in ("-E", "-S", "-save-temps")]
            fl = [x for y in c["flags"] for x in (shlex.split(y) if not y.startswith("-D _") else ["-D", "_FORTIFIED"])]
            inc = [["-I", "."], ["-Ii1"], ["-I", "i2"], ["-I" + os.path.join(d, "i0")]][c["inc"]]
            cwd = os.path.join(d, DIRS[c["dir"]])
            args = opts + asked + ["--", *inc, *fl]
            per_file = {f: [(f, self.model(c, before + fl + after, f))] for f in asked}
        else:
            if case["empty"]:
                db, per_file = [], {}
            write(os.path.join(d, "compile_commands.json"), json.dumps(db))
            cwd = d
            args = opts + ["-p", d] + asked
            if case["ghost"] and not case["empty"]:
                # one command in the database: every file without one of its own borrows it
                c = cmds[0]
                fl = [x for y in c["flags"] for x in shlex.split(y)]
                for f in asked:
                    if f not in per_file and not any(x.startswith("-std") for x in fl) and "++" not in c["tool"] and c["file"] != 2 and f != files[2]:
                        per_file[f] = [(None, self.model(c, before + fl + after, f))]
            if not case["empty"]:
                asked = [f for f in asked if f in per_file]
                args = opts + ["-p", d] + asked
                if not asked:
                    raise Discard()
        if case["found"] and "-p" in args:
            k = args.index("-p")           # the database is found from the sources
            args = args[:k] + args[k + 2:]
        args = [f"-extra-arg={x}" for x in after] + [f"-extra-arg-before={x}" for x in before] + args
        state = tree(d)
        r = oclint(ctx, i, args, cwd=cwd)
        if r.sig or r.rc not in (0, 5, 6):
            raise Fail(f"run failed\n{args}\n{db}\n{r.text()}")
        rep = need_report(r)
        eq(tree(d), state, "files of the tree after the run")
        want, bad, total = [], 0, 0
        for f in asked:
            if f not in per_file:
                if f"Skipping {f}. Compile command not found." not in r.err.decode():
                    raise Fail(f"no message for {f}\n{r.text()}")
                continue
            for path, lines in per_file[f]:
                total += 1
                if lines is None:
                    bad += 1
                    continue
                want += [(path, n) for n in sorted(lines)]
        if any(p is None for p, _ in want):
            eq([v.sl for v in rep.violations], [n for _, n in want], f"lines reported\n{db}\n{r.text()}")
        else:
            eq([(v.path, v.sl) for v in rep.violations], list(dict.fromkeys(want)), f"violations reported\n{json.dumps(db)} {args}\n{r.text()}")
        eq(rep.files, total - bad, f"number of files\n{r.text()}")
        eq(r.rc, 6 if bad else 5 if len(rep.violations) > 10 else 0, f"exit status\n{r.text()}")
        models = [str(m) for v in per_file.values() for _, m in v]
        return ["extra" if (after or before) and want else "", "response" if any(c["rsp"] and not c["dashes"] for c in cmds) and want else "", "found" if case["found"] and want else "", "differ" if len(set(models)) > 1 else "", "flags" if any(c["flags"] for c in cmds) else "",
                "several-per-file" if any(len(v) > 1 for v in per_file.values()) else "", "fixed" if case["fixed"] else "",
                "dashes" if any(c["dashes"] for c in cmds) and not case["fixed"] else "", "error" if bad else ""]

    @staticmethod
    def fit(c, f):
        """The flags without a -std that does not belong to the language."""
        lang = [x[2:] for x in c["flags"] if x in ("-xc", "-xc++")]
        cxx = lang[-1] == "c++" if lang else (f.endswith(".cpp") or "++" in c["tool"])
        return [x for x in c["flags"] if not x.startswith("-std=") or ("++" in x) == cxx]

    @staticmethod
    def model(c, fl, f):
        """The set of lines that report, or None when the command does not compile."""
        aa = bb = None
        opt = nde = forced = fort = False
        rtti = True
        lang = None
        k = 0
        while k < len(fl):
            x = fl[k]
            if x == "-DAA" or x == "-DAA=1":
                aa = 1
            elif x == "-DAA=2":
                aa = 2
            elif x == "-UAA":
                aa = None
            elif x == "-DBB=7":
                bb = 7
            elif x == "-DBB":
                bb = 1
            elif x in ("-O2", "-O0"):
                opt = x == "-O2"
            elif x == "-DNDEBUG":
                nde = True
            elif x == "-UNDEBUG":
                nde = False
            elif x == "-D":
                fort = True
                k += 1
            elif x in ("-xc++", "-xc"):
                lang = x[2:]
            elif x == "-include":
                forced = True
                k += 1
            elif x == "-fno-rtti":
                rtti = False
            k += 1
        cxx = lang == "c++" or (lang is None and (f.endswith(".cpp") or "++" in c["tool"]))
        hdr = [None, 1 + c["dir"] % 3, 1 + (c["dir"] + 1) % 3, 3][c["inc"]]
        on = {"defined(__OCLINT__)": True, "defined(AA)": aa is not None, "AA == 1": aa == 1, "AA == 2": aa == 2,
              "defined(BB)": bb is not None, "BB == 7": bb == 7, "defined(__cplusplus)": cxx, "!defined(__cplusplus)": not cxx,
              "defined(__OPTIMIZE__)": opt, "HDR == 1": hdr == 1, "HDR == 2": hdr == 2, "HDR == 3": hdr == 3, "defined(FORCED)": forced,
              "!defined(__OCLINT__)": False, "defined(NDEBUG)": nde, "defined(LOCAL_HDR)": True,
              "defined(_FORTIFIED) && defined(__OCLINT__)": fort, "defined(__GXX_RTTI)": cxx and rtti}
        return {LINE[x] for x in CONDS if on[x]}


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            s = os.stat(p)
            out[os.path.relpath(p, d)] = (s.st_size, s.st_mtime_ns)
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = None
    return out


def subs(tier):
    return [Commands()]
