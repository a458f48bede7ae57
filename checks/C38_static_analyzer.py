"""C38: the static analyzer adds its findings to the report and changes nothing else."""
import json, os, shutil, tempfile
from hypothesis import strategies as st
import oc
from util import *
from C11_compile_commands import tree

LOADED = ["EmptyIfStatementRule", "GotoStatementRule"]
NEEDS = dict(rules=LOADED, reporters=[])
RULE = ("one to four sources (C, C++) of functions that hold a bug of a known kind and place, or nearly hold one, inside generated control flow, with "
        "code of known violations, warnings and errors, in databases and fixed commands, with and without global analysis and duplicates; "
        "the findings listed against a model; the rest of the report, the exit status and the tree against the run without the analyzer "
        "(non-trivial: a finding and a violation, warning or error)")

# name: (declarations before, body with @ before the reported column, message, languages); {o} and {c} open and close the control flow
B = {
    "null": ("", "int *pp = 0; {o} return @*pp; {c} return 0;", "Dereference of null pointer (loaded from variable 'pp') [core.NullDereference]", ""),
    "zero": ("", "int dd = 0; {o} return 1 @/ dd; {c} return 0;", "Division by zero [core.DivideZero]", ""),
    "undef": ("", "int uu; {o} return uu; {c} return 0;", "Undefined or garbage value returned to caller [core.uninitialized.UndefReturn]", ""),
    "branch": ("", "int uu; {o} if (@uu) {{ return 2; }} {c} return 0;", "Branch condition evaluates to a garbage value [core.uninitialized.Branch]", ""),
    "leak": ("extern \"C\" void *malloc(__SIZE_TYPE__);", "int *qq; {o} qq = (int *)malloc(4); if (!qq) {{ return 1; }} *qq = 1; @return 7; {c} return 0;",
             "Potential leak of memory pointed to by 'qq' [unix.Malloc]", ""),
    "free": ("extern \"C\" void *malloc(__SIZE_TYPE__); extern \"C\" void free(void *);", "void *qq = malloc(4); {o} free(qq); @free(qq); return 3; {c} free(qq); return 0;",
             "Attempt to free released memory [unix.Malloc]", ""),
    "dead": ("", "int vv; {o} @vv = 4; {c} vv = gg + 1; return vv;", "Value stored to 'vv' is never read [deadcode.DeadStores]", ""),
    "call": ("static int hh{n}(int *pp) {{ return @*pp; }}", "{o} return hh{n}(0); {c} return 0;", "Dereference of null pointer (loaded from variable 'pp') [core.NullDereference]", ""),
    "new": ("", "int *qq = new int; {o} delete qq; @delete qq; return 3; {c} delete qq; return 0;", "Attempt to free released memory [cplusplus.NewDelete]", "cpp"),
    "newleak": ("", "int *qq; {o} qq = new int; *qq = 1; @return 7; {c} return 0;", "Potential leak of memory pointed to by 'qq' [cplusplus.NewDeleteLeaks]", "cpp"),
    "macro": ("#define DEREF{n}(p) (*(p))", "int *pp = 0; {o} return @DEREF{n}(pp); {c} return 0;", "Dereference of null pointer (loaded from variable 'pp') [core.NullDereference]", ""),
    "header": ("", "{o} return hdr_deref(0); {c} return 0;", "HEADER", ""),
    # no findings
    "okheader": ("", "int xx = 2; {o} return hdr_deref(&xx); {c} return 0;", "", ""),
    "oknull": ("", "int *pp = gp; {o} if (pp) {{ return *pp; }} {c} return 0;", "", ""),
    "okzero": ("", "int dd = gg; {o} if (dd == 0) {{ return 5; }} return 1 / dd; {c} return 0;", "", ""),
    "okundef": ("", "int uu; uu = gg; {o} return uu; {c} return 0;", "", ""),
    "okleak": ("extern \"C\" void *malloc(__SIZE_TYPE__); extern \"C\" void free(void *);", "int *qq; {o} qq = (int *)malloc(4); free(qq); return 7; {c} return 0;", "", ""),
    "oknew": ("", "int *qq = new int; {o} *qq = 2; {c} delete qq; return 0;", "", "cpp"),
    "unreached": ("", "int *pp = 0; {o} if (!pp) {{ return 1; }} return *pp; {c} return 0;", "", ""),
}
BUGS = [k for k in B if B[k][2]]
FLOW = [("if ({v}) {{", "}}"), ("if ({v} > 3) {{ {v} = 2; }} else {{", "}}"), ("while ({v}) {{", "}}"), ("for ({v} = 0; {v} < aa; {v}++) {{", "}}"),
        ("switch ({v}) {{ case 4: {{", "}} break; default: break; }}"), ("{{", "}}"), ("do {{", "}} while ({v});"), ("if (aa != 4 && {v} == 5) {{", "}}")]
# other lines: text, what it is
OTHER = [("int vi{n}(int pp) {{ if (pp) {{ }} return 1; }}", "violation"), ("#warning look {n}", "warning"), ("int wa{n}(int pp) {{ if (pp = 1) {{ return pp; }} return 0; }}", "warning"),
         ("#ifdef __clang_analyzer__\nint ca{n}(int pp) {{ if (pp) {{ }} return 1; }}\n#endif", ""),
         ("int ee{n} = zqw{n};", "error"), ("int er{n}; float er{n};", "error"), ("int gt{n}(int pp) {{ goto end; end: return pp; }}", "violation")]
GUARD = ["", "", "", "#ifdef __OCLINT__", "#ifdef __clang_analyzer__", "#ifndef __OCLINT__", "#if HAS", "#ifndef __clang_analyzer__", "#ifdef SECOND"]
FLAGS = ["-Werror", "-Wall", "-w", "-fsyntax-only", "-c", "-o a.o", "-O2", "-g", "-MD", "-DHAS=1", "-Xclang -analyzer-disable-checker=deadcode", "-Xclang -analyzer-werror", "-Weverything", "-S", "-emit-llvm -c", "--analyze"]

func = st.tuples(st.just("func"), st.one_of(st.sampled_from(BUGS), st.sampled_from(sorted(B))), st.lists(st.integers(0, len(FLOW) - 1), max_size=3), st.integers(0, len(GUARD) - 1)).map(list)
other = st.tuples(st.just("other"), st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 6])).map(list)
source = st.fixed_dictionaries({"lang": st.sampled_from(["c", "cpp"]), "items": st.lists(st.one_of(func, func, other), min_size=1, max_size=7),
                                "flags": st.lists(st.sampled_from(FLAGS), max_size=2, unique=True)})


class Findings(Sub):
    name = "findings"
    quick, thorough = 350, 3000

    def strategy(self):
        return st.fixed_dictionaries({"src": st.lists(source, min_size=1, max_size=4), "global": st.booleans(), "dup": st.booleans(),
                                      "twice": st.sampled_from([False, False, True]), "fixed": st.sampled_from([False, False, True])})

    def test(self, ctx, case):
        i = ctx.inst(rules=LOADED)
        d = tempfile.mkdtemp(prefix="c", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            return self.run(ctx, i, case, d)
        finally:
            shutil.rmtree(d)

    def text(self, s, path, hdr, second):
        """The source, its findings (of all commands, of the second only), and whether it compiles."""
        cxx = s["lang"] == "cpp"
        flags = s["flags"]
        lines, found, late, kinds = ['#include "hdr.h"', "extern int gg, g0, g1, g2; extern int *gp;"], [], [], set()
        nodead = any("disable-checker" in f for f in flags)
        has = "-DHAS=1" in flags
        inheader = False
        for n, it in enumerate(s["items"]):
            if it[0] == "other":
                t, kind = OTHER[it[1]]
                lines += t.format(n=n).split("\n")
                kinds.add(kind)
                continue
            _, name, flow, guard = it
            if B[name][3] == "cpp" and not cxx:
                name = "null"
            pre, body, msg, _ = B[name]
            o, c = (" ".join(x) for x in ([FLOW[k][0].format(v=f"g{j}") for j, k in enumerate(flow)], [FLOW[k][1].format(v=f"g{j}") for j, k in reversed(list(enumerate(flow)))]))
            g = GUARD[guard]
            seen = g in ("", "#ifdef __OCLINT__", "#ifdef __clang_analyzer__") or (g == "#if HAS" and has) or (g == "#ifdef SECOND" and second)
            if g:
                lines.append(g)
            pre = pre.format(n=n)
            if not cxx:
                pre = pre.replace('extern "C"', "extern")
            for l in ([pre] if pre else []) + [f"int fn{n}(int aa) {{ " + body.format(o=o, c=c, n=n) + " }"]:
                if "@" not in l and name == "undef":
                    l = l.replace("return uu", "@return uu", 1)
                if "@" in l and seen and not (name == "dead" and nodead):
                    (late if g == "#ifdef SECOND" else found).append((path, len(lines) + 1, l.index("@") + 1, msg))
                lines.append(l.replace("@", ""))
            if g:
                lines.append("#endif")
            if msg == "HEADER" and seen and (not inheader or inheader == "late" and g != "#ifdef SECOND"):
                if inheader:
                    late = [f for f in late if f[0] != hdr]
                inheader = "late" if g == "#ifdef SECOND" else "yes"
                (late if inheader == "late" else found).append((hdr, 1, 47, "Dereference of null pointer (loaded from variable 'pp') [core.NullDereference]"))
        return "\n".join(lines) + "\n", found, late, kinds

    def run(self, ctx, i, case, d):
        hdr = write(os.path.join(d, "hdr.h"), "static inline int hdr_deref(int *pp) { return *pp; }\nstatic inline int hdr_never(void) { int *pp = 0; return *pp; }\n")
        srcs = case["src"][:1] if case["fixed"] else case["src"]
        db, asked, want, what = [], [], [], set()
        for k, s in enumerate(srcs):
            p = os.path.join(d, f"src{k}." + s["lang"])
            if case["fixed"]:      # clang takes flags behind -- for those of one compilation
                s = {**s, "flags": [f for f in s["flags"] if f not in ("--analyze", "-S", "-emit-llvm -c")]}
            t, found, late, kinds = self.text(s, p, hdr, case["twice"] and not case["fixed"])
            write(p, t)
            write(os.path.join(d, f"src{k}.plist"), "mine\n")
            fl = [x for f in s["flags"] for x in f.split()]
            db.append({"directory": d, "file": p, "arguments": ["cc", *fl, p]})
            if case["twice"]:
                db.append({"directory": d, "file": p, "arguments": ["cc", *fl, "-DSECOND", p]})
            asked.append(p)
            what |= kinds
            if "error" not in kinds:
                want += found * (2 if case["twice"] and not case["fixed"] else 1) + late
        if not case["dup"]:
            want = list(dict.fromkeys(want))
        opts = ["-report-type", "verif", "-max-priority-2", "3"]
        opts += ["-enable-global-analysis"] if case["global"] else []
        opts += ["-allow-duplicated-violations"] if case["dup"] else []
        write(os.path.join(d, "compile_commands.json"), json.dumps(db))
        tail = ["-p", d] + asked
        if case["fixed"]:
            tail = asked + ["--"] + db[0]["arguments"][1:-1]
        state = tree(d)
        texts = "\n".join(open(a).read() for a in asked) + json.dumps(db)
        a = oclint(ctx, i, opts + tail, cwd=d)
        b = oclint(ctx, i, opts + ["-enable-clang-static-analyzer"] + tail, cwd=d)
        ra, rb = need_report(a, texts), need_report(b, texts)
        eq(tree(d), state, f"files of the tree after the run\n{texts}\n")
        diff_multiset([(v.path, v.sl, v.sc, v.msg) for v in rb.bugs], want, f"findings for\n{texts}\n")
        eq(len(ra.bugs), 0, "findings without the analyzer")
        eq(rb.nbug, len(want), "number of findings")
        if any((v.rule, v.el, v.ec) != ("", 0, 0) for v in rb.bugs):
            raise Fail(f"a finding with an end or a rule: {rb.bugs}")
        for k in ("errors", "warnings", "violations"):
            eq([str(v) for v in getattr(rb, k)], [str(v) for v in getattr(ra, k)], f"{k} with the analyzer, for\n{texts}\n")
        for k in oc.Report.FIELDS:
            if k != "nbug":
                eq(getattr(rb, k), getattr(ra, k), f"{k} with the analyzer, for\n{texts}\n")
        eq(b.rc, a.rc, f"exit status with the analyzer, for\n{texts}\n")
        return ["beside" if want and what & {"violation", "warning", "error"} else "", "broken" if want and "error" in what else "", "several" if want and len(srcs) > 1 else "",
                "twice" if want and case["twice"] else "", "second" if late else "", "header" if any(w[0] == hdr for w in want) else ""]


def subs(tier):
    return [Findings()]
