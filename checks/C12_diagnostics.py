"""C12: compile diagnostics are listed where the compiler puts them; broken sources only lose their own violations."""
import json, os, shutil, tempfile
from hypothesis import strategies as st
from util import *

LOADED = ["EmptyIfStatementRule"]
NEEDS = dict(rules=LOADED, reporters=[])
RULE = ("one to four sources (C, C++) made of diagnostic templates with known message and position, in the file, in a header beside it, in a "
        "system header, in macro expansions, under -w, -Werror and -Wno flags, mixed with code of known violations; listed errors, warnings and "
        "violations, counts and exit status against a model (non-trivial: a diagnostic and a violation, or two sources of which one fails)")

# name: (level, group or None, text with @ before the reported column, message, language or "")
E, W = "error", "warning"
T = {
    "expr": (E, None, "int ee{n} = @;", "expected expression", ""),
    "undeclared": (E, None, "int eu{n}(void) {{ return @zqwjkxyz{n}; }}", "use of undeclared identifier 'zqwjkxyz{n}'", ""),
    "hasherror": (E, None, "#@error stop here {n}", "stop here {n}", ""),
    "static": (E, None, "_Static_assert(@0, \"msg {n} \\\"<&\");", "static assertion failed: msg {n} \"<&", "c"),
    "redef": (E, None, "int er{n}; float @er{n};", "redefinition of 'er{n}' with a different type: 'float' vs 'int'", ""),
    "array": (E, None, "int ea{n}[@-1];", "'ea{n}' declared as an array with a negative size", ""),
    "macro": (E, None, "int em{n}(void) {{ return @BADM(1); }}", "use of undeclared identifier 'qzqzqzqz'", ""),
    "macroarg": (E, None, "int eg{n}(void) {{ return @GOODM(wkwkwkwk{n}); }}", "use of undeclared identifier 'wkwkwkwk{n}'", ""),
    "missing": ("fatal", None, "#include @\"missing_{n}.h\"", "'missing_{n}.h' file not found", ""),
    "nomember": (E, None, "struct sm{n} {{ int aa; }}; int en{n}(struct sm{n} *pp) {{ return pp->@bb; }}", "no member named 'bb' in 'sm{n}'", "cpp"),
    "nomemberc": (E, None, "struct sm{n} {{ int aa; }}; int en{n}(struct sm{n} *pp) {{ return pp->@bb; }}", "no member named 'bb' in 'struct sm{n}'", "c"),
    "hashwarning": (W, "#warnings", "#@warning look {n}", "look {n}", ""),
    "mredef": (W, "macro-redefined", "#define MM{n} 1\n#define @MM{n} 2", "'MM{n}' macro redefined", ""),
    "assign": (W, "parentheses", "int wa{n}(int pp) {{ if (pp @= 1) {{ return 1; }} return 0; }}",
               "using the result of an assignment as a condition without parentheses", ""),
    "unused": (W, "unused-comparison", "void wu{n}(int pp) {{ pp @== 2; }}", "equality comparison result unused", ""),
    "macrowarn": (W, "parentheses", "void wm{n}(int pp) {{ @CMPM(pp); }}",
                  "using the result of an assignment as a condition without parentheses", ""),
}
GROUPS = ["#warnings", "macro-redefined", "parentheses", "unused-comparison"]
PRE = "#define BADM(x) ((x) + qzqzqzqz)\n#define GOODM(x) ((x) + 1)\n#define CMPM(x) if (x = 3) x = 4\n"

ONLYC = {"c": [k for k, t in T.items() if t[4] in ("", "c")], "cpp": [k for k, t in T.items() if t[4] in ("", "cpp")]}
# most templates warn or hold a violation, so that not every source is broken
item = st.one_of(st.tuples(st.just("viol"), st.integers(0, 2)).map(list),
                 st.tuples(st.just("diag"), st.sampled_from(sorted(T))).map(list),
                 st.tuples(st.just("diag"), st.sampled_from(sorted(k for k in T if T[k][0] == W))).map(list),
                 st.tuples(st.just("blank"), st.integers(1, 3)).map(list),
                 st.tuples(st.just("hdr"), st.integers(0, 3)).map(list))
source = st.fixed_dictionaries({"lang": st.sampled_from(["c", "cpp"]), "items": st.lists(item, max_size=7),
                                "flags": st.lists(st.sampled_from(["-w", "-Werror"] + ["-Wno-" + g for g in GROUPS] + ["-Werror=" + g for g in GROUPS] +
                                                                  ["-Wno-error=" + g for g in GROUPS]), max_size=2, unique=True)})
header = st.fixed_dictionaries({"items": st.lists(st.tuples(st.just("diag"), st.sampled_from(sorted(k for k in ONLYC["c"] if k in ONLYC["cpp"]))).map(list),
                                                  max_size=3), "sys": st.booleans()})


class Text:
    """Lines written so far and the diagnostics they give."""

    def __init__(self, path, first=1):
        self.path, self.lines, self.diags, self.viol = path, [], [], []

    def diag(self, kind, n):
        level, group, text, msg, _ = T[kind]
        for l in text.format(n=n).split("\n"):
            if "@" in l:
                self.diags.append((level, group, len(self.lines) + 1, l.index("@") + 1, msg.format(n=n)))
            self.lines.append(l.replace("@", ""))
        # a directive must not be read before the diagnostic is given
        self.lines.append(f"extern int pad{n};")

    def violation(self, shape, n):
        t = [f"int vi{n}(int pp) {{ if (pp) @{{ }} return 1; }}", f"int vi{n}(int pp) {{ if (pp + 1) @{{ /* x */ }} return 2; }}",
             f"void vi{n}(int pp) {{ while (pp) {{ if (pp) @{{}} pp = 0; }} }}"][shape]
        self.viol.append((len(self.lines) + 1, t.index("@") + 1))
        self.lines.append(t.replace("@", ""))

    def text(self):
        return "\n".join(self.lines) + "\n"


class Diagnostics(Sub):
    name = "diagnostics"
    quick, thorough = 900, 6000

    def strategy(self):
        return st.fixed_dictionaries({"src": st.lists(source, min_size=1, max_size=4), "hdr": st.lists(header, min_size=4, max_size=4),
                                      "global": st.booleans(), "dup": st.booleans(), "guard": st.booleans()})

    def test(self, ctx, case):
        i = ctx.inst(rules=LOADED)
        d = tempfile.mkdtemp(prefix="c", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            return self.run(ctx, i, case, d)
        finally:
            shutil.rmtree(d)

    def run(self, ctx, i, case, d):
        os.makedirs(os.path.join(d, "sys"))
        hdrs = []
        for k, h in enumerate(case["hdr"]):
            p = os.path.join(d, "sys" if h["sys"] else ".", f"hdr{k}.h")
            t = Text(p)
            if case["guard"]:
                t.lines.append("#pragma once")
            for j, (_, kind) in enumerate(h["items"]):
                t.diag(kind, f"h{k}x{j}")
            write(p, t.text())
            hdrs.append((t, h["sys"]))
        db, asked, want, files, nviol = [], [], {"error": [], "warning": []}, 0, []
        failed = 0
        for k, s in enumerate(case["src"]):
            p = os.path.join(d, f"src{k}." + s["lang"])
            t = Text(p)
            t.lines += PRE.rstrip().split("\n")
            diags, inc = [], set()
            for j, (what, x) in enumerate(s["items"]):
                at = len(t.diags)
                if what == "viol":
                    t.violation(x, j)
                elif what == "blank":
                    t.lines += [""] * x
                elif what == "diag":
                    kind = x if x in ONLYC[s["lang"]] else "expr"
                    t.diag(kind, j)
                elif x not in inc:
                    # a header is included once at most: its templates define names
                    inc.add(x)
                    t.lines.append(f'#include "hdr{x}.h"' if not hdrs[x][1] else f"#include <hdr{x}.h>")
                    h = hdrs[x][0]
                    diags += [(h.path, hdrs[x][1], dd) for dd in h.diags]
                diags += [(p, False, dd) for dd in t.diags[at:]]
            write(p, t.text())
            fl = s["flags"]
            db.append({"directory": d, "file": p, "arguments": ["cc", "-std=c11" if s["lang"] == "c" else "-std=c++17", "-isystem", os.path.join(d, "sys"), *fl, p]})
            asked.append(p)
            bad = dead = False
            for path, sys_, (level, group, line, col, msg) in diags:
                if dead:
                    break
                lv = level
                if level == W:
                    if sys_ and group != "#warnings":
                        continue
                    lv = self.warning_level(group, fl)
                    if lv is None:
                        continue
                if lv == "fatal":
                    dead, lv = True, E
                if path != p and not sys_ and "/./" not in path:
                    raise AssertionError(path)
                bad |= lv == E
                want[lv].append((os.path.normpath(path), line, col, msg))
            if bad:
                failed += 1
            else:
                files += 1
                nviol += [(p, *v) for v in t.viol]
        opts = ["-report-type", "verif", "-max-priority-1", "1000", "-max-priority-2", "1000"]
        opts += ["-enable-global-analysis"] if case["global"] else []
        opts += ["-allow-duplicated-violations"] if case["dup"] else []
        write(os.path.join(d, "compile_commands.json"), json.dumps(db))
        r = oclint(ctx, i, opts + ["-p", d] + asked, cwd=d)
        texts = "\n".join(open(a).read() for a in asked) + json.dumps(db) + repr(case["hdr"])
        rep = need_report(r, texts)
        if not case["dup"]:
            want = {k: list(dict.fromkeys(v)) for k, v in want.items()}
        for k, got in (("error", rep.errors), ("warning", rep.warnings)):
            eq([(os.path.normpath(v.path), v.sl, v.sc, v.msg) for v in got], want[k], f"{k}s listed for\n{texts}")
            if any((v.el, v.ec, v.rule) != (0, 0, "") for v in got):
                raise Fail(f"{k} with an end or a rule: {got}")
        eq([(v.path, v.sl, v.sc) for v in rep.violations], nviol, f"violations for\n{texts}")
        eq((rep.files, rep.nerr, rep.nwarn), (files, len(want["error"]), len(want["warning"])), f"counts for\n{texts}")
        eq(r.rc, 6 if want["error"] else 0, f"exit status for\n{texts}")
        both = bool(want["error"] or want["warning"]) and bool(nviol)
        return ["both" if both else "", "isolated" if failed and files else "", "header" if any("hdr" in x[0] for v in want.values() for x in v) else "",
                "promoted" if any(f.startswith("-Werror") for s in case["src"] for f in s["flags"]) and want["error"] else "",
                "fatal" if any("not found" in x[3] for x in want["error"]) else ""]

    @staticmethod
    def warning_level(group, fl):
        """Level of a default-on warning of the group under the flags, None when it is off."""
        if "-w" in fl:
            return None
        on, err = True, "-Werror" in fl
        for f in fl:
            if f == "-Wno-" + group:
                on = False
            elif f == "-Werror=" + group:
                on = err = True
            elif f == "-Wno-error=" + group:
                err = False
        return (E if err else W) if on else None


def subs(tier):
    return [Diagnostics()]
