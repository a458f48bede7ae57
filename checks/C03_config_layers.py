"""C03: settings come from etc, home, working directory and command line, later ones winning."""
import os, re, shutil, tempfile
from hypothesis import strategies as st
from util import *

LOADED = ["ShortVariableNameRule", "LongLineRule", "TooManyParametersRule", "LongVariableNameRule", "EmptyIfStatementRule"]
NEEDS = dict(rules=LOADED, reporters=["JSONReporter", "TextReporter", "PMDReporter"])
RULE = ("for each of the three configuration files nothing or a mapping with any subset of the documented keys, rendered as YAML "
        "in block or flow form with plain, single- or double-quoted (escaped) scalars, plus command line options; the resolved "
        "settings are read off the run (rules that report, thresholds in messages, report format, output file, exit status, "
        "duplicates, analysis order) and compared with a layering model (non-trivial: a key set in two layers, or a quoted scalar "
        "with escapes)")
RULES = {"ShortVariableName": ("short variable name", 3), "LongLine": ("long line", 3),
         "TooManyParameters": ("too many parameters", 3), "LongVariableName": ("long variable name", 3),
         "EmptyIfStatement": ("empty if statement", 2)}
DIRS = {"A": ["LongLineRule", "TooManyParametersRule"], "B": ["ShortVariableNameRule", "LongVariableNameRule"],
        "C dir": ["EmptyIfStatementRule", "LongLineRule"], "none": [], "empty": []}
KEYS = ["LONG_LINE", "TOO_MANY_PARAMETERS", "SHORT_VARIABLE_NAME", "LONG_VARIABLE_NAME", "UNUSED KEY"]
SRC = """int afunction(int a, int bb, int ccc) { if (a) { } return bb + ccc; } /* 90 columns or so of text ...... */
int bfunction(int dddddddddddddddd, int eeeeeeeeeeeeeeeeeeeeeeeeeeeee) { return dddddddddddddddd; }
"""

rule = st.sampled_from(list(RULES) + ["NoSuchRule", "not: a # rule", "it's \"quoted\""])
val = st.integers(0, 110).map(str) | st.sampled_from(["2", "3", "0", "20", "10", " 12", "007", "12abc"])
style = st.integers(0, 2)
scal = lambda s: st.tuples(s, style).map(list)
layer = st.fixed_dictionaries({}, optional={
    "rules": st.lists(scal(rule), max_size=3),
    "disable-rules": st.lists(scal(rule), max_size=3),
    "rule-paths": st.lists(scal(st.sampled_from(list(DIRS))), max_size=2),
    "rule-configurations": st.lists(st.tuples(scal(st.sampled_from(KEYS)), scal(val)).map(list), max_size=3),
    "output": scal(st.sampled_from(["-", "out.txt", "sub dir/o u t.txt", "ABS/x.out"])),
    "report-type": scal(st.sampled_from(["verif", "verif", "verif", "json", "text", "pmd"])),
    "max-priority-1": st.integers(-1, 6), "max-priority-2": st.integers(-1, 6), "max-priority-3": st.integers(-1, 6),
    "enable-clang-static-analyzer": st.booleans(),
    "allow-duplicated-violations": st.booleans(),
    "enable-global-analysis": st.booleans()})


def scalar(s, how):
    if how == 0:
        ok = s and s == s.strip() and not any(c in s for c in ":#'\"[]{},&*!|>%@`") and not s[0] in "-?"
        if ok:
            return s
        how = 1
    if how == 1:
        return "'" + s.replace("'", "''") + "'"
    out = []
    for k, c in enumerate(s):
        if c in '"\\':
            out.append("\\" + c)
        elif k % 2 == 1:
            out.append("\\x%02x" % ord(c))
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def render(cfg, flow, sub):
    lines = []
    b = lambda x: "true" if x else "false"
    for k, v in cfg.items():
        if k in ("rules", "disable-rules", "rule-paths"):
            xs = [scalar(sub(k, x[0]), x[1]) for x in v]
            if flow or not xs:
                lines.append(f"{k}: [{', '.join(xs)}]")
            else:
                lines.append(f"{k}:")
                lines += [f"  - {x}" for x in xs]
        elif k == "rule-configurations":
            xs = [(scalar(a[0], a[1]), scalar(c[0], c[1])) for a, c in v]
            if flow or not xs:
                lines.append(f"{k}: [" + ", ".join(f"{{key: {a}, value: {c}}}" for a, c in xs) + "]")
            else:
                lines.append(f"{k}:")
                for a, c in xs:
                    lines += [f"  - key: {a}", f"    value: {c}   # comment"]
        elif isinstance(v, list):
            lines.append(f"{k}: {scalar(sub(k, v[0]), v[1])}")
        elif isinstance(v, bool):
            lines.append(f"{k}: {b(v)}")
        else:
            lines.append(f"{k}: {v}")
    return "\n".join(lines) + "\n"


def atoi(s):
    s = s.lstrip(" \t\n")
    sign, n, k = 1, 0, 0
    if s[:1] in ("-", "+"):
        sign = -1 if s[0] == "-" else 1
        k = 1
    while k < len(s) and s[k].isdigit():
        n = n * 10 + int(s[k])
        k += 1
    return sign * n


SRC_B = "int *zzz(void) { return (int *)0 + 1; }\nint deref(void) { int *ppp = 0; return *ppp; }\n"


def expected(conf, enabled, src, funcs, names, empty):
    """Violations (rule, message) of a source."""
    t = lambda k, d: atoi(conf[k]) if k in conf else d
    out = []
    if "LongLine" in enabled:
        th = t("LONG_LINE", 100)
        for line in src.splitlines():
            if len(line) > th:
                out.append(("long line", f"Line with {len(line)} characters exceeds limit of {th}"))
    if "TooManyParameters" in enabled:
        th = t("TOO_MANY_PARAMETERS", 10)
        for n in funcs:
            if n > th:
                out.append(("too many parameters", f"Method with {n} parameters exceeds limit of {th}"))
    if "ShortVariableName" in enabled:
        th = t("SHORT_VARIABLE_NAME", 3)
        for n in names:
            if len(n) < th:
                out.append(("short variable name", f"Length of variable name `{n}` is {len(n)}, which is shorter than the threshold of {th}"))
    if "LongVariableName" in enabled:
        th = t("LONG_VARIABLE_NAME", 20)
        for n in names:
            if len(n) > th:
                shown = n if len(n) <= th + 10 else n[:th + 3] + "..." + n[-3:]
                out.append(("long variable name", f"Length of variable name `{shown}` is {len(n)}, which is longer than the threshold of {th}"))
    if empty and "EmptyIfStatement" in enabled:
        out.append(("empty if statement", ""))
    return out


class Layers(Sub):
    name = "layers"
    quick, thorough = 220, 4000

    def strategy(self):
        cli = st.fixed_dictionaries({}, optional={
            "rules": st.lists(rule, max_size=2), "disable-rules": st.lists(rule, max_size=2),
            "rule-paths": st.lists(st.sampled_from(list(DIRS)), max_size=2),
            "rule-configurations": st.lists(st.tuples(st.sampled_from(KEYS), val).map(list), max_size=2),
            "output": st.sampled_from(["-", "cli.out", "ABS/cli.out"]),
            "report-type": st.sampled_from(["verif", "verif", "verif", "json", "text"]),
            "max-priority-1": st.integers(-1, 6), "max-priority-2": st.integers(-1, 6), "max-priority-3": st.integers(-1, 6),
            "enable-clang-static-analyzer": st.booleans(),
            "allow-duplicated-violations": st.booleans(), "enable-global-analysis": st.booleans()})
        return st.fixed_dictionaries({
            "etc": st.none() | layer, "home": st.none() | layer, "cwd": st.none() | layer, "cli": cli,
            "flow": st.booleans(), "deep": st.sampled_from([0, 0, 0, 1, 2]), "nohome": st.booleans(), "extra": st.integers(0, 3), "order": st.permutations(range(12)).map(list)})

    def test(self, ctx, case):
        i = ctx.inst(rules=LOADED, reporters=("VerifReporter", "JSONReporter", "TextReporter", "PMDReporter"), preload=False)
        base = tempfile.mkdtemp(prefix="l", dir=i.dir)
        os.chmod(base, 0o777)
        try:
            return self.run(ctx, i, case, base)
        finally:
            shutil.rmtree(base)
            etc = i.path("inst", "etc", "oclint")
            if os.path.exists(etc):
                os.unlink(etc)

    def run(self, ctx, i, case, base):
        for d, rs in DIRS.items():
            if d != "none":
                os.makedirs(os.path.join(base, d))
                for r in rs:
                    os.symlink(i.prod["rules"][r], os.path.join(base, d, f"lib{r}.so"))
        cwd = os.path.join(base, "cwd", *(["d" * 140] * case["deep"] * 2))
        for d in ("home", os.path.join(cwd, "sub dir"), "abs"):
            os.makedirs(os.path.join(base, d))

        def sub(k, v):
            if k == "rule-paths":
                return os.path.join(base, v)
            return v.replace("ABS", os.path.join(base, "abs"))
        files = {"etc": i.path("inst", "etc", "oclint"), "home": os.path.join(base, "home", ".oclint"),
                 "cwd": os.path.join(cwd, ".oclint")}
        layers = []
        for k, p in files.items():
            c = case[k]
            if c is None:
                continue
            keys = sorted(c)
            keys = [keys[o % len(keys)] for o in case["order"]] if keys else []
            c = {x: c[x] for x in dict.fromkeys(keys)} | c
            text = render(c, case["flow"], sub)
            if not c:
                text = ["", " \n\t\n", "\n", "   "][case["extra"]]
            write(p, text)
            if k == "home" and case["nohome"]:
                continue
            layers.append({x: self.plain(x, y, sub) for x, y in c.items()})
        cli = {k: ([sub(k, x) for x in v] if k == "rule-paths" else sub(k, v) if k == "output" else v) for k, v in case["cli"].items()}
        s1, s2 = write(os.path.join(base, "a.c"), SRC), write(os.path.join(base, "b.c"), SRC_B)
        args = []
        for k, v in cli.items():
            if k == "rules":
                args += [x for r in v for x in ("-rule", r)]
            elif k == "disable-rules":
                args += [x for r in v for x in ("-disable-rule", r)]
            elif k == "rule-paths":
                args += [f"-R={r}" if case["extra"] % 2 else f"-R{r}" for r in v] if False else [x for r in v for x in ("-R", r)]
            elif k == "rule-configurations":
                args += [x for a, c in v for x in ("-rc", f"{a}={c}")]
            elif k == "output":
                args += ["-o", v]
            elif isinstance(v, bool):
                args += [f"-{k}={'true' if v else 'false'}"] if not (v and case["extra"] % 2) else [f"-{k}"]
            else:
                args += [f"-{k}={v}"]
        # ---- the model
        last = lambda k, d: cli[k] if k in cli else next((y[k] for y in reversed(layers) if k in y and y[k] != ""), d)
        conf = {}
        for y in layers + [cli]:
            for a, c in y.get("rule-configurations", []):
                conf[a] = c
        en, dis = set(), set()
        for y in layers + [cli]:
            for n in y.get("rules", []):
                en.add(n); dis.discard(n)
            for n in y.get("disable-rules", []):
                dis.add(n); en.discard(n)
        rpaths = list(cli.get("rule-paths", []))
        for y in layers:
            rpaths += y.get("rule-paths", [])
        if rpaths:
            loaded = {r[:-4] for p in rpaths for r in DIRS[os.path.basename(p)]}
        else:
            loaded = {r[:-4] for r in LOADED}
        enabled = {r for r in loaded if (not en or r in en) and r not in dis}
        rtype, out = last("report-type", "text"), last("output", "-")
        maxes = [last(f"max-priority-{k}", d) for k, d in ((1, 0), (2, 10), (3, 20))]
        dup, glob, ana = (last(k, False) for k in ("allow-duplicated-violations", "enable-global-analysis", "enable-clang-static-analyzer"))
        # ---- the run
        env = {"HOME": None if case["nohome"] else os.path.join(base, "home")}
        r = oclint(ctx, i, ["-verbose", *args, s1, s2, s1, "--", "-w"], cwd=cwd, env=env)
        if r.sig:
            raise Fail("killed: " + r.text())
        if not loaded:
            eq(r.rc, 1, f"exit status when no rule is loaded\n{r.text()}")
            return ["norules"]
        outfile = None
        if out != "-":
            outfile = out if out.startswith("/") else os.path.join(cwd, out)
        data = r.out
        if outfile:
            if not os.path.exists(outfile):
                raise Fail(f"output file {outfile} was not written\n{r.text()}")
            data = open(outfile, "rb").read()
            if b"@VERIF@" in r.out or b'"summary"' in r.out or b"Summary:" in r.out or b"<pmd" in r.out:
                raise Fail("a report went to standard output as well\n" + r.text())
        else:
            left = [f for d, _, fs in os.walk(cwd) for f in fs if f != ".oclint"] + os.listdir(os.path.join(base, "abs"))
            eq(left, [], "files written though the output is standard output")
        mark = {"verif": b"@VERIF@", "json": b'"summary"', "text": b"Summary:", "pmd": b"<pmd"}
        for k, m in mark.items():
            eq(m in data, k == rtype, f"report of type {k} present (expected type {rtype})\n{r.text()}")
        want = expected(conf, enabled, SRC, (3, 2), ["a", "bb", "ccc", "d" * 16, "e" * 29], True)
        want_b = expected(conf, enabled, SRC_B, (0, 0), ["ppp"], False)
        total = (want * 2 if dup else want) + want_b
        counts = [sum(1 for v in total if RULES_PRI[v[0]] == p) for p in (1, 2, 3)]
        eq(r.rc, 5 if any(c > m for c, m in zip(counts, maxes)) else 0, f"exit status with counts {counts} and limits {maxes}\n{r.text()}")
        if rtype == "verif":
            from oc import Report
            rep = Report(data)
            diff_multiset([(v.rule, v.msg) for v in rep.violations], total, f"violations with rules {sorted(enabled)} and {conf}")
            eq([rep.p1, rep.p2, rep.p3], counts, "counts by priority")
            if ana:
                if not any("ull pointer" in v.msg for v in rep.bugs):
                    raise Fail(f"static analyzer enabled but its finding is missing: {rep.bugs}")
            else:
                eq(rep.bugs, [], "checker bugs with the analyzer disabled")
        # -verbose traces: with global analysis everything is compiled first
        seq = re.findall(rb"Compiling|Analyzing", r.out)
        eq(seq, [b"Compiling"] * 3 + [b"Analyzing"] * 3 if glob else [b"Compiling", b"Analyzing"] * 3,
           f"order of compiling and analyzing (global analysis {glob})")
        keys = [k for y in layers + [cli] for k in y]
        return ["override" if len(keys) != len(set(keys)) else "",
                "escaped" if any(isinstance(v, list) and '"' in str(v) for v in [case]) or '", 2]' in str(case) else "",
                "file" if layers else "", "analyzer" if ana else "", "global" if glob else "", "dup" if dup else ""]

    @staticmethod
    def plain(k, v, sub):
        if k in ("rules", "disable-rules", "rule-paths"):
            return [sub(k, x[0]) for x in v]
        if k == "rule-configurations":
            return [(a[0], c[0]) for a, c in v]
        if isinstance(v, list):
            return sub(k, v[0])
        return v


RULES_PRI = {n: p for n, p in RULES.values()}


def subs(tier):
    return [Layers()]
