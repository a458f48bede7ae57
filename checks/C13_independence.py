"""C13: what is reported for a source does not depend on the other sources, their order or global analysis."""
import json, os, shutil, tempfile
from hypothesis import strategies as st
from util import *

NEEDS = dict(rules=None, reporters=[])
RULE = ("runs over two to five compile commands (several per file, equal relative names in different directories, broken sources; C, C++ and "
        "ObjC; sources from a corpus of snippets plus generated functions, //!OCLINT comments and annotations under macros), compared "
        "with the concatenation of one-command runs, with and without global analysis and de-duplication (non-trivial: two commands report)")
SN = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "corpus", "snippets.json")))
BY = {l: [k for k, s in enumerate(SN) if s["lang"] == l] for l in ("c", "cpp", "m")}
EXT = {"c": ".c", "cpp": ".cpp", "m": ".m"}

BODIES = ["if (p1) {{ }} return 1;", "int vv_{n}; return 1;", "if (p1) {{ return 1; }} else {{ return 2; }}", "p1 = 3; return p1;",
          "/* {pad} */ return 0;", "for (;p1;) {{ p1 = 0; }} return p1;", "while (p1) {{ p1 = 0; break; }} return 3;",
          "switch (p1) {{ case 1: p1 = 2; }} return p1;", "{{ goto a_{n}; }} a_{n}: return 2;", "return (p1);", "if (p1) if (p1 > 3) p1 = 2; return p1;"]
ANN = '__attribute__((annotate("oclint:suppress"))) '

fn = st.fixed_dictionaries({"b": st.integers(0, len(BODIES) - 1), "ann": st.sampled_from(["", "", "", "always", "ifA", "rule"]),
                            "com": st.sampled_from(["", "", "", "yes", "ifA"]), "cond": st.sampled_from(["", "", "A", "B", "!A"]),
                            "split": st.booleans()})
unit = st.fixed_dictionaries({"lang": st.sampled_from(["c", "c", "cpp", "m"]), "sn": st.integers(0, 10000), "with_sn": st.booleans(),
                              "fns": st.lists(fn, max_size=4), "broken": st.sampled_from(["", "", "", "", "", "A", "always"]),
                              "warn": st.booleans()})
command = st.fixed_dictionaries({"u": st.integers(0, 4), "A": st.booleans(), "B": st.booleans()})


def source(u, k):
    out = []
    if u["with_sn"]:
        ks = BY[u["lang"]]
        out.append(SN[ks[u["sn"] % len(ks)]]["code"])
    for j, f in enumerate(u["fns"]):
        n = f"{j}"
        body = BODIES[f["b"]].format(n=n, pad="x" * 120)
        com = {"": "", "yes": " //!OCLINT", "ifA": ""}[f["com"]]
        ann = {"": "", "always": ANN, "ifA": "SUPP ", "rule": ANN.replace("suppress", "suppress[empty if statement]")}[f["ann"]]
        sep = "\n" if f["split"] else " "
        text = f"{ann}int fq_{n}(int p1) {{{sep}{body}{com}{sep if com == '' else chr(10)}}}"
        if f["com"] == "ifA":
            # the same line is suppressed under A only
            text = "#ifdef A\n" + text.split("\n")[0] + " //!OCLINT\n" + "\n".join(text.split("\n")[1:]) + "\n#else\n" + text + "\n#endif"
        if f["cond"]:
            c = {"A": "defined(A)", "B": "defined(B)", "!A": "!defined(A)"}[f["cond"]]
            text = f"#if {c}\n{text}\n#endif"
        out.append(text)
    pre = f"#ifdef A\n#define SUPP {ANN}\n#else\n#define SUPP\n#endif\n"
    if u["warn"]:
        out.append("#warning look here")
    if u["broken"]:
        out.append({"A": "#ifdef A\nint broken = ;\n#endif", "always": "int broken = ;"}[u["broken"]])
    return pre + "\n".join(out) + "\n"


class Independence(Sub):
    name = "independence"
    quick, thorough = 130, 2500

    def strategy(self):
        return st.fixed_dictionaries({"units": st.lists(unit, min_size=1, max_size=4), "cmds": st.lists(command, min_size=2, max_size=5),
                                      "same": st.booleans(), "dup": st.booleans(), "order": st.permutations(list(range(5))).map(list)})

    def test(self, ctx, case):
        i = ctx.inst()
        d = tempfile.mkdtemp(prefix="c", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            return self.run(ctx, i, case, d)
        finally:
            shutil.rmtree(d)

    def run(self, ctx, i, case, d):
        units = case["units"]
        paths = []
        for k, u in enumerate(units):
            os.makedirs(os.path.join(d, f"d{k}"))
            n = ("s" if case["same"] else f"s{k}") + EXT[u["lang"]]
            paths.append(write(os.path.join(d, f"d{k}", n), source(u, k)))
        seq = []
        for c in case["cmds"]:
            k = c["u"] % len(units)
            rel = case["same"] or c["u"] >= len(units)
            cwd = os.path.join(d, f"d{k}")
            src = os.path.basename(paths[k]) if rel else paths[k]
            argv = ["clang"] + ["-D" + x for x in "AB" if c[x]] + ["-c", src]
            e = {"directory": cwd, "file": paths[k], "arguments": argv}
            seq.append((k, e))
        opts = ["-report-type", "verif"] + (["-allow-duplicated-violations"] if case["dup"] else [])
        single = []
        for j, (k, e) in enumerate(seq):
            p = os.path.join(d, f"one{j}")
            os.makedirs(p)
            write(os.path.join(p, "compile_commands.json"), json.dumps([e]))
            r = oclint(ctx, i, opts + ["-p", p, paths[k]])
            single.append((r, need_report(r, f"one-command run of {e}\n{source(units[k], k)}")))
        asked = []
        for o in case["order"]:
            if o < len(units) and any(k == o for k, _ in seq):
                asked.append(o)
        write(os.path.join(d, "compile_commands.json"), json.dumps([e for _, e in seq]))
        want = {"violations": [], "errors": [], "warnings": []}
        nf = 0
        for o in asked:
            for j, (k, _) in enumerate(seq):
                if k == o:
                    for f in want:
                        want[f] += getattr(single[j][1], f)
                    nf += single[j][1].files
        if not case["dup"]:
            want = {f: list(dict.fromkeys(v)) for f, v in want.items()}
        texts = "\n".join(f"--- {paths[k]}\n{source(u, k)}" for k, u in enumerate(units)) + "\n" + json.dumps([e for _, e in seq])
        for g in ([], ["-enable-global-analysis"]):
            r = oclint(ctx, i, opts + g + ["-p", d] + [paths[o] for o in asked])
            rep = need_report(r, f"run {g} over\n{texts}")
            for f in want:
                if getattr(rep, f) != want[f]:
                    got = getattr(rep, f)
                    a = [x for x in got if x not in want[f]]
                    b = [x for x in want[f] if x not in got]
                    raise Fail(f"{f} of the run {g} over {asked}: {len(got)} listed, {len(want[f])} by one-command runs; only together {a}; "
                               f"only alone {b}\n{texts}")
            eq(rep.files, nf, f"number of files {g}\n{texts}")
        live = sum(1 for _, s in single if s.violations)
        return ["two-report" if live >= 2 else "", "several-per-file" if len({k for k, _ in seq}) < len(seq) and live else "",
                "same-name" if case["same"] and live >= 2 else "", "errors" if want["errors"] and live else "",
                "comments" if live and any(f["com"] == "ifA" for u in units for f in u["fns"]) else ""]


def subs(tier):
    return [Independence()]
