"""C27: //!OCLINT comments."""
from anyprog import *

NEEDS = dict(rules=None, reporters=[])
RULE = ("generated declarations and statements in C, C++ and Objective-C and the snippets of a corpus, analyzed by all rules; comments of equal length are put at the ends of "
        "some lines, and with //!OCLINT in them exactly the violations that start on these lines must disappear (non-trivial: some disappear and some stay)")
REAL = ["//!OCLINT", "//!OCLINT(reason)", "//!OCLINT: why not", "//!OCLINT   ", "/**/ //!OCLINT", "/* a */ /* b */ //!OCLINT", "//!OCLINT //!OCLINT", "//!< doc //!OCLINT", "/// doc //!OCLINT", "/*!< a //!OCLINT */",
        "/** b //!OCLINT c */", "///< c //!OCLINT"]
FAKE = ["//-OCLINT", "//!OCLIN", "// !OCLINT", "/* !OCLINT */", "//! OCL INT", "/*! see OCLINT */", "//! doc", "/// doc", "//!< doc", "/** doc */"]


class Comments(Sub):
    name = "comments"
    quick, thorough = 350, 6000

    def strategy(self):
        return any_strategy(marks=st.lists(st.tuples(st.integers(0, 400), st.integers(0, 40)), max_size=8), string=st.integers(0, 5))

    def test(self, ctx, case):
        src, flags = text(case)
        if case["string"] == 0:
            src += 'const char *zzstr1 = "//!OCLINT"; int zz1; const char zz2 = \'"\'; int zz3;\n'
        lines, ends = src.split("\n"), code_ends(src)
        ok = [k for k, e in enumerate(ends) if e]
        put = {}
        if not ok:
            raise Discard()
        for where, what in case["marks"]:
            put.setdefault(ok[where % len(ok)], what)

        def build(real):
            out = []
            for k, l in enumerate(lines):
                if k in put:
                    w = put[k]
                    c = REAL[w // 2 % len(REAL)] if w % 2 else FAKE[w // 2 % len(FAKE)]
                    if not real:
                        c = c.replace("!OCLINT", "-OCLINT")
                    cr = l.endswith("\r")
                    l = l.rstrip("\r") + " " + c + ("\r" if cr else "")
                out.append(l)
            return "\n".join(out)
        i = ctx.inst()
        args = lowargs(case["low"])
        plain, marked = build(False), build(True)
        a = run_text(ctx, i, case["lang"], plain, flags, args)
        compiles(a, plain, case)
        b = run_text(ctx, i, case["lang"], marked, flags, args)
        quiet = {k + 1 for k, w in put.items() if w % 2}
        key = lambda v: (v.rule, v.msg, v.sl, v.sc, v.el, v.ec)
        want = [key(v) for v in a.violations if v.sl not in quiet]
        diff_multiset([key(v) for v in b.violations], want, f"with {[c for c in REAL]} on lines {sorted(quiet)}\n{marked}\n")
        n = len(a.violations) - len(want)
        return ["suppressed" if n else "", "several rules" if len({v.rule for v in a.violations if v.sl in quiet}) > 1 else "",
                "decoy" if any(w % 2 == 0 and any(v.sl == k + 1 for v in a.violations) for k, w in put.items()) else "", case["kind"] if n and want else "",
                "spans" if any(v.sl not in quiet and set(range(v.sl, v.el + 1)) & quiet for v in a.violations) else ""]


def subs(tier):
    return [Comments()]
