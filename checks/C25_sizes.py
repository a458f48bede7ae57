"""C25: long lines, methods and classes; many fields, methods and parameters."""
from metrics import *
from decls import *

FILES = ["LongMethodRule", "LongClassRule", "TooManyFieldsRule", "TooManyMethodsRule", "TooManyParametersRule"]
NEEDS = dict(rules=FILES + ["LongLineRule"], reporters=[])
RULE = ("generated C, C++ and Objective-C declarations of all kinds in generated layouts; the complete list of violations, with numbers and positions, against "
        "counts recorded while the text was written (non-trivial: something is reported or a number is the limit)")


class Sizes(Sub):
    name = "declarations"
    quick, thorough = 500, 9000

    def strategy(self):
        return program_strategy(["c", "cpp", "m", "mm"], t=st.lists(st.integers(0, 40), min_size=5, max_size=5))

    def test(self, ctx, case):
        P = Decls(Src(bytes.fromhex(case["b"])), case["lang"]).P
        P.finish(Src(bytes.fromhex(case["lay"])), case["style"])
        prelude = DPRELUDE[P.lang]
        P.base = prelude.count("\n")
        vals = []         # rule, key index, value, message, b, e
        lines = lambda b, e: P.at(e)[0] - P.at(b)[0] + 1
        for f in P.fns:
            if not f.incls:
                vals.append(("long method", 0, lines(f.bb, f.e), "Method with {n} lines exceeds limit of {t}", f))
            vals.append(("too many parameters", 1, f.n, "Method with {n} parameters exceeds limit of {t}", f))
        for c in P.classes:
            vals.append(("long class", 2, lines(c.b, c.e), c.kind + " with {n} lines exceeds limit of {t}", c))
            if c.kind in ("C++ class", "Objective-C interface"):
                vals.append(("too many fields", 3, c.nf, c.kind + " with {n} fields exceeds limit of {t}", c))
            if c.kind in ("C++ class", "Objective-C implementation"):
                vals.append(("too many methods", 4, c.nm, c.kind + " with {n} methods exceeds limit of {t}", c))
        keys = ["LONG_METHOD", "TOO_MANY_PARAMETERS", "LONG_CLASS", "TOO_MANY_FIELDS", "TOO_MANY_METHODS"]
        lim, args = [50, 10, 1000, 20, 30], []
        for k, t in enumerate(case["t"]):
            have = sorted({v[2] for v in vals if v[1] == k}) or [1]
            if t % 4 == 3:
                continue
            lim[k] = max(0, have[t // 4 % len(have)] - t % 2) if t % 4 else t // 4
            args += ["-rc", f"{keys[k]}={lim[k]}"]
        want = {(r, m.format(n=n, t=lim[k]), P.base + P.at(x.b)[0], P.at(x.b)[1], P.base + P.at(x.e)[0], P.at(x.e)[1] + (getattr(x, "kind", "")[:11] == "Objective-C" and x.kind[12:] != "implementation" and x.e not in P.body)) for r, k, n, m, x in vals if n > lim[k]}
        rep, path, text = write_run(ctx, ctx.inst(rules=FILES), P, case, args, prelude=prelude)
        got = [(v.rule, v.msg, v.sl, v.sc, v.el, v.ec) for v in rep.violations if v.sl > P.base]
        diff_multiset(got, set(want), f"{P.lang} {args}\n{text}\n")
        return sorted({w[0] for w in want} | {"boundary " + v[0] for v in vals if v[2] == lim[v[1]]})


line = st.tuples(st.sampled_from(["c", "d", "b", "t", "u", "w", "m"]), st.one_of(st.integers(0, 30), st.integers(95, 106), st.integers(0, 400)))


class Lines(Sub):
    """Long line: bytes per line of the source, whatever the lines are part of; never lines of headers."""
    name = "lines"
    weight = 0.5
    quick, thorough = 500, 9000

    def strategy(self):
        return st.fixed_dictionaries({"lines": st.lists(line, max_size=12), "hdr": st.lists(line, max_size=3), "at": st.integers(0, 12), "nl": st.sampled_from(["", "\n", "\n\n", "\n\n\n"]),
                                      "crlf": st.integers(0, 3), "t": st.one_of(st.none(), st.integers(0, 120), st.just(-1)), "lang": st.sampled_from(["c", "cpp", "m", "mm"])})

    def lines(self, ls, tag):
        out, n = [], 0
        for k, m in ls:
            n += 1
            if k == "b":
                s = " " * m
            elif k == "t":
                s = "\t" * m
            elif k == "d":
                s = f"int {tag}{n}"
                s += " " * max(0, m - len(s) - 1) + ";"
            elif k == "u":
                s = "// " + "\u00e9\u4e2d"[n % 2] * (m // 2)
            elif k == "w":
                s = f"/* " + "x" * m + " */"
            elif k == "m":
                s = f"#define M{tag}{n} " + "1" * m
            else:
                s = "//" + "c" * m
            out.append(s)
        return out

    def test(self, ctx, case):
        ls = self.lines(case["lines"], "v")
        if case["hdr"]:
            ls.insert(case["at"] % (len(ls) + 1), '#include "h.h"')
        end = "\r\n" if case["crlf"] == 3 else "\n"
        text = end.join(ls) + case["nl"]
        i = ctx.inst(rules=["LongLineRule"])
        d = tempfile.mkdtemp(prefix="c", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            p = write(os.path.join(d, "s." + case["lang"]), text)
            write(os.path.join(d, "h.h"), "\n".join(self.lines(case["hdr"], "h")) + "\n")
            th = case["t"]
            args = [] if th is None else ["-rc", f"LONG_LINE={th}"]
            rep = need_report(oclint(ctx, i, ["-report-type", "verif"] + args + [p, "--", "-w"], cwd=d), text)
        finally:
            shutil.rmtree(d)
        lim = 100 if th is None else th
        want = []
        for k, l in enumerate(text.split("\n"), 1):
            n = len(l.encode())
            if n > lim and not (k == text.count("\n") + 1 and not l):
                want.append(("long line", f"Line with {n} characters exceeds limit of {lim}", p, k, 1, k, n))
        got = [(v.rule, v.msg, v.path, v.sl, v.sc, v.el, v.ec) for v in rep.violations]
        diff_multiset(got, want, f"limit {lim}\n{text[:3000]}\n")
        return [x for x in ["long" if want else "", "several" if len(want) > 1 else "", "boundary" if any(len(l.encode()) == lim for l in ls) else ""] if x]


def subs(tier):
    return [Sizes(), Lines()]
