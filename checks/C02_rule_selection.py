"""C02: which rules run."""
import re
from hypothesis import strategies as st
from util import *

LOADED = ["ShortVariableNameRule", "LongLineRule", "TooManyParametersRule", "EmptyIfStatementRule",
          "UnusedLocalVariableRule", "GotoStatementRule", "NPathComplexityRule", "BitwiseOperatorInConditionalRule"]
NEEDS = dict(rules=LOADED, reporters=[])
RULE = ("rule names from an alphabet of letters, digits, punctuation and spaces against a word-splitting model of identifiers; "
        "enable/disable histories with queries in between against a two-set model; command lines mixing -rule and "
        "-disable-rule against -list-enabled-rules and the rules that actually report (non-trivial: something is selected "
        "and something is left out)")

NAME = st.text(alphabet="abzABZ019 -_+&/.", max_size=14)
REAL = {"ShortVariableName": "short variable name", "LongLine": "long line", "TooManyParameters": "too many parameters",
        "EmptyIfStatement": "empty if statement", "UnusedLocalVariable": "unused local variable",
        "GotoStatement": "goto statement", "HighNPathComplexity": "high npath complexity",
        "BitwiseOperatorInConditional": "bitwise operator in conditional"}


def ident(name):
    return "".join(w[0].upper() + w[1:] for w in re.findall("[A-Za-z]+", name))


def select(loaded, ops):
    """ops: sequence of (True=enable, name); later calls override earlier ones."""
    en, dis = set(), set()
    for on, n in ops:
        (en if on else dis).add(n)
        (dis if on else en).discard(n)
    return [r for r in loaded if (not en or r in en) and r not in dis]


class Names(Sub):
    name = "names"
    quick, thorough = 1500, 15000

    def strategy(self):
        def ops(names):
            ids = [ident(n) for n in names] + ["NoSuchRule", ""]
            n = st.sampled_from(ids) | st.sampled_from(list(names) or ["x"])
            return st.lists(st.one_of(
                st.tuples(st.sampled_from(["enable", "disable"]), st.lists(n, max_size=3)).map(list),
                st.just(["query"])), max_size=10).map(lambda o: {"names": names, "ops": o})
        return st.lists(NAME, max_size=7).flatmap(ops)

    def test(self, ctx, case):
        items = [len(case["names"])]
        for n in case["names"]:
            items += [n, "c", 2]
        ops = case["ops"] + [["query"]]
        items.append(len(ops))
        for o in ops:
            items.append(o[0])
            if o[0] != "query":
                items += [len(o[1]), *o[1]]
        r = api_reader(ctx, "@names", items)
        ids = [r.str() for _ in case["names"]]
        eq(ids, [ident(n) for n in case["names"]], "identifiers")
        hist, some = [], False
        for o in ops:
            if o[0] == "query":
                got = [r.str() for _ in range(r.num())]
                idx = [r.num() for _ in range(r.num())]
                want = select(ids, hist)
                eq(got, want, f"selected after {hist}")
                eq([ids[k] for k in idx], want, "rule objects selected")
                eq(idx, sorted(set(idx)), "order of the rule objects")
                some |= 0 < len(want) < len(ids)
            else:
                hist += [(o[0] == "enable", n) for n in o[1]]
        return ["partial" if some else "", "multiword" if any(" " in n.strip() for n in case["names"]) else ""]


SRC = """int short_names(int a, int q1, int a1, int a2, int a3, int a4, int a5, int a6, int a7, int a8, int a9) {
int x = 1; int unused; if (x) { } if (a & 1) goto end;
%s
%s
end: return 0; }
""" % ("if (a) a = 1; " * 9, "/* " + "long " * 30 + "*/")


class Cli(Sub):
    name = "cli"
    quick, thorough = 300, 3000

    def strategy(self):
        n = st.sampled_from(list(REAL) + ["NoSuchRule", "long line", "longline", "LongLine "])
        return st.lists(st.tuples(st.booleans(), n).map(list), max_size=7)

    def test(self, ctx, case):
        i = ctx.inst(rules=LOADED)
        s = write(i.path("w", "s.c"), SRC)
        args = []
        for on, n in case:
            args += ["-rule" if on else "-disable-rule", n]
        r = oclint(ctx, i, ["-list-enabled-rules", "-report-type", "verif", *args, s, "--", "-w"])
        rep = need_report(r)
        # every -rule is read before every -disable-rule
        want = set(select(list(REAL), [c for c in case if c[0]] + [c for c in case if not c[0]]))
        lines = r.out.split(b"@VERIF@")[0].decode().splitlines()
        eq(lines[:1], ["Enabled rules:"], "listing header")
        got = [x[2:] for x in lines[1:] if x.startswith("- ")]
        eq(sorted(got), sorted(want), "rules listed as enabled")
        eq(sorted({v.rule for v in rep.violations}), sorted(REAL[w] for w in want), "rules that reported")
        return ["partial" if 0 < len(want) < len(REAL) else ""]


def subs(tier):
    return [Names(), Cli()]
