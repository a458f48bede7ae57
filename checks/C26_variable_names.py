"""C26: long and short variable names."""
from metrics import *
from decls import *

FILES = ["LongVariableNameRule", "ShortVariableNameRule"]
NEEDS = dict(rules=FILES, reporters=[])
RULE = ("generated C, C++ and Objective-C declarations of all kinds with names of many lengths in generated layouts; the complete list of violations, with messages "
        "and positions, against the variables recorded while the text was written (non-trivial: something is reported or exempt)")


class Names(Sub):
    name = "names"
    quick, thorough = 700, 12000

    def strategy(self):
        return program_strategy(["c", "cpp", "m", "mm"], lo=st.one_of(st.none(), st.integers(0, 8)), hi=st.one_of(st.none(), st.integers(0, 35)))

    def test(self, ctx, case):
        P = Decls(Src(bytes.fromhex(case["b"])), case["lang"]).P
        P.finish(Src(bytes.fromhex(case["lay"])), case["style"])
        prelude = DPRELUDE[P.lang]
        P.base = prelude.count("\n")
        lo, hi, args = case["lo"], case["hi"], []
        if lo is not None:
            args += ["-rc", f"SHORT_VARIABLE_NAME={lo}"]
        if hi is not None:
            args += ["-rc", f"LONG_VARIABLE_NAME={hi}"]
        lo, hi = 3 if lo is None else lo, 20 if hi is None else hi
        want, exempt = [], False
        for v in P.vars:
            n = len(v.name)
            at = (P.base + P.at(v.b)[0], P.at(v.b)[1], P.base + P.at(v.e)[0], P.at(v.e)[1])
            if n < lo:
                if v.exempt:
                    exempt = True
                else:
                    want.append(("short variable name", f"Length of variable name `{v.name}` is {n}, which is shorter than the threshold of {lo}") + at)
            if n > hi:
                shown = v.name if n <= hi + 10 else v.name[:hi + 3] + "..." + v.name[-3:]
                want.append(("long variable name", f"Length of variable name `{shown}` is {n}, which is longer than the threshold of {hi}") + at)
        rep, path, text = write_run(ctx, ctx.inst(rules=FILES), P, case, args, prelude=prelude)
        got = [(v.rule, v.msg, v.sl, v.sc, v.el, v.ec) for v in rep.violations if v.sl > P.base]
        diff_multiset(got, set(want), f"{P.lang} {args}\n{text}\n")
        return sorted({w[0] for w in want} | ({"exempt"} if exempt else set()) | ({"shortened"} if any("..." in w[1] for w in want) else set()))


def subs(tier):
    return [Names()]
