"""C04: rule configuration values: last assignment wins, read back as text, integer or real."""
import math, re
from hypothesis import strategies as st
from util import *

NEEDS = dict(rules=["LongLineRule", "TooManyParametersRule", "ShortVariableNameRule"], reporters=[])
RULE = ("histories of assignments, removals and typed reads against a dictionary model (non-trivial: a key assigned twice or "
        "read with a default); -rc options with arbitrary keys and values, the effective thresholds read off the messages "
        "(non-trivial: a key given more than once or a value that is not a plain number)")

KEY = st.sampled_from(["A", "B", "LONG_LINE", "", "a", "A "]) | st.text(alphabet="AB_= ", max_size=4)
VAL = (st.integers(-10**6, 10**6).map(str) | st.text(alphabet="0123456789+-. eExa\t", max_size=8) |
       st.text(alphabet=st.characters(min_codepoint=1, max_codepoint=0x2FF), max_size=5) |
       st.floats(allow_nan=False, allow_infinity=False, width=32).map(repr))


def atoi(s):
    m = re.match(r"[ \t\n\v\f\r]*([+-]?[0-9]+)", s)
    return int(m.group(1)) if m else 0


def atof(s):
    m = re.match(r"[ \t\n\v\f\r]*([+-]?(?:0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][+-]?[0-9]+)?"
                 r"|(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?|[iI][nN][fF](?:inity)?|[nN][aA][nN]))", s)
    if not m:
        return 0.0
    t = m.group(1)
    if re.match(r"[+-]?0[xX]", t):
        return float.fromhex(t)
    return float(t)


class Store(Sub):
    name = "store"
    quick, thorough = 1500, 12000

    def strategy(self):
        return st.lists(st.one_of(
            st.tuples(st.just("add"), KEY, VAL), st.tuples(st.just("add"), KEY, VAL), st.tuples(st.just("has"), KEY),
            st.tuples(st.just("str"), KEY, VAL), st.tuples(st.just("int"), KEY, st.integers(-99, 99)),
            st.tuples(st.just("dbl"), KEY, st.sampled_from(["0", "1.5", "-2.25"])),
            st.tuples(st.just("clear"), st.just(""))).map(list), max_size=20)

    def test(self, ctx, case):
        items = [len(case)]
        for o in case:
            items += o
        r = api_reader(ctx, "@config", items)
        m, twice, dflt = {}, False, False
        for o in case:
            if o[0] == "add":
                twice |= o[1] in m
                m[o[1]] = o[2]
            elif o[0] == "clear":
                m = {}
            elif o[0] == "has":
                eq(r.num(), int(o[1] in m), f"hasKey({o[1]!r}) after {case}")
            else:
                dflt |= o[1] not in m
                if o[0] == "str":
                    eq(r.str(), m.get(o[1], o[2]), f"string for {o[1]!r} in {case}")
                elif o[0] == "int":
                    want = atoi(m[o[1]]) if o[1] in m else o[2]
                    got = r.num()
                    if -2**31 <= want < 2**31:
                        eq(got, want, f"integer for {o[1]!r} in {case}")
                else:
                    want = atof(m[o[1]]) if o[1] in m else float(o[2])
                    got = float(r.str())
                    if not (got == want or (math.isnan(got) and math.isnan(want))):
                        eq(got, want, f"real for {o[1]!r} in {case}")
        return ["twice" if twice else "", "default" if dflt else ""]


class Rc(Sub):
    name = "rc"
    quick, thorough = 250, 3000
    KEYS = {"LONG_LINE": 100, "TOO_MANY_PARAMETERS": 10, "SHORT_VARIABLE_NAME": 3}

    def strategy(self):
        k = st.sampled_from(list(self.KEYS)) | st.sampled_from(["long_line", "LONG_LINES", "X=LONG_LINE", "LONG_LINE=", "", "K"])
        v = st.integers(0, 30).map(str) | st.sampled_from(["", "abc", " 7", "+6", "5x", "08", "1.9", "0x10", "-0"])
        return st.lists(st.tuples(k, v, st.integers(0, 1)).map(list), max_size=5)

    def test(self, ctx, case):
        i = ctx.inst(rules=NEEDS["rules"])
        lens = [0, 1, 2, 5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 29, 30, 31, 100, 101]
        src = "".join("/" * max(n, 2) + "\n" if n >= 2 else "\n" for n in lens)
        pars = [0, 1, 2, 3, 5, 6, 7, 8, 10, 11, 29, 30, 31]
        names = ["v" * n for n in (1, 2, 3, 4, 5, 6, 7, 8, 10, 29, 30, 31)]
        for k, n in enumerate(pars):
            src += f"int func_{k}(" + ", ".join("int" for _ in range(n)) + ") { return 0; }\n" if n else f"int func_{k}(void) {{ return 0; }}\n"
        src += "".join(f"int {n};\n" for n in names)
        s = write(i.path("w", "rc.c"), src)
        args, conf = [], {}
        for k, v, how in case:
            if not k and not v:
                continue
            t = f"{k}={v}"
            args += ["-rc", t] if how == 0 else [f"-rc={t}"]
            a, b = t.rsplit("=", 1)
            conf[a] = b
        rep = need_report(oclint(ctx, i, ["-report-type", "verif", *args, s, "--", "-w"]))
        th = {k: atoi(conf[k]) if k in conf else d for k, d in self.KEYS.items()}
        want = []
        for n in map(len, src.splitlines()):
            if n > th["LONG_LINE"]:
                want.append(("long line", f"Line with {n} characters exceeds limit of {th['LONG_LINE']}"))
        for n in pars:
            if n > th["TOO_MANY_PARAMETERS"]:
                want.append(("too many parameters", f"Method with {n} parameters exceeds limit of {th['TOO_MANY_PARAMETERS']}"))
        for n in names:
            if len(n) < th["SHORT_VARIABLE_NAME"]:
                want.append(("short variable name", f"Length of variable name `{n}` is {len(n)}, which is shorter than the threshold of {th['SHORT_VARIABLE_NAME']}"))
        got = [(v.rule, v.msg) for v in rep.violations]
        diff_multiset(got, want, f"violations with -rc {case} (thresholds {th})")
        keys = [c[0] for c in case]
        return ["again" if len(set(keys)) < len(keys) else "", "odd" if any(not c[1].isdigit() for c in case) else ""]


def subs(tier):
    return [Store(), Rc()]
