"""C24: redundant code: else after return, parentheses, conditional operators, if statements, local variables."""
import copy
from metrics import *
import models

FILES = ["RedundantConditionalOperatorRule", "RedundantIfStatementRule", "RedundantLocalVariableRule", "UnnecessaryElseStatementRule", "UselessParenthesesRule"]
NEEDS = dict(rules=FILES, reporters=[])
RULE = ("generated C, C++ and Objective-C programs in generated layouts; the complete list of violations of the five rules, with positions, equals that of "
        "models evaluated on the generated tree (non-trivial: something is reported)")
REF = lambda v: N("ref", name=v)
LIT = lambda v, cls, val: N("lit", v=v, cls=cls, val=val)


def boolean(g, kind, v):
    """A literal of kind 'cpp' (true), 'cast' ((BOOL)1) or 'objc' (__objc_yes)."""
    if kind == "cast":
        return N("cast", ty=["BOOL"], sub=LIT(g.s.pick(["1", "0x1"]) if v else "0", "int", v), bool=v)
    return LIT({"cpp": ["false", "true"], "objc": ["__objc_no", "__objc_yes"]}[kind][v], kind, v)


def boolkind(g):
    return g.s.pick({"c": ["cast"], "cpp": ["cpp"], "m": ["cast", "objc"], "mm": ["cpp", "cast"]}[g.lang])


def boolexpr(g):
    s = g.s
    k = s.n(4)
    if k < 2:
        return boolean(g, boolkind(g), s.n(2))
    return REF(s.pick(["ba", "bb"]))


def conditional(g, d):
    s = g.s
    c = par(g.expr(d - 1), 4)
    k = s.n(10)
    ints = [("1", 1), ("0x1", 1), ("01", 1), ("2", 2), ("0", 0), ("1u", None), ("1L", None)]
    mk = lambda: None
    if k == 0:
        kind = boolkind(g)
        a, b = boolean(g, kind, s.n(2)), boolean(g, kind, s.n(2))
    elif k == 1:
        names = [n for n, v in ints if v is not None]
        a, b = (LIT(n, "int", dict(ints)[n]) for n in (s.pick(names), s.pick(names)))
    elif k == 2:
        n, m = s.pick([("1u", "1u"), ("1", "1u"), ("1L", "1"), ("2L", "2L"), ("1u", "2u")])
        a, b = LIT(n, "int" + n[-1], n), LIT(m, "int" + m[-1], m)
    elif k == 3:
        fl = {"1.0": 1, "1.": 1, "2.5": 2.5, "0.5e1": 5, "5.0": 5}
        n, m = s.pick(list(fl)), s.pick(list(fl))
        return N("cast", ty=["int"], sub=N("paren", sub=N("cond", c=c, t=LIT(n, "float", fl[n]), f_=LIT(m, "float", fl[m]))))
    elif k == 4:
        ch = {"'a'": 97, "'\\x61'": 97, "'b'": 98, "'\\141'": 97}
        n, m = s.pick(list(ch)), s.pick(list(ch))
        a, b = LIT(n, "char", ch[n]), LIT(m, "char", ch[m])
    elif k == 5:
        st = {'"a"': "a", '"b"': "b", '"\\x61"': "a", '""': "", '"ab"': "ab", '"\\141b"': "ab"}
        n, m = s.pick(list(st)), s.pick(list(st))
        return N("sub", arr=N("paren", sub=N("cond", c=c, t=LIT(n, "str", st[n]), f_=LIT(m, "str", st[m]))), idx=LIT("0", "int", 0))
    elif k == 6:
        n = g.name()
        a, b = REF(n), REF(n if s.n(2) else g.name())
    elif k > 7:                        # two of different kinds, either of which alone would do
        def one(k):
            return [lambda: boolean(g, boolkind(g), s.n(2)), lambda: LIT(s.pick(["1", "0"]), "int", 0), lambda: LIT("'a'", "char", 97), lambda: REF(g.name()),
                    lambda: LIT("1.0", "float", 1), lambda: N("un", op="!", sub=REF(g.name())), lambda: N("call", fn=REF("f0"), args=[]),
                    lambda: N("cast", ty=["int"], sub=LIT("1", "int", 1)), lambda: LIT("97", "int", 97), lambda: N("paren", sub=LIT("1", "int", 1)),
                    lambda: N("cast", ty=["bool" if g.lang == "cpp" else "BOOL"], sub=REF(g.name())), lambda: N("un", op="-", sub=LIT("1", "int", 1))][k]()
        j = s.n(12)
        a, b = one(j), one((j + 1 + s.n(11)) % 12)
        for x in (a, b):
            if x.kind == "lit" and x.cls == "int":
                x.val = int(x.v)
        return N("cast", ty=["int"], sub=N("paren", sub=N("cond", c=c, t=a, f_=b)))
    else:
        a, b = N("cast", ty=["int"], sub=LIT(s.pick(["1", "0", "2"]), "int", 0)), N("cast", ty=["int"], sub=LIT(s.pick(["1", "0", "2"]), "int", 0))
    return N("paren", sub=N("cond", c=c, t=a, f_=b))


def wrap(g, x):
    for _ in range(g.s.n(3)):
        x = N("compound", body=[x])
    return x


def bool_if(g, d):
    s = g.s
    kind = boolkind(g)
    v = s.n(2)
    a, b = boolean(g, kind, v), boolean(g, kind, 1 - v if s.n(4) else v)
    if s.n(6) == 5:
        a = N("cast", ty=["signed", "char"] if g.lang in ("c", "m") else ["int"], sub=LIT("1", "int", 1))
        if g.ret == "bool" or g.lang == "mm":
            b = N("cast", ty=a.ty, sub=LIT("0", "int", 0))
    elif s.n(6) == 5:
        a = boolexpr(g)
    elif s.n(6) == 5:                  # only one of the two is a boolean literal, or none
        a = s.pick([a, LIT("1", "int", 1), LIT("0", "int", 0)])
        b = s.pick([LIT("1", "int", 1), LIT("0", "int", 0), N("un", op="!", sub=a), N("cast", ty=["bool" if g.lang == "cpp" else "BOOL"], sub=REF("ga"))])
        if s.n(2):
            a, b = b, a
    if g.ret == "bool" and s.n(2):
        a, b = N("return", sub=a), N("return", sub=b)
    else:
        idx = lambda: s.pick([REF("ga"), REF("gb"), LIT("1", "int", 1), LIT("2", "int", 2), N("bin", op="+", l=REF("ga"), r=LIT("1", "int", 1))])
        side = lambda: s.pick([REF("ba"), REF("bb"), REF("ba"), N("sub", arr=REF("bar"), idx=idx()), N("sub", arr=REF("bp"), idx=idx()), N("un", op="*", sub=REF("bp"))])
        l, r = side(), side()
        if s.n(3):
            r = copy.deepcopy(l)
        op = "=" if s.n(6) else s.pick(["|=", "&&", "||", ",", "=="])
        oq = op if s.n(8) != 7 else s.pick(["=", "&&", "|="])
        mk = lambda op, l, r: N("exprs", sub=N("asn" if op in ("=", "|=") else "bin", op=op, l=l, r=r))
        a, b = mk(op, l, a), mk(oq, r, b)
    a, b = wrap(g, a), wrap(g, b)
    if s.n(6) == 5:
        b = N("compound", body=[b, g.simple()])
    return N("if", cexpr=False, init=None, cond=g.cond(), then=a, els=b if s.n(8) else None)


def local(g, d):
    s = g.s
    if g.ret == "void":
        return if_return(g, d)
    v = g.fresh("lv")
    isb = g.ret == "bool"
    ty = ["bool" if g.cpp else "BOOL"] if isb else ["int"]
    init = (boolexpr(g) if isb else par(g.expr(2), 2)) if s.n(4) else None
    vs = [N("var", pre=[], name=v, post=[], init=init)]
    w = v
    if s.n(6) == 5:
        w = g.fresh("lv")
        vs.insert(s.n(2), N("var", pre=[], name=w, post=[], init=None))
        w = s.pick([v, w])
    body = [N("decls", ty=ty, vars=vs)]
    if s.n(5) == 4:
        body.append(g.simple())
    r = REF(w if s.n(4) else ("ba" if isb else "ga"))
    k = s.n(8)
    if k == 6:
        r = N("paren", sub=r)
    elif k == 7 and not isb:
        r = N("bin", op="+", l=r, r=LIT("1", "int", 1))
    body.append(N("return", sub=r))
    if s.n(5) == 4:
        body.append(g.simple())
    if s.n(4) == 3:
        body.insert(0, g.simple())
    return N("compound", body=body)


def if_return(g, d):
    s = g.s

    def ret():
        if s.n(6) == 5:
            return g.simple()
        return N("return", sub=None if g.ret == "void" else boolexpr(g) if g.ret == "bool" else g.leaf())

    def br():
        k = s.n(5)
        if k < 2:
            x = ret()
        elif k == 2:
            x = N("compound", body=[g.simple(), ret()])
        elif k == 3:
            x = N("compound", body=[N("if", cexpr=False, init=None, cond=g.leaf(), then=ret(), els=ret() if s.n(4) else None)])
        else:
            x = N("compound", body=[N("while", cond=g.leaf(), body=ret())] + ([ret()] if s.n(2) else []))
        return x if s.n(2) else N("compound", body=[x])
    els = br() if s.n(6) else None
    for _ in range(1 + s.n(3)):
        t = br()
        if els is not None and dangling(t):
            t = N("compound", body=[t])
        els = N("if", cexpr=False, init=None, cond=g.leaf(), then=t, els=els)
    return els


class Redundant(TreeSub):
    name = "redundant"
    rule_files = FILES
    opts = {"lambda": 0, "sexpr": 0, "edepth": 3, "nodep": 1, "paren": 3, "ifinit": 1, "extra": [bool_if, if_return, local], "extraw": 9, "xextra": [conditional], "xextraw": 6,
            "bools": boolexpr}

    def prelude(self, lang):
        return PRELUDE[lang] + {"c": "typedef signed char BOOL;\nextern BOOL ba, bb, bar[4], *bp;\n", "m": "typedef signed char BOOL;\nextern BOOL ba, bb, bar[4], *bp;\n",
                                "cpp": "extern bool ba, bb, bar[4], *bp;\n", "mm": "typedef bool BOOL;\nextern bool ba, bb, bar[4], *bp;\n"}[lang]

    def rules(self, case):
        return models.REDUNDANT, []


def subs(tier):
    return [Redundant()]
