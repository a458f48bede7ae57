"""C21: rules about conditions and operators."""
from metrics import *
import models

FILES = ["BitwiseOperatorInConditionalRule", "BrokenOddnessCheckRule", "ConstantConditionalOperatorRule", "ConstantIfExpressionRule",
         "DoubleNegativeRule", "MultipleUnaryOperatorRule", "InvertedLogicRule"]
NEEDS = dict(rules=FILES, reporters=[])
RULE = ("generated C, C++ and Objective-C programs in generated layouts; the complete list of violations of the seven rules, with positions, equals that of "
        "models evaluated on the generated tree (non-trivial: something is reported)")

LIT = lambda v: N("lit", v=v)
BIN = lambda op, l, r: N("bin", op=op, l=par(l, BPREC[op]), r=par(r, BPREC[op] + 1))


def odd(g, d):
    s = g.s
    x = s.pick([N("ref", name=g.name()), N("call", fn=N("ref", name="f1"), args=[LIT("2")]), N("paren", sub=g.expr(d - 1))])
    rem = BIN(s.pick(["%", "%", "%", "/", "*"]), x, s.pick([LIT("2"), LIT("2"), LIT("0x2"), LIT("02"), LIT("3"), N("paren", sub=LIT("2")), N("ref", name="ga")]))
    one = s.pick([LIT("1"), LIT("1"), LIT("0x1"), LIT("0"), N("paren", sub=LIT("1")), N("un", op="-", sub=LIT("1"))])
    if s.n(6) == 5:
        rem = N("paren", sub=rem)
    a, b = (rem, one) if s.n(2) == 0 else (one, rem)
    return BIN(s.pick(["==", "==", "==", "!=", "<"]), a, b)


def const(g, d):
    return N("ref", name=g.s.pick(["EA", "EB", "EC", "kc", "kz"]))


def unary(g, d):
    s = g.s
    e = N("paren", sub=g.expr(d - 1)) if s.n(2) else N("ref", name=g.name())
    for _ in range(1 + s.n(3)):
        e = N("un", op=s.pick(["!", "~", "-", "+", "!", "~"]), sub=par(e, 16))
        if s.n(4) == 3:
            e = N("paren", sub=e)
    return e


TYPED = [(["0.5"], 1), (["0.0"], 0), (["0.0f"], 0), (['"s"'], 1), (["&", "ga"], 1), (["&", "arr", "[", "2", "]"], 1), (["arr"], 1), (["(", "void", "*", ")", "0"], 0),
         (["f0"], 1), (["&", "f0"], 1), (["(", "char", ")", "256"], 0), (["(", "double", ")", "0"], 0), (["gp"], None), (["gd"], None), (["*", "gp"], None)]
CPP = [(["nullptr"], 0), (["true"], 1), (["false"], 0), (["int", "(", "0.5", ")"], 0), (["sizeof", "(", "gd", ")", ">", "4"], 1)]


def typed(g, d):
    """A statement with a condition of a type other than int."""
    s = g.s

    def cond(n):
        k = s.n(6) if n else 0
        if k < 3:
            t, v = s.pick(TYPED + CPP if g.cpp else TYPED)
            e = N("raw", toks=t, val=v)
            return N("paren", sub=e) if len(t) > 1 or s.n(5) == 4 else e
        if k == 3:
            return N("un", op="!", sub=par(cond(n - 1), 16))
        op = s.pick(["&&", "||"])
        return BIN(op, cond(n - 1), cond(n - 1) if s.n(2) else g.leaf())
    c = cond(2)
    if s.n(3) == 2:
        return N("exprs", sub=N("asn", op="=", l=N("ref", name=g.name()), r=N("cond", c=par(c, 4), t=g.leaf(), f_=g.leaf())))
    return N("if", cexpr=False, init=None, cond=c, then=g.block(d), els=g.block(d) if s.n(2) else None)


def temps(g, d):
    """A statement whose condition makes temporaries with destructors; none of them is constant."""
    s = g.s
    if not g.cpp:
        return typed(g, d)

    def e(n):
        k = s.n(6) if n else 0
        if k == 0:
            return N("raw", toks=["Tm", "(", "1", ")", ".", "v"])
        if k == 1:
            return N("ref", name=g.name())
        if k == 2:
            return N("un", op=s.pick(["!", "~", "-"]), sub=par(e(n - 1), 16))
        if k == 3:
            return N("paren", sub=e(n - 1))
        return BIN(s.pick(["!=", "&", "|", "==", "<"]), e(n - 1), e(n - 1))
    c = e(3)
    k = s.n(5)
    if k == 0:
        return N("exprs", sub=N("asn", op="=", l=N("ref", name=g.name()), r=N("cond", c=par(c, 4), t=g.leaf(), f_=g.leaf())))
    if k == 1:
        return N("do", body=g.block(d), cond=c)
    if k == 2:
        return N("while", cond=c, body=g.block(d))
    return N("if", cexpr=False, init=None, cond=c, then=g.block(d), els=g.block(d) if s.n(3) else None)


class Conditions(TreeSub):
    name = "conditions"
    rule_files = FILES
    opts = {"lambda": 0, "sexpr": 0, "edepth": 4, "nodep": 1, "lits": ["1", "0", "2", "7", "0x10", "'c'"], "xextra": [odd, const, unary], "xextraw": 6, "extra": [typed, temps], "tmp": 0,
            "binops": ["+", "-", "==", "!=", "<", ">", "<=", ">=", "&", "|", "^", "%", "/"], "unops": ["!", "-", "~", "+", "!"]}

    def prelude(self, lang):
        return PRELUDE[lang] + "static const int kc = 3, kz = 0;\nextern int *gp;\nextern double gd;\n"

    def program(self, case):
        P = source(case, **self.opts)
        P.consts = {"EA": 0, "EB": 1, "EC": 2, "kc": 3, "kz": 0}
        return P

    def rules(self, case):
        return models.CONDITIONS, []


def subs(tier):
    return [Conditions()]
