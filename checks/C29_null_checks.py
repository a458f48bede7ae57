"""C29: broken, misplaced, redundant and unnecessary null checks."""
from metrics import *

FILES = ["BrokenNullCheckRule", "MisplacedNullCheckRule", "RedundantNilCheckRule", "UnnecessaryNullCheckForCXXDeallocRule"]
NEEDS = dict(rules=FILES, reporters=[])
RULE = ("generated C, C++ and Objective-C programs rich in null checks, dereferences, messages and deletions in generated layouts; the complete list of violations of the "
        "null check rules, with positions, equals that of models evaluated on the generated tree (non-trivial: something is reported)")
REC = "struct Base { int by; int bm(); };\nstruct Nd : Base { int x; Nd *nx; int cm() const; int mm(int = 0); };\n"
PRE = {
    "c": "#define NULL ((void *)0)\nstruct Nd { int x; struct Nd *nx; };\nextern struct Nd *np, *nq, *nr;\n",
    "cpp": "#define NULL __null\n" + REC + "extern Nd *np, *nq, *nr, **pp, *parr[3];\nnamespace ns { extern Nd *np, *nq; }\nstruct Hold { static Nd *np; Nd *ho; };\nextern Hold hh;\n",
    "m": "#define nil ((id)0)\n#define NULL ((void *)0)\n@interface Coll (N)\n- (int)im;\n- (int)im:(id)a with:(int)b;\n- (id)other;\n+ (int)cm;\n@end\nextern Coll *np, *nq; extern id nr;\n",
}
PRE["mm"] = PRE["m"].replace("#define nil ((id)0)", "#define nil nullptr").replace("((void *)0)", "__null") + "namespace ns { extern Coll *np, *nq; }\n"
VARS = {"c": ["np", "nq", "np", "nr"], "cpp": ["np", "nq", "np", "nr", "ns::np", "ns::nq", "Hold::np", "::np"], "m": ["np", "nq", "nr", "np"], "mm": ["np", "nq", "nr", "ns::np", "ns::nq"]}
ZERO = {"c": ["0", "NULL", "( void * ) 0", "( struct Nd * ) 0", "( 0 )", "( NULL )"], "cpp": ["0", "NULL", "nullptr", "( Nd * ) 0", "( nullptr )", "( Nd * ) ( ( Nd * ) 0 )", "( Nd * ) ( nullptr )"],
        "m": ["nil", "0", "NULL", "( id ) 0", "( Coll * ) 0", "( nil )"], "mm": ["nil", "nullptr", "0", "( id ) 0", "( Coll * ) nullptr", "NULL"]}


def var(g):
    n = g.s.pick(VARS[g.lang])
    if n.startswith("::"):
        return N("raw", toks=["::", n[2:]], var=n[2:])
    q = n.split("::")
    return N("raw", toks=[q[0], "::", q[1]] if len(q) > 1 else [n], var=n)


def zero(g):
    return N("raw", toks=g.s.pick(ZERO[g.lang]).split(), null=True)


def maybe_paren(g, e, of=6):
    return N("paren", sub=e) if g.s.n(of) == of - 1 else e


def check(g):
    """A null check of a variable."""
    s = g.s
    k = s.n(6)
    v = maybe_paren(g, var(g), 8)
    if k == 0:
        e = v
    elif k == 1:
        e = N("un", op="!", sub=par(v, 16))
    else:
        op = ["!=", "==", "!=", "=="][k - 2]
        l, r = (v, zero(g)) if k < 4 else (zero(g), v)
        e = N("bin", op=op, l=par(l, 9), r=par(r, 10))
    return maybe_paren(g, e)


def use(g, d):
    """An expression of int type that may dereference a variable."""
    s = g.s
    v = maybe_paren(g, var(g), 8)
    if g.objc:
        k = s.n(7)
        if k == 0:
            e = N("msg", recv=v, sel=["im"], args=[])
        elif k == 1:
            e = N("msg", recv=v, sel=["im", "with"], args=[var(g), N("lit", v="1")])
        elif k == 2:
            e = N("msg", recv=N("msg", recv=v, sel=["other"], args=[]), sel=["im"], args=[])
        elif k == 3:
            e = N("msg", recv=N("raw", toks=["Coll"]), sel=["cm"], args=[])
        elif k == 4:
            e = N("msg", recv=v, sel=["im", "with"], args=[N("msg", recv=var(g), sel=["other"], args=[]), N("lit", v="1")])
        elif k == 5:
            e = maybe_paren(g, N("un", op=s.pick(["!", "-"]), sub=N("msg", recv=v, sel=["im"], args=[])))
        else:
            e = N("bin", op="==", l=N("msg", recv=v, sel=["im"], args=[]), r=N("lit", v="2"))
    else:
        k = s.n(9)
        v = par(v, 18)
        if k == 0:
            e = N("mem", base=v, op="->", name="x")
        elif k == 1:
            e = N("mem", base=N("mem", base=v, op="->", name="nx"), op="->", name="x")
        elif k == 2:
            e = N("mem", base=N("paren", sub=N("un", op="*", sub=v)), op=".", name="x")
        elif k == 3:
            e = N("call", fn=N("ref", name="f1"), args=[N("mem", base=v, op="->", name="x")])
        elif k == 4:
            e = N("bin", op="==", l=N("mem", base=v, op="->", name="x"), r=N("lit", v="1"))
        elif k == 5:
            e = N("un", op=s.pick(["!", "-"]), sub=N("mem", base=v, op="->", name="x"))
        elif not g.cpp:
            e = N("sub", arr=N("ref", name="arr"), idx=N("mem", base=v, op="->", name="x"))
        elif k == 6:
            e = N("call", fn=N("mem", base=v, op="->", name=s.pick(["cm", "mm", "bm"])), args=[])
        elif k == 7:
            e = N("mem", base=v, op="->", name="by")
        else:
            e = N("call", fn=N("mem", base=N("mem", base=v, op="->", name="nx"), op="->", name="mm"), args=[N("mem", base=var(g), op="->", name="x")])
    return maybe_paren(g, e)


def operand(g, d):
    s = g.s
    k = s.n(8)
    if k < 3:
        return check(g)
    if k < 6:
        return use(g, d)
    if k == 6 and d > 1:
        return nulls(g, d - 1)
    return g.expr(d - 1)


def nulls(g, d):
    op = g.s.pick(["&&", "||"])
    q = BPREC[op]
    return N("bin", op=op, l=par(operand(g, d), q), r=par(operand(g, d), q + 1))


# ---------------------------------------------------------------- models

def strip(e):
    while e.kind == "paren":
        e = e.sub
    return e


def checked(e):
    """-> ("ne" or "eq", variable) of a null check"""
    e = strip(e)
    v = lambda x: getattr(strip(x), "var", None)
    isnull = lambda x: getattr(strip(x), "null", False)
    if e.kind == "raw" and v(e):
        return "ne", e.var
    if e.kind == "un" and e.op == "!" and v(e.sub):
        return "eq", v(e.sub)
    if e.kind == "bin" and e.op in ("==", "!="):
        for a, b in ((e.l, e.r), (e.r, e.l)):
            if v(a) and isnull(b):
                return "eq" if e.op == "==" else "ne", v(a)
    return None, None


def derefs(e, var, objc):
    for x in e.walk():
        b = x.recv if objc and x.kind == "msg" else x.base if not objc and x.kind == "mem" and x.op == "->" else None
        if b is not None and getattr(strip(b), "var", None) == var:
            return True
    return False


def broken(P):
    for r in P.roots:
        for x in r.walk():
            if x.kind == "bin" and x.op in ("&&", "||"):
                how, v = checked(x.l)
                if how == ("ne" if x.op == "||" else "eq") and derefs(x.r, v, P.lang in ("m", "mm")):
                    yield x.b, x.e, ""


def misplaced(P):
    for r in P.roots:
        for x in r.walk():
            if x.kind == "bin" and x.op in ("&&", "||"):
                how, v = checked(x.r)
                if how == ("ne" if x.op == "&&" else "eq") and derefs(x.l, v, P.lang in ("m", "mm")):
                    yield x.b, x.e, ""


def redundant(P):
    for r in P.roots:
        for x in r.walk():
            if x.kind == "bin" and x.op == "&&":
                how, v = checked(x.l)
                y = strip(x.r)
                if how == "ne" and derefs(x.r, v, True) and not (y.kind == "un" and y.op == "!"):
                    yield x.b, x.e, ""


class Nulls(TreeSub):
    name = "nulls"
    rule_files = FILES[:3]
    opts = {"edepth": 3, "nodep": 1, "xextra": [nulls], "xextraw": 20}

    def prelude(self, lang):
        return PRELUDE[lang] + PRE[lang]

    def rules(self, case):
        if case["lang"] in ("c", "cpp"):
            return {"broken null check": broken, "misplaced null check": misplaced}, []
        return {"broken nil check": broken, "misplaced nil check": misplaced, "redundant nil check": redundant}, []


# ---------------------------------------------------------------- deletions

PTRS = ["np", "nq", "ns :: np", "* pp", "parr [ 1 ]", "parr [ ga ]", "np -> nx", "nq -> nx", "hh . ho", "Hold :: np", "np"]


def ptr(g, want=None):
    t = want or g.s.pick(PTRS)
    e = N("raw", toks=t.split(), ptr=t, p=16 if t[0] == "*" else 20)
    if t[0] == "*":
        e = N("un", op="*", sub=N("raw", toks=["pp"]), ptr=t)
    return maybe_paren(g, e, 8)


def dele(g, want):
    e = ptr(g, want)
    if g.s.n(8) == 7:
        e = N("cast", ty=["Nd", "*"], sub=par(e, 16))
    return N("exprs", sub=N("delete", arr=g.s.n(4) == 3, sub=par(e, 16)))


def deletion(g, d):
    s = g.s
    p = s.pick(PTRS)
    k = s.n(8)
    other = s.pick(PTRS)
    want = True
    q = p if s.n(5) else other
    want = p == q
    if k < 3:
        c = ptr(g, p)
    elif k < 5:
        c = N("bin", op="!=", l=par(ptr(g, p), 9), r=par(zero(g), 10))
    elif k == 5:
        c = N("bin", op="!=", l=par(zero(g), 9), r=par(ptr(g, p), 10))
    elif k == 6:
        c = N("bin", op="==", l=par(ptr(g, p), 9), r=par(zero(g), 10))
        want = False
    else:
        want = False
        c = s.pick([lambda: N("un", op="!", sub=par(ptr(g, p), 16)), lambda: N("bin", op="&&", l=par(ptr(g, p), 5), r=N("ref", name="ga")),
                    lambda: N("bin", op="!=", l=ptr(g, p), r=par(ptr(g, other), 10)), lambda: N("bin", op="!=", l=N("ref", name="ga"), r=N("lit", v="0"))])()
    c = maybe_paren(g, c)
    d1 = dele(g, q)
    asn = lambda x, v: N("exprs", sub=N("asn", op="=", l=ptr(g, x), r=par(v, 2)))
    j = s.n(10)
    if j < 2:
        then = d1
    elif j < 4:
        then = N("compound", body=[d1])
    elif j < 6:
        r = q if s.n(4) else other
        want = want and r == q
        then = N("compound", body=[d1, asn(r, zero(g))])
    else:
        want = False
        then = N("compound", body=s.pick([lambda: [d1, asn(q, ptr(g, "nr"))], lambda: [d1, N("null")], lambda: [N("compound", body=[d1])], lambda: [asn(q, zero(g))],
                                          lambda: [], lambda: [d1, asn(q, zero(g)), N("null")], lambda: [N("null"), d1], lambda: [asn(q, zero(g)), d1],
                                          lambda: [d1, N("exprs", sub=N("bin", op="!=", l=par(ptr(g, q), 9), r=par(zero(g), 10)))]])())
    els = None
    if s.n(8) == 7:
        els = N("compound", body=[])
        want = False
        if then.kind == "exprs":
            then = N("compound", body=[then])
    return N("if", cexpr=False, init=None, cond=c, then=then, els=els, unneeded=want)


def unneeded(P):
    for r in P.roots:
        for x in r.walk():
            if x.kind == "if" and getattr(x, "unneeded", False):
                yield x.b, P.pr.last(x), ""


class Deletions(TreeSub):
    name = "deletions"
    rule_files = FILES[3:]
    langs = ["cpp"]
    quick, thorough = 300, 5000
    opts = {"edepth": 2, "nodep": 1, "extra": [deletion], "extraw": 30}

    def prelude(self, lang):
        return PRELUDE[lang] + PRE[lang]

    def rules(self, case):
        return {"unnecessary null check for dealloc": unneeded}, []


def subs(tier):
    return [Nulls(), Deletions()]
