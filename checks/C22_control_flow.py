"""C22: rules about the flow of control."""
from metrics import *
import models

FILES = ["CollapsibleIfStatementsRule", "DeadCodeRule", "ForLoopShouldBeWhileLoopRule", "GotoStatementRule", "JumbledIncrementerRule",
         "AvoidBranchingStatementAsLastInLoopRule", "ReturnFromFinallyBlockRule", "ThrowExceptionFromFinallyBlockRule", "PreferEarlyExitRule"]
NEEDS = dict(rules=FILES, reporters=[])
RULE = ("generated C, C++ and Objective-C programs in generated layouts; the complete list of violations of the nine rules, with positions, equals that of "
        "models evaluated on the generated tree (non-trivial: something is reported)")
REF = lambda v: N("ref", name=v)


def for_for(g, d):
    s = g.s
    save, g.labels = g.labels, list(g.labels)
    g.scopes.append([])
    g.loop += 1
    g.brk += 1
    dec = g.decl() if s.n(6) else None
    v = dec.vars[0].name if dec and s.n(4) else g.name()
    form = s.pick([lambda x: N("post", op="++", sub=REF(x)), lambda x: N("post", op="--", sub=REF(x)), lambda x: N("un", op="++", sub=REF(x)),
                   lambda x: N("asn", op="+=", l=REF(x), r=N("lit", v="2")), lambda x: N("un", op="--", sub=REF(x)), lambda x: N("post", op="++", sub=N("paren", sub=REF(x)))])
    g.scopes.append([])
    inner = N("for", init=g.decl() if s.n(2) else None, cond=g.leaf() if s.n(3) else None, inc=form(v) if s.n(5) else None, body=g.sub(d - 2))
    g.scopes.pop()
    body = [inner]
    if s.n(4) == 3:
        body.append(g.stmt(d - 2, False))
    out = N("for", init=dec, cond=g.leaf() if s.n(2) else None, inc=form(g.name()) if s.n(2) else None,
            body=inner if len(body) == 1 and s.n(2) else N("compound", body=body))
    g.scopes.pop()
    g.labels = save
    g.loop -= 1
    g.brk -= 1
    return out


def if_if(g, d):
    save, g.labels = g.labels, list(g.labels)
    r = if_if_(g, d)
    g.labels = save
    return r


def if_if_(g, d):
    s = g.s
    mk = lambda then, els: N("if", cexpr=False, init=None, cond=g.cond(), then=then, els=els)
    inner = mk(g.sub(d - 2), g.sub(d - 2) if s.n(5) == 4 else None)
    if inner.els is not None and dangling(inner.then):
        inner.then = N("compound", body=[inner.then])
    t = inner if s.n(3) == 0 else N("compound", body=[inner] + ([g.stmt(d - 2, False)] if s.n(4) == 3 else []))
    els = g.sub(d - 2) if s.n(4) == 3 else None
    if els is not None and dangling(t):
        t = N("compound", body=[t])
    return mk(t, els)


def exit_stmt(g, d):
    s = g.s
    def ex():
        k = s.n(5)
        if k == 0 and g.loop:
            return N("continue")
        if k == 1 and g.brk:
            return N("break")
        if k == 2 and g.labels and not g.nojump:
            return N("goto", label=s.pick(g.labels))
        if k == 3 and g.cpp and not g.objc:
            return N("exprs", sub=N("throw", sub=g.thrown()))
        return N("return", sub=g.leaf() if g.ret == "int" else None)
    def blk(x):
        b = [x] if s.n(3) else [g.simple(), x]
        if s.n(6) == 5:
            b.append(g.simple())
        return N("compound", body=b) if len(b) > 1 or s.n(2) else x
    k = s.n(4)
    if k == 0:
        return ex()
    if k == 1:
        return blk(ex())
    a, b = blk(ex()), blk(ex())
    if s.n(4) == 3:
        a = N("if", cexpr=False, init=None, cond=g.leaf(), then=N("compound", body=[a]), els=ex())
    return N("if", cexpr=False, init=None, cond=g.leaf(), then=a, els=b if s.n(5) else None)


def raising(g, d):
    if not g.objc:
        return exit_stmt(g, d)
    s = g.s
    nil = N("lit", v="0")
    recv, cls = s.pick([("exc", True), ("NSException", True), ("oth", False), ("sub", False)])
    sel = s.pick([["raise"], ["raise", "format"], ["raise", "format", "arguments"], ["name"], ["raise", "reason"]])
    args = [] if len(sel) == 1 else [nil] * len(sel)
    if recv == "NSException" and len(sel) == 1:
        recv = "exc"
    if recv != "NSException" and len(sel) > 1:
        recv = "NSException" if s.n(2) else "Other"
        cls = recv == "NSException"
    return N("exprs", sub=N("msg", recv=REF(recv), sel=sel, args=[N("lit", v="0") for _ in args], exc=cls))


NS = """__attribute__((objc_root_class)) @interface NSException
- (void)raise;
- (void)name;
+ (void)raise:(id)n format:(id)f;
+ (void)raise:(id)n format:(id)f arguments:(void *)a;
+ (void)raise:(id)n reason:(id)f;
@end
__attribute__((objc_root_class)) @interface Other
- (void)raise;
- (void)name;
+ (void)raise:(id)n format:(id)f;
+ (void)raise:(id)n format:(id)f arguments:(void *)a;
+ (void)raise:(id)n reason:(id)f;
@end
@interface SubException : NSException
@end
extern NSException *exc;
extern Other *oth;
extern SubException *sub;
"""


class Flow(TreeSub):
    name = "flow"
    rule_files = FILES
    opts = {"lambda": 0, "sexpr": 0, "edepth": 2, "throw": 1, "exc": 2, "extra": [exit_stmt, if_if, for_for, raising], "extraw": 10, "label": 2, "cvarif": 0}

    def prelude(self, lang):
        return PRELUDE[lang] + (NS if lang in ("m", "mm") else "")

    def rules(self, case):
        t = None if case["t"] % 3 == 0 else case["t"] // 3 % 13
        r = dict(models.FLOW)
        r["prefer early exits and continue"] = models.early_exit(15 if t is None else t)
        return r, [] if t is None else ["-rc", f"MAXIMUM_IF_LENGTH={t}"]


def subs(tier):
    return [Flow()]
