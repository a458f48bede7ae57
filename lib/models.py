"""What each statement rule reports for a generated program (see mini.py): lists of (first token, last token, message)."""
from mini import *

LOOPS = ("while", "do", "for", "rfor", "forin")


def nodes(P, *kinds):
    for r in P.roots:
        for x in r.walk():
            if x.kind in kinds:
                yield x


def S(P, n, msg=""):
    return (n.b, P.pr.last(n), msg)


def E(n, msg=""):
    return (n.b, n.e, msg)


def unparen(e):
    while e.kind == "paren":
        e = e.sub
    return e


def is_empty(s):
    return s is not None and (s.kind == "null" or s.kind == "compound" and not s.body)


# ---------------------------------------------------------------- empty

def empties(kinds, get):
    def m(P):
        out = []
        for n in nodes(P, *kinds):
            for s in get(n):
                if is_empty(s):
                    out.append(S(P, s))
        return out
    return m


EMPTY = {
    "empty if statement": empties(("if",), lambda n: [n.then]),
    "empty else block": empties(("if",), lambda n: [n.els]),
    "empty for statement": empties(("for", "rfor", "forin"), lambda n: [n.body]),
    "empty while statement": empties(("while",), lambda n: [n.body]),
    "empty do/while statement": empties(("do",), lambda n: [n.body]),
    "empty switch statement": empties(("switch",), lambda n: [n.body]),
    "empty try statement": empties(("try", "attry"), lambda n: [n.body]),
    "empty catch statement": empties(("catch", "atcatch"), lambda n: [n.body]),
    "empty finally statement": empties(("atfinally",), lambda n: [n.body]),
}


# ---------------------------------------------------------------- conditions and operators

def bitwise(P):
    return [E(n.c if n.kind == "cond" else n.cond) for n in nodes(P, "if", "while", "do", "cond")
            if any(x.kind == "bin" and x.op in ("&", "|", "^") for x in (n.c if n.kind == "cond" else n.cond).walk())]


def litval(e):
    if e.kind != "lit":
        return None
    try:
        return int(e.v, 0)
    except ValueError:
        return {"010": 8, "02": 2, "01": 1, "00": 0}.get(e.v)


def oddness(P):
    def rem2(e):
        return e.kind == "bin" and e.op == "%" and litval(e.r) == 2
    return [E(n) for n in nodes(P, "bin") if n.op == "==" and
            (litval(n.r) == 1 and rem2(n.l) or litval(n.l) == 1 and rem2(n.r))]


def double_negative(P):
    return [E(n) for n in nodes(P, "un") if unparen(n.sub).kind == "un" and n.op == unparen(n.sub).op and n.op in ("!", "~")]


def multiple_unary(P):
    return [E(n) for n in nodes(P, "un") if n.op in ("!", "~", "+", "-") and unparen(n.sub).kind == "un" and unparen(n.sub).op in ("!", "~", "+", "-")]


NA = None


def ev(e, consts={}):
    """The value of a constant int expression as the front end folds it, side effects ignored; None when it is not constant."""
    k = e.kind
    if k == "lit":
        v = litval(e)
        if v is None and e.v.startswith("'"):
            v = ord(e.v[1])
        if e.v in ("true", "false"):
            v = int(e.v == "true")
        return v
    if k == "ref":
        return consts.get(e.name)
    if k == "raw":
        return getattr(e, "val", None)
    if k == "paren":
        return ev(e.sub, consts)
    if k == "cast":
        return ev(e.sub, consts)
    if k == "sizeof":
        return 4
    if k == "un":
        v = ev(e.sub, consts)
        if v is None:
            return None
        return {"!": int(not v), "-": -v, "+": v, "~": ~v}[e.op]
    if k == "comma":
        return ev(e.r, consts)
    if k == "cond":
        c = ev(e.c, consts)
        if c is None:
            return None
        return ev(e.t if c else e.f_, consts)
    if k == "elvis":
        c = ev(e.c, consts)
        if c is None:
            return None
        return c if c else ev(e.f_, consts)
    if k == "bin":
        a = ev(e.l, consts)
        if e.op in ("&&", "||"):
            stop = e.op == "||"
            if a is not None and bool(a) == stop:
                return int(stop)
            b = ev(e.r, consts)
            if b is None:
                return None
            if a is None:
                return int(stop) if bool(b) == stop else None
            return int(bool(b))
        b = ev(e.r, consts)
        if a is None or b is None:
            return None
        op = e.op
        if op in ("/", "%"):
            if b == 0:
                return None
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if op == "/" else a - q * b
        return int({"+": a + b, "-": a - b, "*": a * b, "==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b,
                    "&": a & b, "|": a | b, "^": a ^ b}[op])
    return None


def constant_if(P):
    return [E(n.cond) for n in nodes(P, "if") if ev(n.cond, P.consts) is not None]


def constant_cond(P):
    return [E(n.c) for n in nodes(P, "cond") if ev(n.c, P.consts) is not None]


def inverted(P):
    def inv(e):
        return e.kind == "bin" and e.op == "!=" or e.kind == "un" and e.op == "!"
    return [E(n.cond) for n in nodes(P, "if") if n.els and inv(n.cond)] + [E(n.c) for n in nodes(P, "cond") if inv(n.c)]


CONDITIONS = {"bitwise operator in conditional": bitwise, "broken oddness check": oddness, "double negative": double_negative,
              "multiple unary operator": multiple_unary, "constant if expression": constant_if, "constant conditional operator": constant_cond,
              "inverted logic": inverted}


# ---------------------------------------------------------------- control flow

def collapsible(P):
    out = []
    for n in nodes(P, "if"):
        t = n.then
        if t.kind == "compound" and len(t.body) == 1:
            t = t.body[0]
        if t.kind == "if" and not n.els and not t.els:
            out.append(S(P, n))
    return out


def exits(s):
    k = s.kind
    if k in ("break", "continue", "return", "goto", "atthrow"):
        return True
    if k == "exprs":
        return s.sub.kind == "throw"
    if k in ("case", "default"):
        return exits(s.sub)
    if k == "compound":
        return any(map(exits, s.body))
    if k == "if":
        return bool(s.els) and exits(s.then) and exits(s.els)
    return False


def dead_code(P):
    out = []
    for n in nodes(P, "compound"):
        for a, b in zip(n.body, n.body[1:]):
            if exits(a) and b.kind not in ("case", "default", "label"):
                out.append(S(P, b))
                break
    return out


def for_while(P):
    return [S(P, n) for n in nodes(P, "for") if n.init is None and n.inc is None and n.cond is not None]


def goto(P):
    return [S(P, n) for n in nodes(P, "goto")]


def sole(body, kind):
    """body itself, or the one statement of the block body, when of this kind."""
    if body.kind == kind:
        return body
    if body.kind == "compound" and len(body.body) == 1 and body.body[0].kind == kind:
        return body.body[0]
    return None


def jumbled(P):
    out = []
    for n in nodes(P, "for"):
        i = sole(n.body, "for")
        if i and n.init and n.init.kind == "decls" and len(n.init.vars) == 1 and i.inc and \
                (i.inc.kind in ("post",) or i.inc.kind == "un" and i.inc.op in ("++", "--")) and \
                i.inc.sub.kind == "ref" and i.inc.sub.name == n.init.vars[0].name:
            out.append(E(i.inc))
    return out


def from_finally(kind):
    def m(P):
        out = set()
        for n in nodes(P, "atfinally"):
            for x in n.walk():
                if kind(x):
                    out.add(E(x) if x.kind == "msg" else S(P, x))
        return list(out)
    return m


def raises(x):
    return x.kind == "atthrow" or x.kind == "msg" and getattr(x, "exc", False) and tuple(x.sel) in (("raise",), ("raise", "format"), ("raise", "format", "arguments"))


def last_in_loop(P):
    out = []
    for n in nodes(P, *LOOPS):
        if n.body.kind == "compound" and n.body.body and n.body.body[-1].kind in ("break", "continue", "return"):
            out.append(S(P, n.body.body[-1]))
    return out


def early_exit(limit):
    def long_if(P, s):
        return s.kind == "if" and not s.els and P.at(P.pr.last(s))[0] - P.at(s.b)[0] + 1 > limit

    def m(P):
        out = set()
        msg = "Use early exit/continue to simplify code and reduce indentation"
        for n in nodes(P, "compound"):
            if len(n.body) > 1 and n.body[-1].kind in ("break", "continue", "goto", "return") and long_if(P, n.body[-2]):
                out.add(S(P, n.body[-2], msg))
        for n in nodes(P, *LOOPS):
            l = n.body
            if l.kind == "compound":
                l = l.body[-1] if l.body else None
            if l is not None and long_if(P, l):
                out.add(S(P, l, msg))
        return list(out)
    return m


FLOW = {"collapsible if statements": collapsible, "dead code": dead_code, "for loop should be while loop": for_while, "goto statement": goto,
        "jumbled incrementer": jumbled, "avoid branching statement as last in loop": last_in_loop,
        "return from finally block": from_finally(lambda x: x.kind == "return"), "throw exception from finally block": from_finally(raises)}


# ---------------------------------------------------------------- switch

def labels(s):
    """The case and default labels of a switch, not of switches inside."""
    out = []

    def go(n):
        for c in n.kids():
            if c.kind in ("case", "default"):
                out.append(c)
            if c.kind not in ("switch", "lambda", "block"):
                go(c)
    go(s.body)
    return out


def covered(s):
    if not s.enum:
        return False
    names, seen = ["EA", "EB", "EC"], set()
    for c in labels(s):
        if c.kind == "case":
            i = names.index(c.value.v)
            seen.update(names[i:names.index(c.hi.v) + 1] if c.hi is not None else [c.value.v])
    return len(seen) == 3


def has_default(s):
    return any(c.kind == "default" for c in labels(s))


def breaks(s):
    return any(x.kind in ("break", "return", "continue", "throw", "atthrow") for x in s.walk())


def missing_break(P):
    out = []
    for n in nodes(P, "switch"):
        ok = True
        for s in n.body.body:
            if s.kind in ("break", "return", "continue", "atthrow") or s.kind == "exprs" and s.sub.kind == "throw" or s.kind == "compound" and breaks(s):
                ok = True
            elif s.kind in ("case", "default"):
                if not ok:
                    break
                ok = breaks(s)
        if not ok:
            out.append(S(P, n))
    return out


def misplaced_default(P):
    out = []
    for n in nodes(P, "switch"):
        ls = labels(n)
        for a, b in zip(ls, ls[1:]):
            if a.kind == "default":
                out.append(S(P, a))
    return out


def switch_rules(minimum):
    return {
        "unnecessary default statement in covered switch statement": lambda P: [S(P, n) for n in nodes(P, "switch") if covered(n) and has_default(n)],
        "missing default in switch statements": lambda P: [S(P, n) for n in nodes(P, "switch") if not covered(n) and not has_default(n)],
        "ill-placed default label in switch statement": misplaced_default,
        "missing break in switch statement": missing_break,
        "non case label in switch statement": lambda P: list({S(P, x) for n in nodes(P, "switch") for x in n.walk() if x.kind == "label"}),
        "too few branches in switch statement": lambda P: [S(P, n) for n in nodes(P, "switch") if sum(c.kind == "case" for c in labels(n)) < minimum],
    }


# ---------------------------------------------------------------- redundant

def all_return(s):
    if s is None:
        return False
    if s.kind == "compound":
        return any(map(all_return, s.body))
    if s.kind == "if":
        return all_return(s.then) and all_return(s.els)
    return s.kind == "return"


def unnecessary_else(P):
    out, inner = [], set()
    for n in nodes(P, "if"):
        if n.els is not None and n.els.kind == "if":
            inner.add(id(n.els))
    for n in nodes(P, "if"):
        if id(n) in inner:
            continue
        ok = all_return(n.then)
        while n.els is not None and n.els.kind == "if":
            n = n.els
            ok = ok and all_return(n.then)
        if n.els is not None and ok:
            out.append(S(P, n.els))
    return out


def useless_paren(P):
    out = []
    for n in nodes(P, "if", "return", "var"):
        e = n.cond if n.kind == "if" else n.sub if n.kind == "return" else n.init
        if e is not None and e.kind == "paren":
            out.append(E(e))
    return out


def boolval(e):
    """(kind, value) of a boolean literal: true, __objc_yes or (BOOL)1."""
    if e is None:
        return None
    if e.kind == "lit" and getattr(e, "cls", "") in ("cpp", "objc"):
        return e.cls, e.val
    if e.kind == "cast" and e.ty == ["BOOL"] and e.sub.kind == "lit" and literal(e.sub)[0].startswith("int"):
        return "cast", e.sub.val
    return None


def redundant_cond(P):
    out = []
    for n in nodes(P, "cond"):
        a, b = n.t, n.f_
        if a.kind == b.kind == "ref" and a.name == b.name or boolval(a) and boolval(b) and boolval(a)[0] == boolval(b)[0] or \
                a.kind == b.kind == "lit" and literal(a) == literal(b):
            out.append(E(n))
    return out


def literal(e):
    """Class and value of a literal."""
    if getattr(e, "cls", None):
        return e.cls, e.val
    v = e.v
    return ("char", ord(v[1])) if v[0] == "'" else ("int" + v[-1] if v[-1] in "uL" else "int", int(v.rstrip("uL"), 0))


def only(s):
    while s is not None and s.kind == "compound" and len(s.body) == 1:
        s = s.body[0]
    return s


def same(a, b):
    """Two expressions of references, literals, subscripts and operators are the same."""
    if a.kind != b.kind:
        return False
    if a.kind in ("ref", "lit"):
        return getattr(a, "name", None) == getattr(b, "name", None) and getattr(a, "v", None) == getattr(b, "v", None)
    if a.kind == "sub":
        return same(a.arr, b.arr) and same(a.idx, b.idx)
    if a.kind == "bin":
        return a.op == b.op and same(a.l, b.l) and same(a.r, b.r)
    return a.kind == "un" and a.op == b.op and same(a.sub, b.sub)


def redundant_if(P):
    out = []
    for n in nodes(P, "if"):
        a, b = only(n.then), only(n.els)
        if a is None or b is None or a.kind != b.kind:
            continue
        if a.kind == "return":
            x, y = a.sub, b.sub
        elif a.kind == "exprs" and a.sub.kind == "asn" and b.sub.kind == "asn" and a.sub.op == b.sub.op == "=" and \
                same(a.sub.l, b.sub.l):
            x, y = a.sub.r, b.sub.r
        else:
            continue
        if boolval(x) and boolval(y) and boolval(x)[0] == boolval(y)[0] and boolval(x)[1] != boolval(y)[1]:
            out.append(S(P, n))
    return out


def redundant_local(P):
    out = []
    for n in nodes(P, "compound"):
        if len(n.body) < 2:
            continue
        d, r = n.body[-2:]
        if r.kind == "return" and r.sub is not None and r.sub.kind == "ref" and d.kind == "decls" and len(d.vars) == 1 and d.vars[0].name == r.sub.name:
            v = d.vars[0]
            out.append((d.b, v.e, ""))
    return out


REDUNDANT = {"unnecessary else statement": unnecessary_else, "useless parentheses": useless_paren, "redundant conditional operator": redundant_cond,
             "redundant if statement": redundant_if, "redundant local variable": redundant_local}


def expected(P, rules):
    out = set()
    for name, m in rules.items():
        for b, e, msg in m(P):
            out.add((name, msg, P.base + P.at(b)[0], P.at(b)[1], P.base + P.at(e)[0], P.at(e)[1]))
    return out
