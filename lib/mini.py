"""Generated programs: small C, C++ and Objective-C sources decoded from a byte string.

A program is a tree of N nodes.  Printing a tree appends tokens; each node knows
its first and last token.  A layout (decoded from a second byte string) then puts
the tokens on lines with white space and comments between them, so that every
node's position is known without asking the compiler.
"""


class Src:
    """Decodes bytes into choices; when they run out every choice is the first."""

    def __init__(self, data):
        self.d, self.k = data, 0

    def byte(self):
        self.k += 1
        return self.d[self.k - 1] if self.k <= len(self.d) else 0

    def left(self):
        return max(0, len(self.d) - self.k)

    def n(self, k):
        return self.byte() % k if k <= 256 else (self.byte() * 256 + self.byte()) % k

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def chance(self, num, den=16):
        return self.byte() % den >= den - num      # zero bytes mean no

    def weigh(self, table):
        """table: [(weight, value)]; the first is the simplest."""
        t = self.n(sum(w for w, _ in table))
        for w, v in table:
            if t < w:
                return v
            t -= w


class N:
    """A node: kind, fields, and after printing the indices of its first and last token."""

    def __init__(self, kind, **f):
        self.kind, self.b, self.e = kind, None, None
        self.__dict__.update(f)
        self.f = list(f)

    def kids(self):
        for k in self.f:
            v = getattr(self, k)
            if isinstance(v, N):
                yield v
            elif isinstance(v, (list, tuple)):
                for x in v:
                    if isinstance(x, N):
                        yield x

    def walk(self):
        yield self
        for c in self.kids():
            yield from c.walk()

    def __repr__(self):
        return f"{self.kind}({', '.join(f'{k}={getattr(self, k)!r}' for k in self.f)})"


STMTS = {"compound", "if", "while", "do", "for", "rfor", "forin", "switch", "case", "default", "break", "continue", "return", "goto", "label",
         "null", "exprs", "decls", "try", "catch", "attry", "atcatch", "atfinally", "atsync", "atpool", "atthrow"}


# ---------------------------------------------------------------- printing

class Tokens:
    def __init__(self):
        self.t = []

    def w(self, *ts):
        self.t.extend(t for t in ts if t)
        return len(self.t) - 1

    def here(self):
        return len(self.t)


PREC = {"lit": 20, "ref": 20, "paren": 20, "call": 18, "post": 18, "sub": 18, "mem": 18, "msg": 20, "lambda": 20, "block": 20, "sexpr": 20, "str": 20,
        "this": 20, "cxxcast": 18, "un": 16, "cast": 16, "sizeof": 16, "new": 16, "delete": 16, "cond": 3, "elvis": 3, "asn": 2, "throw": 2, "comma": 1,
        "raw": 20, "boxed": 20, "nullp": 20}
BPREC = {"*": 13, "/": 13, "%": 13, "+": 12, "-": 12, "<<": 11, ">>": 11, "<": 10, ">": 10, "<=": 10, ">=": 10, "==": 9, "!=": 9, "&": 8, "^": 7,
         "|": 6, "&&": 5, "||": 4}


def prec(e):
    return BPREC[e.op] if e.kind == "bin" else PREC[e.kind]


def par(e, need):
    """e, in explicit parentheses when its precedence is below need."""
    return e if prec(e) >= need else N("paren", sub=e)


class Printer:
    def __init__(self, lang):
        self.lang, self.o = lang, Tokens()

    def p(self, n):
        n.b = self.o.here()
        getattr(self, "p_" + n.kind)(n)
        n.e = self.o.here() - 1

    def w(self, *ts):
        return self.o.w(*ts)

    def sep(self, xs, s=","):
        for k, x in enumerate(xs):
            if k:
                self.w(s)
            self.p(x)

    # the last token of a statement that ends in ';' is the one before it, except for null and declaration statements
    def stmt(self, n):
        self.p(n)

    def semi(self, n):
        """Writes ';' and ends n before it."""
        end = self.o.here() - 1
        self.w(";")
        n.end = end

    def last(self, n):
        """Index of the last token of n as the compiler sees it."""
        k = n.kind
        if k == "if":
            return self.last(n.els or n.then)
        if k in ("while", "for", "rfor", "forin", "switch", "case", "default", "label", "atsync", "atpool"):
            s = n.sub if k in ("case", "default", "label") else n.body
            return self.last(s)
        if k in ("catch", "atcatch", "atfinally"):
            return self.last(n.body)
        if k == "try":
            return self.last(n.catches[-1])
        return getattr(n, "end", None) if getattr(n, "end", None) is not None else n.e

    # expressions
    def p_lit(self, n):
        self.w(n.v)

    def p_raw(self, n):
        self.w(*n.toks)

    def p_nullp(self, n):
        self.w(n.v)

    def p_ref(self, n):
        self.w(n.name)

    def p_this(self, n):
        self.w("this")

    def p_str(self, n):
        self.w(n.v)

    def p_paren(self, n):
        self.w("(")
        self.p(n.sub)
        self.w(")")

    def p_un(self, n):
        self.w(n.op)
        self.p(n.sub)

    def p_post(self, n):
        self.p(n.sub)
        self.w(n.op)

    def p_bin(self, n):
        self.p(n.l)
        self.w(n.op)
        self.p(n.r)

    p_asn = p_bin

    def p_comma(self, n):
        self.p(n.l)
        self.w(",")
        self.p(n.r)

    def p_cond(self, n):
        self.p(n.c)
        self.w("?")
        self.p(n.t)
        self.w(":")
        self.p(n.f_)

    def p_elvis(self, n):
        self.p(n.c)
        self.w("?", ":")
        self.p(n.f_)

    def p_call(self, n):
        self.p(n.fn)
        self.w("(")
        self.sep(n.args)
        self.w(")")

    def p_sub(self, n):
        self.p(n.arr)
        self.w("[")
        self.p(n.idx)
        self.w("]")

    def p_mem(self, n):
        self.p(n.base)
        self.w(n.op, n.name)

    def p_cast(self, n):
        self.w("(", *n.ty, ")")
        self.p(n.sub)

    def p_cxxcast(self, n):
        self.w(n.how, "<", *n.ty, ">", "(")
        self.p(n.sub)
        self.w(")")

    def p_delete(self, n):
        self.w("delete", *(["[", "]"] if n.arr else []))
        self.p(n.sub)

    def p_sizeof(self, n):
        self.w("sizeof")
        self.p(n.sub)

    def p_msg(self, n):
        self.w("[")
        self.p(n.recv)
        if not n.args:
            self.w(n.sel[0])
        else:
            for s, a in zip(n.sel, n.args):
                self.w(s, ":")
                self.p(a)
        self.w("]")

    def p_lambda(self, n):
        self.w("[", n.cap, "]", "(", *n.params, ")")
        if n.ret:
            self.w("->", "int")
        self.p(n.body)

    def p_block(self, n):
        self.w("^", "(", *(n.params or ["void"]), ")")
        self.p(n.body)

    def p_sexpr(self, n):
        self.w("(")
        self.p(n.body)
        self.w(")")

    def p_throw(self, n):
        self.w("throw")
        if n.sub:
            self.p(n.sub)

    def p_cvar(self, n):
        self.w("int", n.name, "=")
        self.p(n.init)

    # statements
    def p_compound(self, n):
        self.w("{")
        for s in n.body:
            self.p(s)
        self.w("}")

    def p_if(self, n):
        self.w("if")
        if n.cexpr:
            self.w("constexpr")
        self.w("(")
        if n.init:
            self.p(n.init)
        self.p(n.cond)
        self.w(")")
        self.p(n.then)
        if n.els:
            self.w("else")
            self.p(n.els)

    def p_while(self, n):
        self.w("while", "(")
        self.p(n.cond)
        self.w(")")
        self.p(n.body)

    def p_do(self, n):
        self.w("do")
        self.p(n.body)
        self.w("while", "(")
        self.p(n.cond)
        self.w(")")
        self.semi(n)

    def p_for(self, n):
        self.w("for", "(")
        if n.init is None:
            self.w(";")
        elif n.init.kind == "decls":
            self.p(n.init)
        else:
            self.p(n.init)
            self.w(";")
        if n.cond:
            self.p(n.cond)
        self.w(";")
        if n.inc:
            self.p(n.inc)
        self.w(")")
        self.p(n.body)

    def p_rfor(self, n):
        self.w("for", "(", *n.ty)
        n.vtok = self.w(n.var)
        self.w(":")
        self.p(n.range)
        self.w(")")
        self.p(n.body)

    def p_forin(self, n):
        self.w("for", "(")
        if n.decl:
            self.w("id")
        n.vtok = self.w(n.var)
        self.w("in")
        self.p(n.range)
        self.w(")")
        self.p(n.body)

    def p_switch(self, n):
        self.w("switch", "(")
        self.p(n.cond)
        self.w(")")
        self.p(n.body)

    def p_case(self, n):
        self.w("case")
        self.p(n.value)
        if n.hi is not None:
            self.w("...")
            self.p(n.hi)
        self.w(":")
        self.p(n.sub)

    def p_default(self, n):
        self.w("default", ":")
        self.p(n.sub)

    def p_break(self, n):
        self.w("break")
        self.semi(n)

    def p_continue(self, n):
        self.w("continue")
        self.semi(n)

    def p_return(self, n):
        self.w("return")
        if n.sub:
            self.p(n.sub)
        self.semi(n)

    def p_goto(self, n):
        self.w("goto", n.label)
        self.semi(n)

    def p_label(self, n):
        self.w(n.name, ":")
        self.p(n.sub)

    def p_null(self, n):
        self.w(";")

    def p_exprs(self, n):
        self.p(n.sub)
        self.semi(n)

    def p_decls(self, n):
        self.w(*n.ty)
        for k, v in enumerate(n.vars):
            if k:
                self.w(",")
            self.p(v)
        self.w(";")

    def p_var(self, n):
        self.w(*n.pre)
        n.tok = self.w(n.name)
        self.w(*n.post)
        if n.init:
            self.w("=")
            self.p(n.init)

    def p_try(self, n):
        self.w("try")
        self.p(n.body)
        for c in n.catches:
            self.p(c)

    def p_catch(self, n):
        self.w("catch", "(")
        self.w(*n.param)
        self.w(")")
        self.p(n.body)

    def p_attry(self, n):
        self.w("@try")
        self.p(n.body)
        for c in n.catches:
            self.p(c)
        if n.fin:
            self.p(n.fin)

    def p_atcatch(self, n):
        self.w("@catch", "(", *n.param, ")")
        self.p(n.body)

    def p_atfinally(self, n):
        self.w("@finally")
        self.p(n.body)

    def p_atsync(self, n):
        self.w("@synchronized", "(")
        self.p(n.cond)
        self.w(")")
        self.p(n.body)

    def p_atpool(self, n):
        self.w("@autoreleasepool")
        self.p(n.body)

    def p_atthrow(self, n):
        self.w("@throw")
        if n.sub:
            self.p(n.sub)
        self.semi(n)


IDC = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$\"'@.")
# pairs that must not be glued
PUNCT = set("+-*/%&|^<>=!:#.~?")


def glue_ok(a, b):
    if a[-1] in IDC and b[0] in IDC:
        return False
    if a[-1] in PUNCT and b[0] in PUNCT:
        return False
    if a[-1] in PUNCT and b[0] == "." or a[-1] == "." and b[0].isdigit():
        return False
    if a == "@" or b == "@":
        return False
    if a == "[" and b in ("[", "]") or a == "]" and b == "]":
        return False
    if a == "<" and b[0] == ":":
        return False
    return True


COMMENTS = ["/* c */", "/* if (x) { } */", "/**/", "// c\n", "// return; //\n", "/* a\n b */", "//! OCLINT\n", "/* // */", "/*! doc */", "/// d\n"]


def balanced(tokens):
    n = 0
    for t in tokens:
        if '"' in t or "'" in t:
            continue
        for ch in t:
            n += (ch == "(") - (ch == ")")
            if n < 0:
                return False
    return n == 0


def macros(tokens, src, bodies):
    """Runs of tokens come from object-like macros, from arguments of macros, or between the braces or parentheses a macro writes.

    A token of a macro's own text has the place of the macro's use, a token of an argument its own place.
    """
    n = len(tokens)
    free = [not (t.startswith("#") or "\n" in t or "//" in t) for t in tokens]
    match, stack = {}, []
    for i, t in enumerate(tokens):
        if t in ("(", "{", "["):
            stack.append(i)
        elif t in (")", "}", "]") and stack:
            match[stack.pop()] = i
    defs, out, pos, far = [], [], [None] * n, {}
    st = {"line": 1, "col": 1, "prev": None, "used": set()}
    body = set()

    def put(s):
        out.append(s)
        if "\n" in s:
            st["line"] += s.count("\n")
            st["col"] = len(s.encode()) - s.encode().rindex(b"\n")
        else:
            st["col"] += len(s.encode())

    def sep(t):
        prev = st["prev"]
        if prev is None:
            return
        if prev.startswith("#") or prev.endswith("\n"):
            put("" if prev.endswith("\n") else "\n")
        elif t.startswith("#"):
            put("\n")
        elif prev[-1] in "{};" and src.byte() < 180:
            put("\n")
        else:
            put("" if src.byte() < 40 and glue_ok(prev, t) else " ")

    def word(t):
        sep(t)
        at = (st["line"], st["col"])
        put(t)
        st["prev"] = t
        return at

    def use(name, body, params=""):
        if name not in st["used"]:
            st["used"].add(name)
            defs.append(f"#define {name}{params} {body}\n")
        return name

    def emit(i, j, d):
        while i < j:
            k = src.byte()
            if k >= 90 or not free[i]:
                pos[i] = word(tokens[i])
                i += 1
                continue
            e = match.get(i)
            if k % 4 == 0 and d < 4 and e is not None and e < j and tokens[i] != "[" and all(free[i:e + 1]) and balanced(tokens[i:e + 1]):
                # the macro's own brackets
                m = use("QB", "{ __VA_ARGS__ }", "(...)") if tokens[i] == "{" else use("QP", "( __VA_ARGS__ )", "(...)")
                pos[i] = pos[e] = word(m)
                word("(")
                emit(i + 1, e, d + 1)
                far[e] = word(")")
                i = e + 1
                continue
            if k % 4 == 1:
                # nothing
                word(use("QE", ""))
                pos[i] = word(tokens[i])
                i += 1
                continue
            e = min(j, i + 1 + src.n(6)) if i not in match or src.byte() & 1 else min(j, match[i] + 1)
            while e > i + 1 and not all(free[i:e]):
                e -= 1
            if k % 4 == 2 and bodies and (not d or balanced(tokens[i:e])):
                m = f"Q{len(defs)}"
                defs.append(f"#define {m} {' '.join(tokens[i:e])}\n")
                at = word(m)
                body.update(range(i, e))
                pos[i:e] = [at] * (e - i)
                i = e
                continue
            while e > i and not balanced(tokens[i:e]):
                e -= 1
            if e == i or d >= 4:
                pos[i] = word(tokens[i])
                i += 1
                continue
            word(use("QI", "__VA_ARGS__", "(...)"))
            word("(")
            emit(i, e, d + 1)
            word(")")
            i = e

    emit(0, n, 0)
    out.append("\n")
    n = len(defs)
    return "".join(defs + out), [(l + n, c) for l, c in pos], {e: (l + n, c) for e, (l, c) in far.items()}, body


def layout(tokens, src, style):
    """Text and the (line, column) of every token.

    style 0: one space; 1: tight; 2: wild; 3: a token per line; 4: lines broken after braces and semicolons;
    5: parts of the program are written with macros; 6: with macros that contain none of the tokens but brackets.
    """
    out, pos, line, col = [], [], 1, 1
    prev = None
    for t in tokens:
        s = ""
        if prev is not None:
            if prev.startswith("#") or prev.endswith("\n"):
                s = "" if prev.endswith("\n") else "\n"
            elif style == 0:
                s = " "
            elif style == 1:
                s = "" if glue_ok(prev, t) else " "
            elif style == 3:
                s = "\n"
            elif style == 4:
                s = "\n" if prev[-1] in "{};" else " "
            else:
                k = src.byte()
                if k < 100:
                    s = " "
                elif k < 130:
                    s = "" if glue_ok(prev, t) else " "
                elif k < 170:
                    s = "\n"
                elif k < 190:
                    s = "\t"
                elif k < 205:
                    s = "\n  "
                elif k < 215:
                    s = " \\\n "
                elif k < 225:
                    s = "\r\n"
                else:
                    s = " " + COMMENTS[k % len(COMMENTS)] + " "
        if t.startswith("#") and (not s.endswith("\n")) and prev is not None and not prev.endswith("\n"):
            s += "\n"
        out.append(s)
        for ch in s:
            if ch == "\n":
                line, col = line + 1, 1
            else:
                col += 1
        pos.append((line, col))
        out.append(t)
        if "\n" in t:
            line += t.count("\n")
            col = len(t) - t.rindex("\n")
        else:
            col += len(t.encode())
        prev = t
    out.append("\n")
    return "".join(out), pos


# ---------------------------------------------------------------- generation

class Gen:
    """Statements and expressions; W overrides weights, lang is c, cpp or m (mm)."""

    def __init__(self, src, lang, **opt):
        self.s, self.lang = src, lang
        self.cpp = lang in ("cpp", "mm")
        self.objc = lang in ("m", "mm")
        self.uid = 0
        self.o = {"depth": 5, "stmts": 5, "edepth": 3, "lambda": 1, "sexpr": 1, "exc": 1, "goto": 1, "decl": 1, "switch": 1, "loops": 1,
                  "rfor": 1, "label": 1, "enum": 0, "throw": 0, "shadow": 0, "cvar": 1, "cvarif": 1, "tmp": 1, "extraw": 3, "xextraw": 3, "extra": [], "xextra": [], "ifinit": 0, "unbraced": 1, "nulls": 1, "logic": 3, "paren": 1, "asn": 1, "comma": 1, "post": 1,
                  "lits": ["1", "0", "2", "7", "0x10", "42u", "'c'", "3L"], "binops": ["+", "-", "*", "==", "!=", "<", ">", "<=", ">=", "&", "|", "^", "<<", ">>"],
                  "unops": ["!", "-", "~", "+"]}
        self.o.update(opt)
        self.scopes = [["ga", "gb", "gc"]]
        self.loop = self.brk = 0
        self.ret = "int"
        self.labels = []
        self.nojump = self.catching = 0

    def fresh(self, p):
        self.uid += 1
        return f"{p}{self.uid}"

    # -- expressions of int type

    def name(self):
        return self.s.pick([v for sc in self.scopes for v in sc][-6:])

    def leaf(self):
        k = self.s.n(8)
        if k < 4:
            return N("ref", name=self.name())
        if k < 6:
            return N("lit", v=self.s.pick(self.o["lits"]))
        if k == 6:
            if self.cpp and self.o["tmp"] and self.s.n(4) == 3:      # a temporary with a destructor
                return N("raw", toks=["Tm", "(", "1", ")", ".", "v"])
            return N("call", fn=N("ref", name="f0"), args=[])
        return N("sub", arr=N("ref", name="arr"), idx=N("lit", v="1"))

    def expr(self, d=None):
        d = self.o["edepth"] if d is None else d
        s = self.s
        if d <= 0 or s.left() == 0:
            return self.leaf()
        o = self.o
        k = s.weigh([(6, "leaf"), (5, "bin"), (o["logic"], "logic"), (2, "un"), (2, "cond"), (2 * o["paren"], "paren"), (2, "call"), (1, "cast"),
                     (1, "elvis"), (o["asn"], "asn"), (o["comma"], "comma"), (o["lambda"], "lambda"), (o["sexpr"], "sexpr"), (o["post"], "post"), (1, "sizeof"),
                     (o["xextraw"] if o["xextra"] else 0, "xextra")])
        if k == "xextra":
            return s.pick(o["xextra"])(self, d)
        if k == "bin":
            op = s.pick(o["binops"])
            q = BPREC[op]
            return N("bin", op=op, l=par(self.expr(d - 1), q), r=par(self.expr(d - 1), q + 1))
        if k == "logic":
            op = s.pick(["&&", "||"])
            q = BPREC[op]
            return N("bin", op=op, l=par(self.expr(d - 1), q), r=par(self.expr(d - 1), q + 1))
        if k == "un":
            op = s.pick(o["unops"])
            e = self.expr(d - 1)
            return N("un", op=op, sub=par(e, 16))
        if k == "cond":
            return N("cond", c=par(self.expr(d - 1), 4), t=par(self.expr(d - 1), 2), f_=par(self.expr(d - 1), 3))
        if k == "elvis":
            return N("elvis", c=par(self.expr(d - 1), 4), f_=par(self.expr(d - 1), 3))
        if k == "paren":
            return N("paren", sub=self.expr(d - 1))
        if k == "call":
            return N("call", fn=N("ref", name="f1"), args=[par(self.expr(d - 1), 2)])
        if k == "cast":
            return N("cast", ty=["int"], sub=par(self.expr(d - 1), 16))
        if k == "asn":
            return N("paren", sub=N("asn", op=s.pick(["=", "+=", "|="]), l=N("ref", name=self.name()), r=par(self.expr(d - 1), 2)))
        if k == "comma":
            return N("paren", sub=N("comma", l=par(self.expr(d - 1), 2), r=par(self.expr(d - 1), 2)))
        if k == "post":
            return N("post", op=s.pick(["++", "--"]), sub=N("ref", name=self.name()))
        if k == "sizeof":
            return N("cast", ty=["int"], sub=N("sizeof", sub=N("paren", sub=N("ref", name="ga"))))
        if k == "lambda" and (self.cpp or self.objc) and d > 1:
            return self.closure()
        if k == "sexpr" and d > 1:
            self.nojump += 1
            save = self.loop, self.brk
            self.loop = self.brk = 0
            self.scopes.append([])
            body = self.stmts(s.n(3), self.o["depth"] - 3)
            body.append(N("exprs", sub=self.leaf()))
            self.scopes.pop()
            self.loop, self.brk = save
            self.nojump -= 1
            return N("sexpr", body=N("compound", body=body))
        return self.leaf()

    def closure(self):
        save = self.loop, self.brk, self.ret, self.labels, self.scopes
        self.loop, self.brk, self.ret, self.labels = 0, 0, "int", []
        # a block may not assign captured variables: only globals inside
        self.scopes = [["ga", "gb", "gc"], []]
        body = self.stmts(self.s.n(3), self.o["depth"] - 2)
        body.append(N("return", sub=self.leaf()))
        self.loop, self.brk, self.ret, self.labels, self.scopes = save
        b = N("compound", body=body)
        if self.cpp:
            return N("call", fn=N("lambda", cap="&", params=[], ret=True, body=b), args=[])
        # the block's return type: every return gives an int expression
        for r in b.walk():
            if r.kind == "return" and r.sub is not None:
                r.sub = N("cast", ty=["int"], sub=par(r.sub, 16))
        return N("call", fn=N("block", params=[], body=b), args=[])

    def cond(self, var=False):
        if var and self.cpp and self.o["cvar"] and self.s.n(8) == 7:
            v = self.fresh("cv")
            n = N("cvar", name=v, init=self.leaf())
            self.scopes[-1].append(v)
            return n
        return self.expr()

    # -- statements

    def simple(self):
        """A statement without sub-statements that is no declaration."""
        s = self.s
        k = s.n(8)
        if k < 3:
            return N("exprs", sub=N("asn", op="=", l=N("ref", name=self.name()), r=par(self.expr(2), 2)))
        if k < 5:
            return N("exprs", sub=N("call", fn=N("ref", name="f1"), args=[par(self.expr(2), 2)]))
        if k == 5 and self.o["nulls"]:
            return N("null")
        if k == 6:
            return N("exprs", sub=par(self.expr(2), 1))
        return N("exprs", sub=N("call", fn=N("ref", name="v0"), args=[]))

    def decl(self):
        s = self.s
        vs = []
        for _ in range(1 + (s.n(8) == 7) + (s.n(16) == 15)):
            v = self.fresh("lv")
            init = par(self.expr(2), 2) if s.n(3) else None
            vs.append(N("var", pre=[], name=v, post=[], init=init))
            self.scopes[-1].append(v)
        return N("decls", ty=["int"], vars=vs)

    def block(self, d):
        self.scopes.append([])
        save, self.labels = self.labels, list(self.labels)
        b = N("compound", body=self.stmts(self.s.n(self.o["stmts"]), d - 1))
        self.labels = save
        self.scopes.pop()
        return b

    def sub(self, d, indecl=False):
        """A controlled statement: mostly a block."""
        if self.o["unbraced"] and self.s.n(4) == 3:
            self.scopes.append([])
            save, self.labels = self.labels, list(self.labels)
            x = self.stmt(d - 1, False)
            self.labels = save
            self.scopes.pop()
            return x
        return self.block(d)

    def stmts(self, k, d):
        return [self.stmt(d, True) for _ in range(k)]

    def stmt(self, d, decl_ok):
        s, o = self.s, self.o
        if d <= 0 or s.left() == 0:
            return self.leaf_stmt(decl_ok)
        k = s.weigh([(4, "simple"), (6, "if"), (2 * o["loops"], "while"), (o["loops"], "do"), (2 * o["loops"], "for"), (o["rfor"], "rfor"),
                     (2 * o["switch"], "switch"), (2, "block"), (3, "leaf"), (o["exc"], "exc"), (o["exc"], "objc"), (o["label"], "label"),
                     (o["extraw"] if o["extra"] else 0, "extra")])
        if k == "extra":
            return s.pick(o["extra"])(self, d)
        if k == "if":
            self.scopes.append([])
            init = None
            if o["ifinit"] and self.cpp and s.n(6) == 5:
                init = self.decl()
            c = self.cond(o["cvarif"])
            then = self.sub(d)
            els = None
            if s.n(3) == 2:
                els = self.sub(d)
                if then.kind in STMTS and dangling(then):
                    then = N("compound", body=[then])
            self.scopes.pop()
            return N("if", cexpr=False, init=init, cond=c, then=then, els=els)
        if k in ("while", "do", "for", "rfor"):
            self.scopes.append([])
            self.loop += 1
            self.brk += 1
            r = self.loopstmt(k, d)
            self.loop -= 1
            self.brk -= 1
            self.scopes.pop()
            return r
        if k == "switch":
            return self.switch(d)
        if k == "block":
            return self.block(d)
        if k == "exc":
            if self.cpp:
                cs = []
                for j in range(1 + s.n(2)):
                    cs.append(N("catch", param=[["int"], ["..."]][j] if j else s.pick([["int"], ["int", self.fresh("ex")]]), body=self.block(d)))
                return N("try", body=self.block(d), catches=cs)
            return self.leaf_stmt(decl_ok)
        if k == "objc":
            if not self.objc:
                return self.leaf_stmt(decl_ok)
            j = s.n(4)
            if j == 0:
                return N("atsync", cond=N("ref", name="ob"), body=self.block(d))
            if j == 1:
                return N("atpool", body=self.block(d))
            self.catching += 1
            cs = [N("atcatch", param=s.pick([["id", self.fresh("ex")], ["id"]]), body=self.block(d)) for _ in range(s.n(2))]
            self.catching -= 1
            fin = None
            if not cs or s.n(2):
                self.nojump += 1
                fin = N("atfinally", body=self.block(d))
                self.nojump -= 1
            return N("attry", body=self.block(d), catches=cs, fin=fin)
        if k == "label":
            if self.nojump:
                return self.leaf_stmt(decl_ok)
            n = self.fresh("lb")
            self.labels.append(n)
            return N("label", name=n, sub=N("null"))
        if k == "simple":
            return self.simple()
        return self.leaf_stmt(decl_ok)

    def loopstmt(self, k, d):
        s = self.s
        if k == "while":
            return N("while", cond=self.cond(True), body=self.sub(d))
        if k == "do":
            return N("do", body=self.sub(d), cond=self.cond())
        if k == "rfor" and self.cpp:
            v = self.fresh("rv")
            self.scopes[-1].append(v)
            return N("rfor", ty=s.pick([["int"], ["auto"], ["int", "&"]]), var=v, range=N("ref", name="arr"), body=self.sub(d))
        if k == "rfor" and self.objc:
            own = s.n(4) == 3          # a variable of the loop's own, or one that exists
            return N("forin", decl=not own, var="obv" if own else self.fresh("fv"), range=N("ref", name="ob"), body=self.sub(d))
        init = cond = inc = None
        j = s.n(4)
        if j == 1:
            init = N("asn", op="=", l=N("ref", name=self.name()), r=N("lit", v="0"))
        elif j > 1:
            init = self.decl()
        if s.n(4):
            cond = self.cond(True)
        if s.n(4):
            inc = N("post", op="++", sub=N("ref", name=self.name()))
        return N("for", init=init, cond=cond, inc=inc, body=self.sub(d))

    def switch(self, d):
        s = self.s
        enum = self.o["enum"] and s.n(3) > 0
        self.scopes.append([])
        c = N("ref", name="ge") if enum else self.cond(True)
        names = ["EA", "EB", "EC"]
        self.brk += 1
        labs = list(self.labels)
        body, val, used_default = [], 0, False
        if s.n(12) == 11:
            body.append(self.simple())
        for _ in range(s.n(5)):
            heads = []
            for _ in range(1 + (s.n(4) == 3)):
                if not used_default and s.n(5) == 4:
                    heads.append(None)
                    used_default = True
                elif enum:
                    if names:
                        i = s.n(len(names))
                        j = i + (s.n(6) == 5) * s.n(3)
                        run = ["EA", "EB", "EC"]
                        run = run[run.index(names[i]):][:1 + j - i]
                        if len(run) > 1 and all(x in names for x in run):
                            heads.append((run[0], run[-1]))
                        else:
                            run = [names[i]]
                            heads.append(names[i])
                        for x in run:
                            names.remove(x)
                else:
                    heads.append((val, val + 2) if s.n(8) == 7 else val)
                    val += 3
            if not heads:
                break
            st = self.stmt(d - 1, False)
            for h in reversed(heads):
                st = N("default", sub=st) if h is None else N("case", value=N("lit", v=str(h[0])), hi=N("lit", v=str(h[1])), sub=st) if isinstance(h, tuple) else \
                    N("case", value=N("lit", v=str(h)), hi=None, sub=st)
            body.append(st)
            for _ in range(s.n(3)):
                body.append(self.stmt(d - 1, False))
            if s.n(2):
                body.append(N("break"))
        self.scopes.pop()
        self.brk -= 1
        if c.kind == "cvar":
            self.labels = labs
        return N("switch", cond=c, body=N("compound", body=body), enum=bool(enum))

    def thrown(self):
        k = self.s.n(6)
        return None if k == 5 else N("raw", toks=["Tm", "(", "1", ")"]) if k == 4 else self.leaf()

    def leaf_stmt(self, decl_ok):
        s, o = self.s, self.o
        k = s.n(8)
        if k == 1 and decl_ok and o["decl"]:
            return self.decl()
        if k == 2 and self.brk:
            return N("break")
        if k == 3 and self.loop:
            return N("continue")
        if k == 4:
            return N("return", sub=par(self.expr(2), 1) if self.ret == "int" else o["bools"](self) if self.ret == "bool" else None)
        if k == 6 and o["throw"]:
            if self.cpp and not self.objc:
                return N("exprs", sub=N("throw", sub=self.thrown()))
            if self.objc:
                return N("atthrow", sub=None if self.catching and s.n(2) else N("ref", name="ob"))
        if k == 5 and self.labels and not self.nojump and o["goto"]:
            return N("goto", label=s.pick(self.labels))
        return self.simple()


def dangling(s):
    """Would an else after s attach to an if inside s?"""
    while True:
        if s.kind == "if":
            if s.els is None:
                return True
            s = s.els
        elif s.kind in ("while", "for", "rfor", "forin"):
            s = s.body
        elif s.kind in ("case", "default", "label"):
            s = s.sub
        else:
            return False


PRELUDE = {
    "c": "enum En { EA, EB, EC };\nextern enum En ge;\nextern int ga, gb, gc, arr[4];\nint f0(void);\nint f1(int);\nvoid v0(void);\n",
    "cpp": "enum En { EA, EB, EC };\nextern enum En ge;\nextern int ga, gb, gc, arr[4];\nint f0();\nint f1(int);\nvoid v0();\nstruct Tm { Tm(int); ~Tm(); int v; };\n",
    "m": "enum En { EA, EB, EC };\nextern enum En ge;\nextern int ga, gb, gc, arr[4];\nint f0(void);\nint f1(int);\nvoid v0(void);\n"
         "@protocol NSFastEnumeration\n- (unsigned long)countByEnumeratingWithState:(void *)a objects:(id *)b count:(unsigned long)c;\n@end\n"
         "__attribute__((objc_root_class)) @interface Coll <NSFastEnumeration>\n@end\nextern Coll *ob;\nextern id obv;\n",
}
PRELUDE["mm"] = PRELUDE["m"] + "struct Tm { Tm(int); ~Tm(); int v; };\n"
FLAGS = {"c": ["-std=gnu11"], "cpp": ["-std=c++17", "-fcxx-exceptions", "-fexceptions"],
         "m": ["-std=gnu11", "-fblocks", "-fobjc-exceptions", "-fexceptions"],
         "mm": ["-std=c++17", "-fblocks", "-fobjc-exceptions", "-fexceptions", "-fcxx-exceptions"]}


class Program:
    """One source file under construction: declarations with spans."""

    def __init__(self, lang):
        self.lang = lang
        self.pr = Printer(lang)
        self.text = None

    def w(self, *ts):
        return self.pr.w(*ts)

    def p(self, n):
        self.pr.p(n)

    def here(self):
        return self.pr.o.here()

    def finish(self, src, style):
        self.far, self.body = {}, set()
        if style >= 5:
            self.text, self.pos, self.far, self.body = macros(self.pr.o.t, src, style == 5)
        else:
            self.text, self.pos = layout(self.pr.o.t, src, style)

    def first(self, n):
        return self.pos[n.b]

    def last(self, n):
        return self.pos[self.pr.last(n)]

    def at(self, tok):
        return self.pos[tok]
