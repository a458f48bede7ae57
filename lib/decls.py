"""Generated programs rich in declarations: variables, parameters, functions, classes, with the token spans of each."""
from mini import *

LENS = [1, 2, 3, 4, 5, 8, 12, 19, 20, 21, 22, 29, 30, 31, 32, 40]


class Rec:
    def __init__(self, **f):
        self.__dict__.update(f)

    def __repr__(self):
        return repr(self.__dict__)


class Decls:
    """Writes the program; records vars, fns, classes."""

    def __init__(self, src, lang, lens=None):
        self.s, self.lang = src, lang
        self.cpp, self.objc = lang in ("cpp", "mm"), lang in ("m", "mm")
        self.P = Program(lang)
        self.t = self.P.pr.o
        self.vars, self.fns, self.classes, self.n, self.lens = [], [], [], 0, lens or LENS
        self.used = set()
        self.P.flags = ["-fobjc-runtime=macosx-10.15"] if self.objc else []
        for _ in range(1 + src.n(4)):
            self.top()
            if not src.left():
                break
        self.P.vars, self.P.fns, self.P.classes = self.vars, self.fns, self.classes

    # -- tokens and names

    def w(self, *ts):
        return self.t.w(*ts)

    def here(self):
        return self.t.here()

    def uid(self, p):
        self.n += 1
        return f"{p}{self.n}z"

    def name(self):
        """A fresh variable name of a length from lens."""
        s, want = self.s, self.s.pick(self.lens)
        self.n += 1
        c = str(self.n)
        if want == 1:
            for ch in "abcdeghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSUVWXYZ":
                if ch not in self.used:
                    self.used.add(ch)
                    return ch
            want = 3
        first = "v" if self.n < 10 or want > 2 else chr(97 + self.n // 10 % 26)
        if want == 2:
            r = first + c[-1]
            if r not in self.used and r not in ("f0", "f1", "v0"):
                self.used.add(r)
                return r
            want = 4
        pad = want - 1 - len(c)
        r = "v" + ("x" * pad if pad > 0 else "") + c
        return r

    def var(self, b, name, e, exempt=False, **more):
        self.vars.append(Rec(name=name, b=b, e=e, exempt=exempt, **more))

    # -- declarations of variables

    def declarator(self, b, exempt=False, init=True, kind=None, **more):
        s, w = self.s, self.w
        n = self.name()
        r = Rec(name=n, b=b, e=None, exempt=exempt, **more)
        self.vars.append(r)
        k = s.n(8) if kind is None else kind
        if k == 5:
            w("*")
            r.e = w(n)
            return r
        if k == 6:
            w(n, "[", "2")
            r.e = w("]")
            return r
        if k == 7:
            w("(", "*", n, ")", "(")
            if s.n(2):
                w("int")
            elif not self.cpp:
                w("void")
            r.e = w(")")
            return r
        r.e = w(n)
        if init and s.n(3):
            w("=")
            r.e = self.value()
        return r

    def value(self):
        """An int constant or expression; returns its last token."""
        s = self.s
        k = s.n(6) if self.infn else 0
        if k == 4:
            return self.w("f0", "(", ")")
        if k == 5 and s.left():
            self.w("(", "{", "int")
            r = self.declarator(self.here() - 1, init=False, kind=0)
            self.w(";", r.name, "=", "1", ";", r.name, ";", "}")
            return self.w(")")
        return self.w(s.pick(["1", "0", "22"]))

    infn = ns = 0

    def decl(self, pre=(), exempt=False, init=True, semi=True, **more):
        s = self.s
        b = self.here()
        self.w(*pre, "int")
        r, k = None, 0
        for k in range(1 + (s.n(4) == 3) + (s.n(8) == 7)):
            if k:
                self.w(",")
            r = self.declarator(b, exempt, init, **more)
        if k == 0 and semi and not exempt:
            r.single = True
        if semi:
            self.w(";")

    def params(self, method=False, proto=False, most=4):
        """Parameters in parentheses; returns their number."""
        s, w = self.s, self.w
        n = s.n(most + 1)
        if s.n(10) == 9:
            n += 9
        w("(")
        if n == 0 and not self.cpp:
            w("void")
        for k in range(n):
            if k:
                w(",")
            b = self.here()
            w("int")
            j = s.n(8)
            if (proto or self.cpp) and j == 7:
                continue                       # unnamed
            r = Rec(name=self.name(), b=b, e=None, exempt=False, param=True)
            self.vars.append(r)
            if j == 6:
                w("*")
            r.e = w(r.name)
            if j == 5:
                w("[")
                r.e = w("]")
        if n and s.n(8) == 7:
            w(",", "...")
        w(")")
        return n

    # -- statements

    def block(self, d=3):
        """{ statements }; returns the span."""
        b = self.w("{")
        for _ in range(self.s.n(4)):
            self.stmt(d - 1)
        return b, self.w("}")

    def stmt(self, d):
        s, w = self.s, self.w
        if d <= 0 or not s.left():
            w("f0", "(", ")", ";")
            return
        k = s.n(13)
        if k < 2:
            self.decl()
        elif k == 2:
            self.decl(pre=s.pick([["static"], ["extern"], ["volatile"]]), init=False)
        elif k in (3, 4):
            w("for", "(")
            j = s.n(5)
            if j == 0:
                w(";")
            else:
                self.decl(exempt=True)
            w(";")
            w(")")
            self.block(d)
        elif k == 5 and self.cpp:
            w("for", "(")
            b = self.here()
            w(*s.pick([["int"], ["auto"], ["int", "&"]]))
            n = self.name()
            w(n)
            e = w(":")             # where the compiler puts the end of such a variable
            w("arr")
            self.var(b, n, e, True)
            w(")")
            self.block(d)
        elif k == 5 and self.objc:
            w("for", "(")
            b = w("id")
            n = self.name()
            e = w(n)
            self.var(b, n, e, True)
            w("in", "ob", ")")
            self.block(d)
        elif k == 6 and self.cpp:
            w("try")
            self.block(d)
            while True:
                w("catch", "(")
                ty = s.pick([["int"], ["int", "*"], ["int", "&"], ["const", "int", "&"], ["char", "const", "*"], ["unsigned"], ["long", "*", "const"], ["float"]])
                b = w(*ty)
                if len(ty) > 1:
                    b -= len(ty) - 1
                if s.n(4):
                    n = self.name()
                    self.var(b, n, w(n), True)
                w(")")
                self.block(d)
                if s.n(4) != 3:
                    break
        elif k == 6 and self.objc:
            w("@try")
            self.block(d)
            w("@catch", "(")
            b = w("id")
            if s.n(3):
                w(self.name())         # the visitor does not look there
            w(")")
            self.block(d)
        elif k == 7:
            w("if", "(")
            if self.cpp and s.n(2):
                b = w("int")
                r = Rec(name=self.name(), b=b, e=None, exempt=False)
                self.vars.append(r)
                w(r.name, "=")
                r.e = self.value()
            else:
                w("ga")
            w(")")
            self.block(d)
        elif k == 8:
            self.block(d)
        elif k == 9 and self.cpp:
            b = w("auto")
            r = Rec(name=self.name(), b=b, e=None, exempt=False)
            self.vars.append(r)
            w(r.name, "=", "[")
            for q in range(s.n(3) if s.n(3) == 2 else 0):
                if q:
                    w(",")
                c = Rec(name=self.name(), b=self.here(), e=None, exempt=False)
                self.vars.append(c)
                w(c.name, "=")
                c.e = self.value()
            w("]")
            self.params(most=2)
            r.e = self.block(d)[1]
            w(";")
        elif k == 9 and self.objc:
            w("bl", "(", "^", "(")
            b = w("int")
            n = self.name()
            self.var(b, n, w(n))
            w(")")
            self.block(d)
            w(")", ";")
        elif k == 10:
            self.record()
        else:
            w("f0", "(", ")", ";")

    # -- functions

    def body(self, b, n, incls=False):
        self.infn += 1
        bb, e = self.block(4)
        self.infn -= 1
        self.fns.append(Rec(b=b, e=e, bb=bb, n=n, incls=incls))

    def function(self):
        s, w = self.s, self.w
        f = self.uid("fn")
        k = s.n(8)
        b = self.here()
        if k == 1:
            w("int", f)
            self.params(proto=True)
            w(";")
            return
        if k == 2 and self.cpp:
            w("template", "<", "typename", "TT", ">")
            b = self.here()
        if k == 3 and self.cpp:
            w("namespace", self.uid("ns"), "{")
            b = self.here()
        w(*s.pick([[], ["static"], ["static", "inline"]]))
        w("void", f)
        n = self.params()
        if k == 4 and self.cpp:
            w("noexcept")
        self.body(b, n)
        if k == 3 and self.cpp:
            w("}")

    # -- records

    def record(self, depth=2):
        """struct, class or union, definition or forward declaration."""
        s, w = self.s, self.w
        name = self.uid("Cls")
        fwd = s.n(6) == 5
        tmpl = self.cpp and not self.infn and s.n(8) == 7
        kind = s.pick(["struct", "class", "union"]) if self.cpp and not tmpl else "struct"
        if fwd:
            if tmpl:
                w("template", "<", "typename", "TT", ">")
            w(kind, name, ";")
        if tmpl:
            w("template", "<", "typename", "TT", ">")
        spec = tmpl and s.n(4) == 3
        part = spec and s.n(2)
        if spec:
            w("struct", name, ";")
            w("template", "<", *(["typename", "TT"] if part else []), ">")
        b = self.here()
        if spec:
            b -= 5 if part else 3
        anon = not tmpl and s.n(8) == 7 and kind != "class"
        r = Rec(kind="C++ class", b=b, e=None, nf=0, nm=0)
        if self.cpp:
            self.classes.append(r)
        w(kind, *([] if anon else [name]))
        if spec:
            w("<", *(["TT", "*"] if part else ["long"]), ">")
        w("{")
        if kind == "class":
            w("public", ":")
        self.members(r, name, anon, kind, depth, tmpl)
        r.e = w("}")
        if anon or s.n(6) == 5 and not tmpl and not r.ctor:
            n = self.name()
            self.var(b, n, w(n))
        w(";")
        if s.n(6) == 5 and not tmpl and not anon:
            w(kind, name, ";")
        if self.cpp and not self.infn:
            for q, head in r.late:
                b = self.here()
                w(*head[:-1], name, "::", head[-1])
                n = self.params_fixed(q)
                self.body(b, n)
        return r

    def params_fixed(self, n):
        w = self.w
        w("(")
        for k in range(n):
            if k:
                w(",")
            b = w("int")
            nm = self.name()
            self.var(b, nm, w(nm))
        w(")")
        return n

    def members(self, r, name, anon, kind, depth, tmpl):
        s, w = self.s, self.w
        r.late = []
        r.ctor = ctor = set()
        if not self.cpp:
            w("int", self.uid("fd"), ";")
        for _ in range(s.n(7)):
            k = s.n(14)
            if k < 4 or not self.cpp:
                if self.cpp and not anon and kind != "union" and "c" not in ctor and s.n(8) == 7:
                    ctor.add("c")          # no constructor: the reference would have to be initialized
                    w("int", "&", self.uid("fd"), ";")
                    r.nf += 1
                    continue
                m = 1 + s.n(3)
                if s.n(12) == 11:
                    m += 19
                w("int")
                for q in range(m):
                    if q:
                        w(",")
                    j = s.n(9)
                    if j < 8:
                        w(self.uid("fd"))
                    if j > 6:
                        w(":", "3")
                w(";")
                r.nf += m
            elif k == 4 and kind != "union" and not anon and not self.infn:
                b = w("static")
                w("int")
                n = self.name()
                self.var(b, n, w(n))
                w(";")
            elif k == 5 and depth and not anon:
                self.nested(depth)
            elif k == 6 and depth:
                self.anonymous(r, depth, name)
            elif k in (7, 8) and not anon:
                b = self.here()
                j = s.n(8)
                if j == 7 and "o" not in ctor:
                    ctor.add("o")
                    w("operator", "void", "(", ")")
                    n = 0
                else:
                    w("void", *(["operator", "(", ")"] if j == 6 and "p" not in ctor else [self.uid("me")]))
                    if j == 6:
                        ctor.add("p")
                    n = self.params()
                w(*s.pick([[], ["const"]]))
                self.body(b, n, True)
                r.nm += 1
            elif k == 9 and not anon:
                m = 1 + (s.n(12) == 11) * 29
                for _ in range(m):
                    w(*s.pick([["int"], ["void"]]), self.uid("me"))
                    self.params(proto=True, most=2)
                    w(*s.pick([[], [], [], ["=", "delete"]]), ";")
                    r.nm += 1
            elif k == 10 and not anon and kind != "union":
                q = s.n(4)
                f = self.uid("me")
                w("void", f)
                self.params_fixed(q)
                w(";")
                r.nm += 1
                if not tmpl:
                    r.late.append((q, ["void", f]))
            elif k == 11 and not anon and "c" not in ctor:
                ctor.add("c")
                b = self.here()
                w(name)
                n = self.params()
                if s.n(2):
                    self.body(b, n, True)
                else:
                    w(";")
                r.nm += 1
            elif k == 12 and not anon and "d" not in ctor and kind != "union":
                ctor.add("d")
                b = self.here()
                w(*s.pick([[], ["virtual"]]), "~", name, "(", ")")
                if s.n(2):
                    self.body(b, 0, True)
                else:
                    w("=", "default", ";")
                r.nm += 1
            elif k == 13 and not anon and not self.infn:
                w("friend")
                b = self.here() - 1
                w("void", self.uid("fr"))
                n = self.params()
                self.body(b, n)
            else:
                w("int", self.uid("fd"), ";")
                r.nf += 1

    def nested(self, depth):
        save = self.infn
        self.infn = save or 0
        s = self.s
        r = Rec(kind="C++ class", b=self.here(), e=None, nf=0, nm=0)
        self.classes.append(r)
        name = self.uid("Cls")
        self.w("struct", name, "{")
        self.members(r, name, True, "struct", depth - 1, False)
        r.e = self.w("}")
        self.w(";")

    def anonymous(self, outer, depth, name):
        r = Rec(kind="C++ class", b=self.here(), e=None, nf=0, nm=0)
        self.classes.append(r)
        self.w("union", "{")
        for _ in range(1 + self.s.n(3)):
            self.w("int", self.uid("fd"), ";")
            r.nf += 1
        r.e = self.w("}")
        self.w(";")
        outer.nf += 1

    # -- Objective-C

    def objc_class(self):
        s, w = self.s, self.w
        name, prot = self.uid("Cls"), self.uid("Pro")
        if s.n(4) == 3:
            w("@class", name, ";")
        if s.n(4) == 3:
            w("@protocol", prot, ";")
        if s.n(4) == 3:
            b = w("@protocol")
            w(prot)
            self.methods(s.n(4), [])
            self.classes.append(Rec(kind="Objective-C protocol", b=b, e=w("@end"), nf=0, nm=0))
        b = self.here()
        w("__attribute__", "(", "(", "objc_root_class", ")", ")")
        b = w("@interface")
        w(name)
        r = Rec(kind="Objective-C interface", b=b, e=None, nf=0, nm=0)
        self.classes.append(r)
        if s.n(2):
            w("{")
            for _ in range(s.n(5)):
                if s.n(4) == 3:
                    w(s.pick(["@private", "@public", "@protected"]))
                m = 1 + s.n(3) + (s.n(12) == 11) * 18
                w("int")
                for q in range(m):
                    if q:
                        w(",")
                    w(self.uid("iv"))
                    r.nf += 1
                w(";")
            w("}")
        props = []
        for _ in range(s.n(3)):
            pn = self.uid("pr")
            how = s.pick([[], ["(", "assign", ")"], ["(", "readonly", ")"]])
            w("@property", *how, "int", pn, ";")
            props.append((pn, 1 if "readonly" in how else 2))
        decl = []
        self.methods(s.n(4), decl)
        r.e = w("@end")
        if s.n(4) == 3:
            b = w("@interface")
            w(name, "(", ")")
            c = Rec(kind="Objective-C category", b=b, e=None, nf=0, nm=0)
            self.classes.append(c)
            if s.n(2):
                w("{", "int", self.uid("iv"), ";", "}")
            self.methods(s.n(2), decl)
            c.e = w("@end")
        if s.n(2):
            self.implementation(name, [], decl, props)
        if s.n(4) == 3:
            b = w("@interface")
            cat = self.uid("Cat")
            w(name, "(", cat, ")")
            cd = []
            self.methods(s.n(4), cd)
            self.classes.append(Rec(kind="Objective-C category", b=b, e=w("@end"), nf=0, nm=0))
            if s.n(2):
                self.implementation(name, ["(", cat, ")"], cd, [])

    def sig(self, head, n, sel):
        w = self.w
        w(head, "(", "int", ")", sel)
        if n:
            for k in range(n):
                if k:
                    w(f"w{k}")
                w(":", "(")
                b = w("int")
                w(")")
                nm = self.name()
                self.var(b, nm, w(nm))
        return n

    def methods(self, k, out):
        s = self.s
        for _ in range(k):
            m = (s.pick(["-", "+"]), s.n(4) + (s.n(12) == 11) * 9, self.uid("me"))
            self.sig(*m)
            self.w(";")
            out.append(m)

    def implementation(self, name, cat, decl, props):
        s, w = self.s, self.w
        b = w("@implementation")
        w(name, *cat)
        r = Rec(kind="Objective-C implementation", b=b, e=None, nf=0, nm=0)
        self.classes.append(r)
        if not cat and s.n(4) == 3:
            w("{", "int", self.uid("iv"), ";", "}")
        for p, accessors in props:
            r.nm += accessors             # synthesized, asked for or not
            if s.n(3) == 2:
                w("@synthesize", p, "=", "_" + p, ";")
        extra = [(s.pick(["-", "+"]), s.n(3), self.uid("me")) for _ in range(s.n(3) + (s.n(12) == 11) * 29)]
        for m in decl + extra:
            b = self.here()
            n = self.sig(*m)
            self.body(b, n)
            r.nm += 1
        if s.n(4) == 3:
            self.function()
        r.e = w("@end")

    # -- top

    def top(self):
        s, w = self.s, self.w
        k = s.n(8)
        if k < 3:
            self.function()
        elif k == 3:
            self.decl(pre=s.pick([[], ["static"], ["extern"], ["const"]]) if not self.cpp else s.pick([[], ["static"], ["extern"]]), init=False)
        elif k == 4 and self.cpp:
            w("namespace", self.uid("ns"), "{")
            self.ns += 1
            self.top()
            self.ns -= 1
            w("}")
        elif self.objc and k > 5 and not self.ns:
            self.objc_class()
        else:
            self.record()


DPRELUDE = {k: v + "void bl(void (^b)(int));\n" if k in ("m", "mm") else v for k, v in PRELUDE.items()}
