"""C30: unused local variables, unused parameters and reassigned parameters."""
from metrics import *
from decls import Rec

FILES = ["UnusedLocalVariableRule", "UnusedMethodParameterRule", "ParameterReassignmentRule"]
NEEDS = dict(rules=FILES, reporters=[])
RULE = ("generated C, C++ and Objective-C functions, methods, closures and classes whose variables share few names in nested scopes; the complete list of "
        "violations of the three rules, with messages and positions, against the uses recorded while the text was written (non-trivial: something is reported)")
NAMES = ["va", "vb", "vc", "vd", "ve", "pa", "pb"]
REC = "struct St { int fx; };\nextern struct St gs;\nint f0();\nint f1(int);\nextern int ga, arr[4];\n"
GUARD = "struct Guard { int x; };\n"
CPPG = ("struct Guard { Guard(int = 0); ~Guard(); int x; };\nnamespace ns { struct Guard { Guard(int = 0); ~Guard(); int x; }; }\ntypedef ns::Guard Typed;\n"
        "namespace std { template<class T> struct lock_guard { lock_guard(T); ~lock_guard(); };\ntemplate<class T> struct unique_lock { unique_lock(T); ~unique_lock(); };\n"
        "template<class T> struct scoped { scoped(T); ~scoped(); }; }\ntemplate<class T> struct Own { Own(int); ~Own(); };\n")
OBJC = "@interface Root\n+ (int)gm:(int)x;\n- (int)gi:(int)x;\n@end\n@protocol Pq\n- (int)iq:(int)x;\n@end\n@interface Any : Root\n+ (int)cm:(int)x;\n- (int)im:(int)x;\n@end\n@interface Any (More)\n- (int)ca:(int)x;\n@end\n@protocol Pr <Pq>\n+ (int)cp:(int)x;\n- (int)ip:(int)x;\n@end\nextern Any *ob;\n"
PRE = {"c": REC + GUARD, "cpp": REC + CPPG, "m": REC + GUARD + OBJC, "mm": REC + CPPG + OBJC}
GUARDS = {"c": [("struct Guard", "Guard")], "cpp": [("Guard", "Guard"), ("ns :: Guard", "ns::Guard"), ("Typed", "ns::Guard"), ("const ns :: Guard", "ns::Guard"),
          ("std :: lock_guard < int >", "std::lock_guard"), ("std :: unique_lock < int >", "std::unique_lock"), ("std :: scoped < int >", "std::scoped"),
          ("Own < Guard >", "Own"), ("Own < std :: lock_guard < int > >", "Own")]}
GUARDS["m"], GUARDS["mm"] = GUARDS["c"], GUARDS["cpp"]
CUSTOM = ["", "Guard", "ns::Guard", "ns::Guard,Guard", "Other; ns::Guard", "Own\tOther", " Guard ,, std::scoped ", "Guar", "ns::Guardian;lock_guard", "ns::Guard;Guard", "Other;Own", "x\tstd::scoped;Guard"]
DEFAULT = [None, None, None, "none", "Own", "std::lock_guard", "Guard"]


class Scope(dict):
    ban = ()


class Uses:
    """Writes a program; vs: the variables, with what is known of their uses; asn: the assignments to parameters."""

    def __init__(self, src, lang):
        self.s, self.lang = src, lang
        self.cpp, self.objc = lang in ("cpp", "mm"), lang in ("m", "mm")
        self.P = Program(lang)
        self.t = self.P.pr.o
        self.P.flags = (["-fobjc-runtime=macosx-10.15", "-fblocks"] if self.objc else []) + (["-std=c++17"] if self.cpp else [])
        self.vs, self.asn, self.k, self.tmpl, self.cap = [], [], 0, False, []
        self.scopes = [Scope()]
        for _ in range(1 + src.n(4)):
            self.top()
            if not src.left():
                break

    def w(self, *ts):
        return self.t.w(*[x for t in ts for x in t.split(" ")])

    def here(self):
        return self.t.here()

    def uid(self, p):
        self.k += 1
        return f"{p}{self.k}"

    # -- variables and scopes

    def fresh(self):
        """A name not yet declared in this scope."""
        free = [n for n in NAMES if n not in self.scopes[-1] and n not in self.scopes[-1].ban]
        return self.s.pick(free) if free else self.uid("vz")

    def add(self, name, ty="int", **f):
        f.setdefault("kind", "local")
        v = Rec(name=name, ty=ty, refs=0, b=None, e=None, depth=len(self.cap), **f)
        self.scopes[-1][name] = v
        self.vs.append(v)
        return v

    def visible(self):
        seen = {}
        for sc in reversed(self.scopes):
            if sc is None:
                break
            for n, v in sc.items():
                seen.setdefault(n, v)
        # a closure that captures only some variables sees no others of the outside
        out = []
        for v in seen.values():
            ok = True
            for q in range(v.depth, len(self.cap)):
                c = self.cap[q]
                if getattr(v, "nocap", False):
                    ok = False
                if c.kind == "list" and v not in c.vs and not v.ty == "static":
                    ok = False
            if ok:
                out.append(v)
        return out

    def writable(self, v):
        return not v.ty == "const" and all(self.cap[q].kind == "ref" or v.ty == "static" or getattr(v, "blk", 0) for q in range(v.depth, len(self.cap)))

    def push(self):
        self.scopes.append(Scope())

    def pop(self):
        self.scopes.pop()

    # -- expressions (each can stand as an operand)

    def read(self, v):
        v.refs += 1
        if v.ty == "ptr":
            self.w(*self.s.pick([["*", v.name], ["(", v.name, "!=", "0", ")"]]))
        elif v.ty == "st":
            self.w(v.name, ".", "fx")
        elif v.ty in ("obj", "arr", "fun"):
            self.w("(", v.name, "!=", "0", ")")
        elif v.ty == "guard":
            self.w("(", "&", v.name, "!=", "0", ")")
        else:
            self.w(v.name)

    def expr(self, d=2):
        s, w = self.s, self.w
        vis = self.visible()
        k = s.n(18) if d > 0 and s.left() else s.n(5)
        if k < 1 or not vis and k < 11:
            return w(s.pick(["0", "1", "ga"]))
        if k < 6:
            return self.read(s.pick(vis))
        v = s.pick(vis) if vis else None
        if k == 6:
            v.refs += 1
            return w("(", "int", ")", "sizeof", "(", v.name, ")") if v.ty != "fun" else w("(", v.name, "!=", "0", ")")
        if k == 7 and v.ty == "int" and self.writable(v):
            w("(")
            self.assign(v, d)
            return w(")")
        if k == 8 and v.ty == "int" and self.writable(v):
            v.refs += 1
            return w("(", v.name, s.pick(["+=", "-=", "^="]), "1", ")")
        if k == 9 and v.ty == "int" and self.writable(v):
            v.refs += 1
            return w("(", v.name, s.pick(["++", "--"]), ")")
        if k == 10 and self.cpp and v.ty == "int" and not self.tmpl:
            v.refs += 1
            return w("(", "int", ")", "sizeof", "(", "decltype", "(", v.name, ")", ")")
        if k == 11:
            w("f1", "(")
            self.expr(d - 1)
            return w(")")
        if k == 12 and self.infn and not self.cap:
            w("(", "{")
            self.push()
            if self.cpp:
                self.scopes[-1].ban = tuple(self.scopes[-2])
            self.decl(d - 1)
            self.expr(d - 1)
            self.pop()
            return w(";", "}", ")")
        if k == 13 and self.infn and not self.tmpl and (self.cpp or self.objc):
            return self.closure(d - 1)
        if k == 14:
            w("(")
            self.expr(d - 1)
            w("?")
            self.expr(d - 1)
            w(":")
            self.expr(d - 1)
            return w(")")
        w("(")
        self.expr(d - 1)
        w(s.pick(["+", "&&", "==", "|"]))
        self.expr(d - 1)
        return w(")")

    def assign(self, v, d):
        s, w = self.s, self.w
        v.refs += 1
        b = self.here()
        kind = s.n(5)
        if v.ty == "int":
            if kind == 4:
                w("(", v.name, ")", "=")
            else:
                w(v.name, "=")
            self.expr(d - 1)
        elif v.ty == "ptr":
            if kind < 2:
                w("*", v.name, "=")
                self.expr(d - 1)
                return
            w(v.name, "=", "0")
        elif v.ty == "st":
            w(v.name, ".", "fx", "=")
            self.expr(d - 1)
            return
        elif v.ty == "obj":
            w(v.name, "=", "ob")
        if v.kind == "param" and v.reass:
            self.asn.append((b, self.here() - 1))

    def closure(self, d, call=True):
        """A lambda or block expression, called at once if that is asked for."""
        s, w = self.s, self.w
        if self.cpp and (not self.objc or s.n(2)):
            vis = [v for v in self.visible() if v.ty in ("int", "ptr", "const") and v.kind in ("local", "param", "cparam") and not v.static]
            c = Rec(kind=s.pick(["ref", "copy", "list"]), vs=[])
            w("[")
            if c.kind == "list":
                for v in vis[:s.n(3)]:
                    if c.vs:
                        w(",")
                    v.refs += 1
                    c.vs.append(v)
                    w(v.name)
            else:
                w("&" if c.kind == "ref" else "=")
            w("]")
        else:
            w("^")
            c = Rec(kind="copy", vs=[])
        self.cap.append(c)
        self.push()
        self.scopes[-1].ban = tuple(v.name for v in c.vs)
        w("(")
        n = s.n(3) if not call else 0
        for q in range(n):
            if q:
                w(",")
            b = w("int")
            v = self.add(self.fresh(), "const", kind="cparam", static=False)
            v.b, v.e = b, w(v.name)
        w(")")
        w("{")
        for _ in range(s.n(3)):
            self.stmt(d - 1)
        w("return")
        self.expr(d - 1)
        e = w(";", "}")
        self.pop()
        self.cap.pop()
        return w("(", ")") if call else e

    # -- declarations

    infn, ctor = 0, False

    def decl(self, d, semi=True, init=True):
        s, w = self.s, self.w
        b = self.here()
        k = s.n(12)
        static = False
        if k == 9 and semi:
            w("static")
            static = True
            init = False
        elif k == 10:
            w("const")
        elif k == 11 and self.lang == "m" and not self.cap:
            w("__block")
        w("int")
        for q in range(1 + (s.n(4) == 3) + (s.n(8) == 7)):
            if q:
                w(",")
            j = s.n(8)
            name = self.fresh()
            more = dict(static=static, blk=k == 11 and self.lang == "m" and not self.cap)
            if j == 5:
                v = self.add(name, "ptr", static=static)
                v.b = b
                w("*")
                v.e = w(name)
                if k == 10:
                    v.ty = "arr"            # a pointer to const: only compared
            elif j == 6 and not (self.cap or k == 11):
                v = self.add(name, "arr", static=static, nocap=True)
                v.b = b
                w(name, "[", "2")
                v.e = w("]")
                if k == 10:
                    v.e = w("=", "{", "}")
            elif j == 7 and not (self.cap or k in (9, 10, 11)):
                v = self.add(name, "fun", static=static)
                v.b = b
                w("(", "*", name, ")", "(", "int")
                if s.n(2):
                    w("named")
                v.e = w(")")
            else:
                v = self.add(name, "const" if k == 10 else "int", **more)
                v.b = b
                v.e = w(name)
                if k == 10 or init and s.n(3):
                    if self.cpp and s.n(6) == 5:
                        w("{", "0")
                        v.e = w("}")
                    else:
                        w("=")
                        if static:
                            w("0")
                        else:
                            self.expr(d - 1)
                        v.e = self.here() - 1
        if semi:
            w(";")

    def special(self, d):
        """Declarations of other kinds."""
        s, w = self.s, self.w
        k = s.n(9)
        b = self.here()
        if k == 0:
            ty, name = s.pick(GUARDS[self.lang])
            w(*ty.split(" "))
            ptr = s.n(5) == 4 and "<" not in ty      # what a pointer to a listed template is, is left open
            v = self.add(self.fresh(), "arr" if ptr else "guard", static=False, guard=None if ptr else name)
            v.b = b
            if ptr:
                w("*")
            v.e = w(v.name)
            if self.cpp and not ptr:
                v.e = w("(", "1", ")") if s.n(2) or "std" in ty or "Own" in ty else v.e
            w(";")
        elif k == 1:
            w("int", self.uid("lf"), "(", "int", "named", ")", ";")
        elif k == 2:
            w("typedef", "int", "(", "*", self.uid("td"), ")", "(", "int", "named", ")", ";")
        elif k == 3:
            w("extern", "int")
            v = self.add(self.uid("ve"), "int", static=True, kind="local")
            v.ty = "static"
            v.b, v.e = b, w(v.name)
            w(";")
        elif k == 4:
            w("struct", "St")
            v = self.add(self.fresh(), "st", static=False)
            v.b, v.e = b, w(v.name)
            w(";")
        elif k == 5 and self.cpp and not self.cap:
            w("int", self.uid("rr"), "[", "2", "]", ";")
            name = f"rr{self.k}"
            v = self.add(name, "arr", static=False, nocap=True)
            v.b, v.e, v.refs = b, self.here() - 2, 1
            n1, n2 = self.uid("sb"), self.uid("sb")
            w("auto", "[", n1, ",", n2, "]", "=", name, ";")
        elif k == 6 and (self.cpp or self.objc) and not self.tmpl:
            w("__auto_type" if self.objc and not self.cpp else "auto")
            v = self.add(self.uid("cl"), "arr", static=False)
            self.scopes[-1].pop(v.name)
            v.b = b
            w(v.name, "=")
            v.e = self.closure(d - 1, call=False)
            w(";")
            if s.n(2):
                w("(", "void", ")", v.name, ";")
                v.refs += 1
        elif k == 7 and self.cpp and not self.tmpl:
            self.localclass(d)
        elif k == 8 and not (self.cap or self.tmpl):
            w("int")
            name = self.uid("vl")
            w(name, "[")
            self.expr(0)
            v = self.add(name, "arr", static=False, nocap=True)
            v.b = b
            v.e = w("]")
            w(";")
        else:
            self.decl(d)

    def localclass(self, d):
        s, w = self.s, self.w
        w("struct", self.uid("Lc"), "{")
        cap, self.cap = self.cap, []
        self.scopes.append(None)
        ctor, self.ctor = self.ctor, False
        for _ in range(1 + s.n(2)):
            self.method_inclass(d)
        self.scopes.pop()
        self.cap, self.ctor = cap, ctor
        w("}", ";")

    def method_inclass(self, d):
        s, w = self.s, self.w
        w(*s.pick([[], ["static"], ["virtual"]]))
        w("int", self.uid("me"))
        self.push()
        self.params(False)
        w(*s.pick([[], ["noexcept"]]))
        self.body(d)
        self.pop()

    # -- statements

    def body(self, d):
        """{ ... } in the scope of the parameters."""
        self.infn += 1
        self.w("{")
        for _ in range(self.s.n(5)):
            self.stmt(d - 1)
        self.w("}")
        self.infn -= 1

    def block(self, d, under=False):
        """under: the names of the scope around it cannot be declared anew in C++."""
        self.w("{")
        self.push()
        if under and self.cpp:
            self.scopes[-1].ban = tuple(self.scopes[-2])
        for _ in range(self.s.n(4)):
            self.stmt(d - 1)
        self.pop()
        self.w("}")

    def stmt(self, d):
        s, w = self.s, self.w
        if d <= 0 or not s.left():
            self.expr(1)
            w(";")
            return
        k = s.n(16)
        if k < 3:
            self.decl(d)
        elif k < 5:
            self.special(d)
        elif k == 5:
            vs = [v for v in self.visible() if v.ty in ("int", "ptr", "st", "obj") and self.writable(v)]
            if vs:
                self.assign(s.pick(vs), 2)
            else:
                w("f0", "(", ")")
            w(";")
        elif k == 6:
            self.push()
            w("if", "(")
            if self.cpp and s.n(2):
                if s.n(3) == 2:
                    self.decl(2, init=True)
                    self.expr(1)
                else:
                    b = w("int")
                    v = self.add(self.fresh(), static=False)
                    v.b = b
                    w(v.name, "=")
                    self.expr(1)
                    v.e = self.here() - 1
                    v.refs += 1
            else:
                self.expr(1)
            w(")")
            self.block(d, True)
            if s.n(2):
                w("else")
                self.block(d, True)
            self.pop()
        elif k == 7:
            self.push()
            w("for", "(")
            if s.n(4):
                self.decl(2, semi=False)
            w(";")
            if s.n(2):
                self.expr(1)
            w(";")
            if s.n(2):
                self.expr(1)
            w(")")
            self.block(d, True)
            self.pop()
        elif k == 8 and self.cpp:
            self.push()
            w("for", "(")
            b = w("int")
            v = self.add(self.fresh(), static=False)
            v.b = b
            w(v.name)
            v.e = w(":")
            w("arr", ")")
            self.block(d, True)
            self.pop()
        elif k == 8 and self.objc:
            self.push()
            w("for", "(")
            b = w("id")
            v = self.add(self.fresh(), "arr", static=False)
            v.b, v.e = b, w(v.name)
            w("in", "ob", ")")
            self.block(d, True)
            self.pop()
        elif k == 9 and self.cpp:
            w("try")
            self.block(d)
            w("catch", "(")
            self.push()
            b = w("int")
            v = self.add(self.fresh(), static=False)
            v.b, v.e = b, w(v.name)
            w(")")
            self.block(d, True)
            self.pop()
        elif k in (10, 11):
            self.block(d)
        elif k == 12 and not self.cap and not self.ctor:
            w("return")
            self.expr(2)
            w(";")
        else:
            self.expr(2)
            w(";")

    # -- functions

    def params(self, report, proto=False, attrs=True):
        """( parameters ), declared in the innermost scope."""
        s, w = self.s, self.w
        w("(")
        n = s.n(4)
        if not n and not self.cpp:
            w("void")
        for q in range(n):
            if q:
                w(",")
            self.param(report, proto, attrs)
        w(")")

    def param(self, report, proto=False, attrs=True):
        s, w = self.s, self.w
        b = self.here()
        k = s.n(12)
        unused = attrs and k == 9
        if unused and self.cpp and s.n(2):
            w("[[", "maybe_unused", "]]")
            unused = False
            exempt = True
        else:
            exempt = unused
        if k == 10 and (self.cpp or proto):
            w("int")
            return
        if k == 8:
            w("struct", "St")
        else:
            w("int")
        ty = {8: "st", 7: "ptr"}.get(k, "int")
        if k == 6:
            w("(", "*")
            v = self.add(self.fresh(), "fun", kind="param", report=report, reass=False, static=False, exempt=exempt)
            w(v.name, ")", "(", "int", "named")
            v.b, v.e = b, w(")")
            if proto:
                self.vs.remove(v)
            return
        if k == 7:
            w("*")
        if k == 5 and self.cpp:
            w("&")
        v = self.add(self.fresh(), ty, kind="param", report=report, reass=True, static=False, exempt=exempt)
        v.b, v.e = b, w(v.name)
        if k == 4 and ty == "int":
            w("[")
            v.e = w("]")
            v.ty = "ptr"
        if unused:
            w("__attribute__", "(", "(", "unused", ")", ")")
        if proto:
            self.vs.remove(v)

    def function(self):
        s, w = self.s, self.w
        k = s.n(10)
        f = self.uid("fn")
        tmpl = k == 1 and self.cpp
        ns = k == 2 and self.cpp
        if tmpl:
            w("template", "<", "class", "TT", ">")
        if ns:
            w(*s.pick([["namespace", self.uid("nn")], ["extern", '"C"'], ["namespace"]]), "{")
        if s.n(4) == 3:
            w("static")
        w("int", f)
        self.push()
        if k == 3:
            self.params(False, proto=True)
            w(*s.pick([[";"], [";"], ["=", "delete", ";"]] if self.cpp else [[";"]]))
        else:
            self.tmpl = tmpl
            self.tmplocal = tmpl
            lo = len(self.vs)
            self.params(not tmpl)
            self.body(4)
            if tmpl:
                for v in self.vs[lo:]:
                    v.exempt = True
            self.tmpl = False
        self.pop()
        if ns:
            w("}")

    def pointers(self):
        s, w = self.s, self.w
        w(*s.pick([["typedef"], ["extern"], ["static"]]))
        w("int", "(", "*", self.uid("gp"), ")", "(", "int", "named", ",", "int", ")", ";")

    def klass(self):
        s, w = self.s, self.w
        name = self.uid("Kl")
        tmpl = s.n(5) == 4
        if tmpl:
            w("template", "<", "class", "TT", ">")
        base = s.n(3) == 2
        if base and not tmpl:
            # a base class with virtual methods to override
            bn = self.uid("Ba")
            w("struct", bn, "{", "virtual", "int", "ov", "(", "int", "named", ")", ";", "int", "nv", "(", "int", "named", ")", ";", "}", ";")
        w("struct", name)
        if base and not tmpl:
            w(":", bn)
        w("{", "int", "fx", ";")
        late = []
        for _ in range(1 + s.n(4)):
            k = s.n(8)
            if k < 2:
                self.method_inclass(4)
            elif k == 2 and not late and not tmpl:
                w(name, "(", "int", ",", "int", ")", ";")
                late.append(([name, "::", name], True, "ctor"))
            else:
                f = self.uid("me")
                virt = s.n(4) == 3
                stat = not virt and s.n(4) == 3
                if virt:
                    w("virtual")
                if stat:
                    w("static")
                w("int", f, "(", "int", ",", "int", "*", "named", ")", ";")
                late.append((["int", name, "::", f] if not tmpl else ["int", name, "<", "TT", ">", "::", f], not virt, "m"))
        if base and not tmpl:
            w("int", "ov", "(", "int", ")", ";")
            w("int", "nv", "(", "int", ")", ";")
        if s.n(3) == 2:
            w("friend")
            w("int", self.uid("ff"))
            self.push()
            self.params(False)
            self.body(3)
            self.pop()
        w("}", ";")
        if base and not tmpl:
            late += [(["int", name, "::", "ov"], False, "one"), (["int", name, "::", "nv"], True, "one")]
        for head, report, kind in late:
            if tmpl:
                w("template", "<", "class", "TT", ">")
            w(*head, "(")
            self.push()
            for q in range(1 if kind == "one" else 2):
                if q:
                    w(",")
                b = w("int")
                ptr = q == 1 and kind == "m"
                if ptr:
                    w("*")
                v = self.add(self.fresh(), "ptr" if ptr else "int", kind="param", report=report, reass=True, static=False, exempt=False)
                v.b, v.e = b, w(v.name)
            w(")")
            if kind == "ctor" and s.n(2):
                w(":", "fx", "(")
                self.expr(1)
                w(")")
            self.tmpl, self.ctor = tmpl, kind == "ctor"
            self.body(4)
            self.tmpl = self.ctor = False
            self.pop()

    def objclass(self):
        s, w = self.s, self.w
        name = self.uid("Oc")
        proto = s.n(2)
        w("@interface", name, ":", "Any")
        if proto:
            w("<", "Pr", ">")
        cat = not proto and s.n(3) == 2
        if s.n(2):
            w("-", "(", "int", ")", "own", ":", "(", "int", ")", "named", ";")
        w("@end")
        if cat:
            w("@interface", name, "(", "Ca", ")", "<", "Pr", ">", "@end")
        incat = cat and s.n(2)
        w("@implementation", name)
        if incat:
            w("(", "Ca", ")")
        done = set()
        for _ in range(1 + s.n(4)):
            k = s.n(13)
            sel, cls = [("own", 0), ("im", 0), ("im", 1), ("cm", 1), ("cm", 0), ("ip", 0), ("cp", 1), ("act", 0), ("gm", 1), ("gi", 0), ("gi", 1), ("iq", 0), ("ca", 0)][k]
            over = (sel, cls) in (("im", 0), ("cm", 1), ("gm", 1), ("gi", 0), ("ca", 0)) or (proto or cat) and (sel, cls) in (("ip", 0), ("cp", 1), ("iq", 0))
            two = s.n(4) == 3
            if two:
                sel += "2"
                over = False
            if (sel, cls) in done:
                continue
            done.add((sel, cls))
            w("+" if cls else "-", "(", "int", ")", sel)
            self.push()
            for q in range(1 + two):
                if q:
                    w("and")
                w(":", "(")
                b = w("int")
                w(")")
                v = self.add(self.fresh(), "int", kind="param", report=not over, reass=True, static=False, exempt=False)
                v.b, v.e = b, w(v.name)
            self.body(4)
            self.pop()
        w("@end")

    def top(self):
        k = self.s.n(12)
        if k < 7:
            self.function()
        elif k == 7:
            self.pointers()
        elif self.cpp and (not self.objc or k < 10):
            self.klass()
        elif self.objc:
            self.objclass()
        else:
            self.function()


class Unused(Sub):
    name = "unused"
    quick, thorough = 900, 15000

    def strategy(self):
        return program_strategy(["c", "cpp", "m", "mm"], custom=st.one_of(st.none(), st.sampled_from(CUSTOM)), default=st.sampled_from(DEFAULT))

    def test(self, ctx, case):
        g = Uses(Src(bytes.fromhex(case["b"])), case["lang"])
        P = g.P
        P.finish(Src(bytes.fromhex(case["lay"])), case["style"])
        P.base = PRE[P.lang].count("\n")
        args, skip = [], set()
        for key, v, dflt in (("RAII_CUSTOM_CLASSES", case["custom"], ""), ("RAII_DEFAULT_CLASSES", case["default"], "std::lock_guard, std::unique_lock")):
            if v is not None:
                args += ["-rc", f"{key}={v}"]
            for x in (dflt if v is None else v).replace(",", " ").replace(";", " ").split():
                skip.add(x)
        want, n = [], set()

        def at(b, e):
            return (P.base + P.at(b)[0], P.at(b)[1], P.base + P.at(e)[0], P.at(e)[1])
        for v in g.vs:
            if v.refs or getattr(v, "exempt", False):
                continue
            if v.kind == "local":
                if getattr(v, "guard", None) in skip:
                    n.add("guard")
                    continue
                want.append(("unused local variable", f"The local variable '{v.name}' is unused.") + at(v.b, v.e))
            elif v.kind == "param" and v.report:
                want.append(("unused method parameter", f"The parameter '{v.name}' is unused.") + at(v.b, v.e))
        for b, e in g.asn:
            want.append(("parameter reassignment", "") + at(b, e))
        rep, path, text = write_run(ctx, ctx.inst(rules=FILES), P, case, args, prelude=PRE[P.lang])
        got = [(v.rule, v.msg, v.sl, v.sc, v.el, v.ec) for v in rep.violations if v.sl > P.base]
        diff_multiset(got, set(want), f"{P.lang} {args}\n{text}\n")
        return sorted({w[0] for w in want} | n)


def subs(tier):
    return [Unused()]
