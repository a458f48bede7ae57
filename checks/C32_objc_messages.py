"""C32: Objective-C literals and subscripts to migrate to, feature envy, assignments to instance variables."""
from metrics import *
from decls import Rec

FILES = ["ObjCBoxedExpressionsRule", "ObjCContainerLiteralsRule", "ObjCNSNumberLiteralsRule", "ObjCObjectSubscriptingRule", "FeatureEnvyRule",
         "ObjCAssignIvarOutsideAccessorsRule"]
NEEDS = dict(rules=FILES, reporters=[])
RULE = ("generated Objective-C methods and functions of messages, properties, instance variables and assignments; the complete list of violations of the six "
        "rules, with messages and positions, against what was recorded while the text was written (non-trivial: something is reported)")
KL = ["Ka", "Kb", "Kc"]
STUB = """typedef signed char BOOL;
enum En { EA, EB };
@interface NSObject
+ (id)new; - (id)init; - (int)sv;
@end
@class NSArray, NSDictionary;
@interface NSNumber : NSObject
+ (NSNumber *)numberWithChar:(char)v; + (NSNumber *)numberWithInt:(int)v; + (NSNumber *)numberWithUnsignedInt:(unsigned)v;
+ (NSNumber *)numberWithLong:(long)v; + (NSNumber *)numberWithUnsignedLong:(unsigned long)v; + (NSNumber *)numberWithLongLong:(long long)v;
+ (NSNumber *)numberWithUnsignedLongLong:(unsigned long long)v; + (NSNumber *)numberWithFloat:(float)v; + (NSNumber *)numberWithDouble:(double)v;
+ (NSNumber *)numberWithBool:(BOOL)v; + (NSNumber *)numberWithShort:(short)v; + (NSNumber *)numberWithFlag:(BOOL)v;
@end
@interface Num : NSNumber
@end
@interface NSString : NSObject
+ (id)stringWithUTF8String:(const char *)s; + (id)stringWithCString:(const char *)s;
@end
@interface NSArray : NSObject
+ (id)array; + (id)arrayWithObject:(id)o; + (id)arrayWithObjects:(id)o, ...; + (id)arrayWithObjects:(id *)o count:(int)n; + (id)arrayWithArray:(id)a;
- (id)objectAtIndex:(int)i; - (id)objectAtIndexedSubscript:(int)i; - (id)firstObject; - (int)indexOfObject:(id)o;
@end
@interface NSMutableArray : NSArray
- (void)replaceObjectAtIndex:(int)i withObject:(id)o; - (void)setObject:(id)o atIndexedSubscript:(int)i; - (void)addObject:(id)o;
@end
@interface NSDictionary : NSObject
+ (id)dictionary; + (id)dictionaryWithObject:(id)o forKey:(id)k; + (id)dictionaryWithObjects:(id *)o forKeys:(id *)k count:(int)n;
+ (id)dictionaryWithObjectsAndKeys:(id)o, ...; + (id)dictionaryWithObjects:(id)o forKeys:(id)k; + (id)dictionaryWithDictionary:(id)d;
- (id)objectForKey:(id)k; - (id)objectForKeyedSubscript:(id)k; - (id)allKeys;
@end
@interface NSMutableDictionary : NSDictionary
- (void)setObject:(id)o forKey:(id)k; - (void)setObject:(id)o forKeyedSubscript:(id)k; - (void)removeObjectForKey:(id)k;
@end
@class Ka, Kb, Kc;
""" + "".join(f"""@interface {k} : NSObject {{ @public int _iva; int ivb; int iv_c_; }}
@property int pa; @property (class) int pc; - (Ka *)toA; - (Kb *)toB; - (Kc *)toC; - (int)val; - (int)val:(int)x; - (int)val:(int)x and:(int)y;
+ (Ka *)mkA; + (Kb *)mkB; + (Kc *)mkC; + (int)num; + (int)num:(int)x;
@end
""" for k in KL) + """extern Ka *ka; extern Kb *kb; extern Kc *kc; extern id idv, idarr[2]; extern Class cls; extern int ga, gb; extern unsigned gu; extern long gl;
extern unsigned long gul; extern long long gll; extern unsigned long long gull; extern float gf; extern double gd; extern char gch; extern BOOL gbo;
extern char *chp; extern const char *cchp; char *fch(int); const char *fcch(int); extern NSArray *arr; extern NSMutableArray *marr;
extern NSDictionary *dic; extern NSMutableDictionary *mdic; extern NSNumber *nsn; extern Num *numv; extern NSString *nst;
"""
GLOB = {"Ka": "ka", "Kb": "kb", "Kc": "kc"}
NUMT = [("Char", "gch", None), ("Int", "ga", ""), ("UnsignedInt", "gu", "u"), ("Long", "gl", "l"), ("UnsignedLong", "gul", "ul"), ("LongLong", "gll", "ll"),
        ("UnsignedLongLong", "gull", "ull"), ("Float", "gf", ".5f"), ("Double", "gd", ".5"), ("Bool", "gbo", None), ("Flag", "gbo", None), ("Short", "ga", None)]
METHODS = ["doIt", "iva", "setIva:", "ivb", "setIvb:", "ivc", "setIvc:", "iv_c_", "setiva:", "SetIva:", "init", "initWith:", "initialise", "inI", "ini", "reinit",
           "_iva", "set_iva:", "setIva:and:", "setIva", "iva:", "toA"]


class Messages:
    def __init__(self, src, lang):
        self.s, self.lang = src, lang
        self.P = Program(lang)
        self.t = self.P.pr.o
        self.P.flags = ["-fobjc-runtime=macosx-10.15", "-fblocks"]
        self.k, self.out, self.meth, self.done, self.block = 0, [], None, set(), 0
        for _ in range(1 + src.n(3)):
            self.top()
            if not src.left():
                break

    def w(self, *ts):
        return self.t.w(*[x for t in ts for x in t.split(" ")])

    def here(self):
        return self.t.here()

    def count(self, cls):
        if self.meth:
            self.meth.counts[cls] = self.meth.counts.get(cls, 0) + 1

    def report(self, rule, b, e, msg=""):
        self.out.append((rule, msg, b, e))

    # -- objects

    def obj(self, cls, d):
        """An expression of type cls *, not self."""
        s, w = self.s, self.w
        k = s.n(6) if d > 0 and s.left() else 0
        if k < 3:
            return w(GLOB[cls])
        if k == 3:
            c = s.pick(KL)
            w("[", c, "mk" + cls[1].upper(), "]")
            return self.count(c)
        self.message(d, "to" + cls[1].upper())

    def receiver(self, d):
        """The start of a message to an instance of one of the classes, counted."""
        s, w = self.s, self.w
        if self.meth and not self.meth.cls and s.n(3) == 2:
            w(*s.pick([["self"], ["(", "self", ")"], ["self"]]))
            return self.count(self.meth.klass)
        c = s.pick(KL)
        self.obj(c, d - 1)
        self.count(c)

    def message(self, d, sel):
        self.w("[")
        self.receiver(d)
        self.w(sel, "]")

    # -- ints

    def expr(self, d=3):
        s, w = self.s, self.w
        k = s.n(22) if d > 0 and s.left() else s.n(2)
        m = self.meth
        if k < 2:
            w(s.pick(["0", "1", "ga", "gb"]))
        elif k == 2:
            self.message(d, "val")
        elif k == 3:
            w("[")
            self.receiver(d)
            w("val", ":")
            self.expr(d - 1)
            if s.n(2):
                w("and", ":")
                self.expr(d - 1)
            w("]")
        elif k in (4, 5):
            c = s.pick(KL)
            if m and m.cls and s.n(2):
                w("[", "self", "num", "]")
                self.count(m.klass)
            elif s.n(3):
                w("[", c, "num", "]")
                self.count(c)
            else:
                w("[", c, "num", ":")
                self.expr(d - 1)
                w("]")
                self.count(c)
        elif k == 6 and m and not m.cls:
            w(*s.pick([["[", "super", "sv", "]"], ["(", "self", "!=", "0", ")"]]))
        elif k == 7:
            w(*s.pick([["[", "idv", "val", "]"], ["(", "int", ")", "[", "cls", "num", "]"]]))
        elif k in (8, 9):
            self.ivar(d)
        elif k == 10:
            self.prop(d)
        elif k == 11:
            w("(")
            b = self.here()
            self.prop(d)
            w(s.pick(["=", "=", "+="]))
            self.expr(d - 1)
            w(")")
        elif k in (12, 13):
            w("(")
            self.assign(d)
            w(")")
        elif k == 14:
            w("(")
            self.ivar(d)
            w(s.pick(["++", "--"]), ")")
        elif k == 15 and d > 1:
            w("^", "(", "void", ")", "{", "return")
            self.expr(d - 1)
            w(";", "}", "(", ")")
        elif k == 16:
            self.number(d)
        elif k == 17:
            self.container(d)
        elif k == 18:
            self.subscript(d)
        elif k == 19:
            self.string(d)
        else:
            w("(")
            self.expr(d - 1)
            w(s.pick(["+", "&&", "==", ","]))
            self.expr(d - 1)
            w(")")

    def ivar(self, d):
        """-> the span of a reference to an instance variable."""
        s, w = self.s, self.w
        v = s.pick(["_iva", "ivb", "iv_c_"])
        b = self.here()
        m = self.meth
        if m and not m.cls:
            k = s.n(5)
            if k == 0:
                e = w(v)
                self.count(m.klass)
                return v, b, e
            if k == 1:
                w("self", "->")
                e = w(v)
                self.count(m.klass)
                return v, b, e
        c = s.pick(KL)
        self.obj(c, d - 1)
        w("->")
        e = w(v)
        self.count(c)
        return v, b, e

    def assign(self, d):
        s, w = self.s, self.w
        par = s.n(5) == 4
        if par:
            w("(")
        v, b, e = self.ivar(d)
        if par:
            w(")")
        w(s.pick(["=", "=", "+=", "|="]))
        self.expr(d - 1)
        m = self.meth
        if m:
            g = v.replace("_", "")
            if m.sel not in (g, "set" + g[0].upper() + g[1:] + ":") and not m.sel.startswith("init"):
                self.report("ivar assignment outside accessors or init", b, e)

    def prop(self, d):
        s, w = self.s, self.w
        m = self.meth
        k = s.n(4)
        if k == 0 and m and not m.cls:
            w("self", ".", "pa")
            return self.count(m.klass)
        c = s.pick(KL)
        if k == 1:
            w(c, ".", "pc")
            return self.count(c)
        self.obj(c, d - 1)
        w(".", "pa")
        self.count(c)

    # -- messages to what literals replace

    def number(self, d):
        s, w = self.s, self.w
        w("(", "0", "!=")
        b = w("[")
        recv = s.n(8)
        c = "NSNumber"
        if recv == 7:
            c = "Num"
        w(c)
        self.count(c)
        name, var, suf = s.pick(NUMT)
        w("numberWith" + name, ":")
        k = s.n(9)
        rule = None
        if k < 2:                        # a literal
            if name == "Char":
                w(s.pick(["'a'", "'\\n'"]))
                rule = "number"
            elif name in ("Bool", "Flag"):
                w(*s.pick([["__objc_yes"], ["__objc_no"], ["(", "(", "BOOL", ")", "1", ")"]]))
                rule = "number" if name == "Bool" else None
            elif name == "Short":
                w("3")
            else:
                w(s.pick(["3", "0", "42"]) + suf)
                rule = "number"
        elif k == 2 and suf is not None:     # a literal of another type
            o = s.pick([x for x in NUMT if x[2] is not None and x[0] != name])
            w("3" + o[2])
        elif k == 3:
            w("-", "1")
        elif k in (4, 5):                # a parenthesised expression
            if name == "Char":
                w("(", "(", "char", ")", "gch", ")")
                rule = "boxed"
            elif name == "Short":
                w("(", "ga", "+", "1", ")")
            elif name in ("Bool", "Flag") and s.n(3) == 0:
                v, isbox = s.pick([(["(", "(", "BOOL", ")", "gbo", ")"], False), (["(", "gbo", ")"], True), (["(", "(", "char", ")", "1", ")"], True), (["(", "1", ")"], True),
                                   (["(", "BOOL", ")", "1"], False), (["(", "(", "int", ")", "1", ")"], True)])
                w(*v)
                rule = "boxed" if isbox and name == "Bool" else None
            elif name in ("Bool", "Flag"):
                w("(")
                self.expr(d - 1)
                w("==")
                self.expr(d - 1)
                w(")")
                rule = "boxed" if name == "Bool" else None
            elif name == "Int":
                w("(")
                self.expr(d - 1)
                w(s.pick(["+", "-", "*"]))
                self.expr(d - 1)
                w(")")
                rule = "boxed"
            else:
                w("(", var, "+", "1", ")")
                rule = "boxed"
        elif k == 6 and name not in ("Bool", "Flag", "Int", "Char"):    # parentheses of another type
            w("(", s.pick([x[1] for x in NUMT if x[0] not in (name, "Char", "Bool", "Flag", "Short") and not (name == "Short" and x[0] == "Int")]), "+", "1", ")")
        elif k == 7 and name in ("Int", "Long") and self.lang == "m":
            w(s.pick(["EA", "EB"]))
            rule = "boxed" if name == "Int" else None
        else:
            w(var)
        e = w("]")
        w(")")
        if rule and c == "NSNumber":
            self.report({"number": "use number literal", "boxed": "use boxed expression"}[rule], b, e)

    def string(self, d):
        s, w = self.s, self.w
        w("(", "0", "!=")
        b = w("[", "NSString") - 1
        self.count("NSString")
        utf = s.n(4)
        w("stringWithUTF8String" if utf else "stringWithCString", ":")
        k = s.n(6)
        rule = k in (1, 2)
        if k == 0:
            w('"lit"')
        elif k == 1:
            w("fch", "(")
            self.expr(d - 1)
            w(")")
        elif k == 2:
            w("(", "chp", "+")
            self.expr(d - 1)
            w(")")
        elif k == 3:
            w("chp")
        elif k == 4:
            w("cchp")
        else:
            w("fcch", "(")
            self.expr(d - 1)
            w(")")
        e = w("]")
        w(")")
        if utf and rule:
            self.report("use boxed expression", b, e)

    def object(self, d):
        """Any object; returns nothing."""
        s, w = self.s, self.w
        k = s.n(6) if d > 0 and s.left() else 0
        if k < 3:
            w("idv")
        elif k == 3:
            self.container(d - 1, True)
        else:
            w("ka")

    def container(self, d, bare=False):
        s, w = self.s, self.w
        if not bare:
            w("(", "0", "!=")
        b = w("[")
        arr = s.n(2)
        mut = s.n(4) == 3
        c = ("NSMutable" if mut else "NS") + ("Array" if arr else "Dictionary")
        w(c)
        self.count(c)
        k = s.n(6)
        hit = True
        if arr:
            if k == 0:
                w("array")
            elif k == 1:
                w("arrayWithObject", ":")
                self.object(d - 1)
            elif k == 2:
                w("arrayWithObjects", ":")
                self.object(d - 1)
                w(",", "(", "id", ")", "0")
            elif k == 3:
                w("arrayWithObjects", ":", "idarr", "count", ":", "2")
            elif k == 4:
                w("arrayWithArray", ":", "idv")
                hit = False
            else:
                w("new")
                hit = False
        else:
            if k == 0:
                w("dictionary")
            elif k == 1:
                w("dictionaryWithObject", ":")
                self.object(d - 1)
                w("forKey", ":")
                self.object(d - 1)
            elif k == 2:
                w("dictionaryWithObjects", ":", "idarr", "forKeys", ":", "idarr", "count", ":", "1")
            elif k == 3:
                w("dictionaryWithObjectsAndKeys", ":")
                self.object(d - 1)
                w(",", "ka", ",", "(", "id", ")", "0")
            elif k == 4:
                w("dictionaryWithObjects", ":", "idv", "forKeys", ":", "idv")
            else:
                w("dictionaryWithDictionary", ":", "idv")
                hit = False
        e = w("]")
        if not bare:
            w(")")
        if hit and not mut:
            self.report("use container literal", b, e)

    def subscript(self, d):
        s, w = self.s, self.w
        k = s.n(13)
        void = k in (2, 3, 6, 7, 8, 12)
        w("(")
        b = w("[")
        if k in (0, 1, 9):
            w("arr")
            self.count("NSArray")
            w(["objectAtIndex", "objectAtIndexedSubscript"][k] if k < 2 else "indexOfObject", ":")
            self.expr(d - 1) if k < 2 else self.object(d - 1)
        elif k in (2, 3, 8):
            w("marr")
            self.count("NSMutableArray")
            if k == 2:
                w("replaceObjectAtIndex", ":")
                self.expr(d - 1)
                w("withObject", ":")
                self.object(d - 1)
            elif k == 3:
                w("setObject", ":")
                self.object(d - 1)
                w("atIndexedSubscript", ":")
                self.expr(d - 1)
            else:
                w("addObject", ":", "idv")
        elif k in (4, 5, 10):
            w("dic")
            self.count("NSDictionary")
            if k == 10:
                w("allKeys")
            else:
                w(["objectForKey", "objectForKeyedSubscript"][k - 4], ":")
                self.object(d - 1)
        elif k in (6, 7, 12):
            w("mdic")
            self.count("NSMutableDictionary")
            if k == 12:
                w("removeObjectForKey", ":", "idv")
            else:
                w("setObject", ":")
                self.object(d - 1)
                w(["forKey", "forKeyedSubscript"][k - 6], ":")
                self.object(d - 1)
        else:
            w("idv", "objectAtIndex", ":")
            self.expr(d - 1)
        e = w("]")
        if void:
            w(",", "0")
        else:
            w("!=", "0")
        w(")")
        if k < 8:
            self.report("use object subscripting", b, e)

    # -- statements and methods

    def stmts(self, n, d=3):
        s, w = self.s, self.w
        for _ in range(n):
            k = s.n(6)
            if k < 3 or d == 0:
                self.expr(3)
                w(";")
            elif k == 3:
                self.assign(3)
                w(";")
            elif k == 4:
                w("if", "(")
                self.expr(2)
                w(")", "{")
                self.stmts(s.n(3), d - 1)
                w("}")
            else:
                w("while", "(")
                self.expr(2)
                w(")", "{")
                self.stmts(s.n(3), d - 1)
                w("}")

    def method(self, klass):
        s, w = self.s, self.w
        sel = s.pick(METHODS)
        cls = s.n(4) == 3 and sel != "toA"
        if (klass, sel, cls) in self.done:
            return
        self.done.add((klass, sel, cls))
        b = w("+" if cls else "-")
        w("(", "Ka" if sel == "toA" else "int", *(["*"] if sel == "toA" else []), ")")
        parts = sel.split(":")
        if len(parts) == 1:
            w(sel)
        else:
            for q, p in enumerate(parts[:-1]):
                w(p, ":", "(", "int", ")", "xa" + "bc"[q])
        self.meth = m = Rec(klass=klass, cls=cls, sel=sel, counts={})
        w("{")
        self.stmts(s.n(5))
        e = w("return", "0", ";", "}")
        self.meth = None
        own = m.counts.get(klass, 0)
        for c, n in m.counts.items():
            if n > own:
                self.report("feature envy", b, e, f"Method {sel} messages {c} more than self.")

    def top(self):
        s, w = self.s, self.w
        if s.n(5) == 4:
            self.k += 1
            w("int", f"fn{self.k}", "(", "int", "xa", ")", "{")
            self.stmts(s.n(4))
            w("return", "0", ";", "}")
            return
        klass = s.pick(KL)
        if (klass, "") in self.done:
            self.k += 1
            w("@interface", klass, "(", f"Cat{self.k}", ")", "@end")
            w("@implementation", klass, "(", f"Cat{self.k}", ")")
        else:
            self.done.add((klass, ""))
            w("@implementation", klass)
        for _ in range(1 + s.n(5)):
            self.method(klass)
        w("@end")


class ObjC(Sub):
    name = "objc"
    quick, thorough = 900, 15000

    def strategy(self):
        return program_strategy(["m", "m", "mm"])

    def test(self, ctx, case):
        g = Messages(Src(bytes.fromhex(case["b"])), case["lang"])
        P = g.P
        P.finish(Src(bytes.fromhex(case["lay"])), case["style"])
        P.base = STUB.count("\n")
        want = [(r, m, P.base + P.at(b)[0], P.at(b)[1], P.base + P.at(e)[0], P.at(e)[1]) for r, m, b, e in g.out]
        rep, path, text = write_run(ctx, ctx.inst(rules=FILES), P, case, [], prelude=STUB)
        got = [(v.rule, v.msg, v.sl, v.sc, v.el, v.ec) for v in rep.violations if v.sl > P.base]
        diff_multiset(got, set(want), f"{P.lang}\n{P.text}\n")
        return sorted({w[0] for w in want})


def subs(tier):
    return [ObjC()]
