"""C33: contracts on methods and functions, enforced by annotations, and isEqual: without hash."""
from metrics import *
from decls import Rec

FILES = ["ObjCVerifyIsEqualHashRule", "ObjCVerifyMustCallSuperRule", "ObjCVerifyProhibitedCallRule", "ObjCVerifyProtectedMethodRule",
         "ObjCVerifySubclassMustImplementRule"]
NEEDS = dict(rules=FILES, reporters=[])
RULE = ("generated protocols, classes, categories, properties and functions with contracts in annotations, and methods that keep and break them; the complete "
        "list of violations of the five rules, with messages and positions, against look-ups in the generated declarations (non-trivial: something is reported)")
PRE = "extern id idv;\nextern int ga, gb;\n"
SELS = ["ma", "mb:", "mc", "md:with:", "me:", "mf", "hash", "isEqual:"]
KINDS = ["prohibited", "protected", "base", "abstract"]
LOOK = ["oclint:enforce", "enforce[prohibited method]", "oclint:enforce[prohibited methods]", "oclint:enforce[prohibited method", "oclint:enforce[missing hash method]",
        "oclint:enforce[calling protected method]", "oclint:enforced[base method]", "oclint:suppress[no such rule]", "oclint", "OCLint:enforce[abstract method]"]
COMMENT = {"ma": None, "mb:": "other", "mc": "[self x]", "md:with:": None, "me:": "a b", "mf": "x", "hash": None, "isEqual:": None}


class Contracts:
    def __init__(self, src, lang):
        self.s, self.lang = src, lang
        self.P = Program(lang)
        self.t = self.P.pr.o
        self.P.flags = ["-fobjc-runtime=macosx-10.15", "-fblocks"]
        self.k, self.out, self.protos, self.klasses, self.fns, self.cur = 0, [], [], [], [], None
        self.objc = lang in ("m", "mm")
        if self.objc:
            for _ in range(src.n(3)):
                self.proto()
            for _ in range(1 + src.n(4)):
                self.klass()
            for _ in range(src.n(3)):
                self.category()
            for c in self.klasses:
                self.w("extern", c.name, "*", c.var, ";")
        for _ in range(src.n(3) if self.objc else 1 + src.n(3)):
            self.function()
        if self.objc:
            todo = [c for c in self.klasses if src.n(5)]
            while todo:
                self.impl(todo.pop(src.n(len(todo))))
            for cat in [x for c in self.klasses for x in c.cats]:
                if src.n(4):
                    self.catimpl(cat)
        for _ in range(0 if self.objc and src.n(2) else 1 + src.n(2)):
            self.caller()

    def w(self, *ts):
        return self.t.w(*[x for t in ts for x in t.split(" ")])

    def here(self):
        return self.t.here()

    # -- annotations

    def ann(self, allow, comment=None, n=2):
        """Writes some annotations -> the kinds they enforce."""
        s, out = self.s, set()
        for _ in range(1 + (s.n(4) == 3) if s.n(n) == n - 1 else 0):
            if s.n(6) == 5 or not allow:
                text = s.pick(LOOK)
            else:
                k = s.pick(allow)
                out.add(k)
                text = f"oclint:enforce[{k} method]"
                c = comment
                if c is not None:
                    text += f"[{c}]"
            self.t.w("__attribute__", "(", "(", "annotate", "(", f'"{text}"', ")", ")", ")")
        return out

    # -- declarations

    def decl(self, cont, sel, inst, more=(), allow=KINDS):
        w = self.w
        w("-" if inst else "+", "(", "int", ")")
        self.selector(sel)
        d = Rec(cont=cont, sel=sel, inst=inst, prop=None, ann=self.ann(allow, COMMENT[sel]))
        for o in more:
            d.ann = d.ann | o.ann
        w(";")
        return d

    def selector(self, sel):
        if ":" not in sel:
            return self.w(sel)
        for q, p in enumerate(sel.split(":")[:-1]):
            self.w(p, ":", "(", "int", ")", "x" + "ab"[q])

    def members(self, c, n, over):
        """over(sel, inst) -> the declarations a new one would override."""
        s = self.s
        for _ in range(n):
            sel, inst = s.pick(SELS), s.n(4) != 3
            if (sel, inst) in c.own:
                continue
            up = over(sel, inst)
            # redeclared abstract methods hand the contract down; whether subclasses of implementations owe it is left open
            if any("abstract" in self.marks(o, False) for o in up):
                continue
            allow = KINDS if c.kind == "class" else ["prohibited", "protected", "base"]
            c.own[sel, inst] = self.decl(c, sel, inst, up, allow)

    def proto(self):
        s, w = self.s, self.w
        p = Rec(kind="proto", name=f"Pr{len(self.protos)}", own={}, protos=[], sup=None)
        w("@protocol", p.name)
        p.protos = self.adopt()
        self.members(p, 1 + s.n(3), lambda sel, inst: self.viaprotos(p.protos, sel, inst))
        w("@end")
        self.protos.append(p)

    def adopt(self):
        s, out = self.s, []
        if self.protos and s.n(3) == 2:
            out = [s.pick(self.protos)]
            if s.n(3) == 2:
                o = s.pick(self.protos)
                # of related protocols only one is adopted, to keep look-ups unambiguous
                if o not in self.allprotos(out) and not set(map(id, self.allprotos([o]))) & set(map(id, self.allprotos(out))):
                    out.append(o)
            self.w("<", ",".join(p.name for p in out).replace(",", " , "), ">")
        return out

    def allprotos(self, ps):
        out = []
        for p in ps:
            out += [p] + self.allprotos(p.protos)
        return out

    def viaprotos(self, ps, sel, inst):
        out = []
        for p in ps:
            if (sel, inst) in p.own:
                out.append(p.own[sel, inst])
            else:
                out += self.viaprotos(p.protos, sel, inst)
        return out

    def klass(self):
        s, w = self.s, self.w
        n = len(self.klasses)
        c = Rec(kind="class", name=f"Kl{n}", var=f"k{n}", own={}, props={}, cats=[], protos=[], sup=None, defs={})
        if self.klasses and s.n(5):
            c.sup = self.klasses[-1 - s.n(min(2, len(self.klasses)))]
        if c.sup:
            w("@interface", c.name, ":", c.sup.name)
        else:
            w("__attribute__", "(", "(", "objc_root_class", ")", ")", "@interface", c.name)
        c.protos = self.adopt()
        for _ in range(s.n(3)):
            self.property(c)
        self.members(c, s.n(6), lambda sel, inst: self.over(c, sel, inst))
        w("@end")
        self.klasses.append(c)

    def property(self, c):
        s, w = self.s, self.w
        p = f"p{'qrstuvwxyz'[len(self.klasses)]}{len(c.props)}"
        ro = s.n(4) == 3
        w("@property")
        if ro:
            w("(", "readonly", ")")
        w("int", p)
        ann = self.ann(KINDS)
        w(";")
        c.props[p] = pr = Rec(name=p, ann=ann, ro=ro)
        c.own[p, True] = Rec(cont=c, sel=p, inst=True, prop=pr, ann=set())
        if not ro:
            s = f"set{p[0].upper()}{p[1:]}:"
            c.own[s, True] = Rec(cont=c, sel=s, inst=True, prop=pr, ann=set())

    def over(self, c, sel, inst):
        """What a declaration in c overrides: of protocols and super classes."""
        out = self.viaprotos(c.protos, sel, inst)
        x = c.sup
        while x:
            if (sel, inst) in x.own:
                return out + [x.own[sel, inst]]
            for cat in x.cats:
                if (sel, inst) in cat.own:
                    out.append(cat.own[sel, inst])
            out += self.viaprotos(x.protos, sel, inst)
            x = x.sup
        return out

    def category(self):
        s, w = self.s, self.w
        c = s.pick(self.klasses)
        self.k += 1
        ext = s.n(4) == 3
        cat = Rec(kind="cat", name="" if ext else f"Ca{self.k}", klass=c, own={}, new=[])
        w("@interface", c.name, "(", *([cat.name] if cat.name else []), ")")
        done = set()
        for x in c.cats:
            done |= set(x.own)
        below = [k for k in self.klasses if c in self.chain(k)]
        for _ in range(1 + s.n(3)):
            sel, inst = s.pick(SELS), s.n(4) != 3
            if (sel, inst) in done or (sel, inst) in cat.own:
                continue
            if any((sel, inst) in k.own or self.viaprotos(k.protos, sel, inst) for k in below if k is not c):
                continue
            if any((sel, inst) in x.own for k in below + self.chain(c) for x in k.cats):
                continue
            if (sel, inst) in c.own:
                cat.own[sel, inst] = self.decl(cat, sel, inst, [c.own[sel, inst]], ["prohibited", "protected", "base", "abstract"])
            elif not self.over(c, sel, inst) and not ext:
                cat.own[sel, inst] = self.decl(cat, sel, inst, [], ["prohibited", "protected", "base"])
                cat.new.append((sel, inst))
        w("@end")
        c.cats.append(cat)

    def chain(self, c):
        out = []
        while c:
            out.append(c)
            c = c.sup
        return out

    # -- look-ups

    def find(self, c, sel, inst):
        for x in self.chain(c):
            if (sel, inst) in x.own:
                return x.own[sel, inst]
            for cat in x.cats:
                if (sel, inst) in cat.own:
                    return cat.own[sel, inst]
            o = self.viaprotos(x.protos, sel, inst)
            if o:
                return o[0]
        return None

    def marks(self, d, cats=True):
        """The contracts on a declaration, for the rules."""
        out = set(d.ann)
        if d.prop:
            out |= d.prop.ann
        if cats and d.cont.kind == "class":
            for cat in d.cont.cats:
                if (d.sel, d.inst) in cat.own:
                    out |= cat.own[d.sel, d.inst].ann
        return out

    # -- functions

    def function(self):
        s, w = self.s, self.w
        f = Rec(name=f"fn{len(self.fns)}", ann=set(), member=False)
        cm = s.pick([None, None, "it(1)", "that"])
        if self.lang in ("cpp", "mm") and s.n(3) == 2:
            f.member = True
            op = s.n(3) == 2
            if op:
                f.name = s.pick(["operator+", "operator()", "operator[]"])
            w("struct", f"St{len(self.fns)}", "{", "int", *([f.name[:8], *(f.name[8:])] if op else [f.name]), "(", "int", ")")
            f.ann |= self.ann(["prohibited"], cm, 2)
            f.obj = f"st{len(self.fns)}"
            w(";", "}", ";", "extern", "struct", f"St{len(self.fns)}", f.obj, ";")
        else:
            for _ in range(1 + s.n(2)):
                w("extern", "int", f.name, "(", "int", ")")
                f.ann |= self.ann(["prohibited", "prohibited", "base"], cm, 2)
                w(";")
        f.cm = cm
        self.fns.append(f)

    def caller(self):
        self.cur = None
        self.k += 1
        self.w("int", f"ca{self.k}", "(", "void" if not self.lang.endswith("pp") and self.lang != "mm" else "", ")") if False else self.w("int", f"ca{self.k}", "(", "int", "xa", ")")
        self.body()

    # -- implementations

    def body(self):
        s, w = self.s, self.w
        w("{")
        for _ in range(s.n(4)):
            if s.n(5) == 4:
                w("if", "(")
                self.expr()
                w(")", "{")
                self.expr()
                w(";", "}")
            else:
                if s.n(6) == 5 and self.props():
                    self.assign()
                else:
                    self.expr()
                w(";")
        w("return")
        self.expr(1)
        return w(";", "}")

    def expr(self, d=3):
        s, w = self.s, self.w
        k = s.n(14) if d > 0 and s.left() else s.n(2)
        if k < 2:
            return w(s.pick(["ga", "gb", "1"]))
        if k == 2:
            w("(")
            self.expr(d - 1)
            w(s.pick(["+", "&&", ",", "=="]))
            self.expr(d - 1)
            return w(")")
        if k == 3 and self.objc:
            w("^", "(", "void", ")", "{", "return", "(", "int", ")", "(")
            if s.n(3) == 2:
                self.message(d - 1, True)
            else:
                self.expr(d - 1)
            return w(")", ";", "}", "(", ")")
        if k in (4, 5) and self.fns or not self.objc:
            f = s.pick(self.fns)
            b = self.here()
            if f.member and f.name.startswith("operator"):
                w("(") if f.name == "operator+" else None
                b = w(f.obj)
                w(f.name[8])
                w("(") if f.name == "operator+" else None
                self.expr(d - 1)
                e = w({"+": ")", "(": ")", "[": "]"}[f.name[8]])
                if "prohibited" in f.ann:
                    self.out.append(("calling prohibited method", f"calling prohibited function {f.name}" + (f" instead use {f.cm}" if f.cm else ""), b, e))
                return w(")") if f.name == "operator+" else e
            if f.member:
                w(f.obj, ".")
            if s.n(8) == 7 and not f.member:
                w("(", f.name, ")")
            else:
                w(f.name)
            w("(")
            self.expr(d - 1)
            e = w(")")
            if "prohibited" in f.ann:
                self.out.append(("calling prohibited method", f"calling prohibited function {f.name}" + (f" instead use {f.cm}" if f.cm else ""), b, e))
            return e
        if k in (6, 7) and self.props():
            return self.prop()
        if self.objc:
            return self.message(d)
        w("gb")

    def props(self):
        return self.objc and [(c, p) for c in self.klasses for p in c.props.values()]

    def prop(self, write=False):
        s, w = self.s, self.w
        c, p = s.pick(self.props())
        below = [k for k in self.klasses if c in self.chain(k)]
        get, put = c.own[p.name, True], None if p.ro else c.own[f"set{p.name[0].upper()}{p.name[1:]}:", True]
        me = self.cur
        hasself = me and me.inst and me.klass in below
        if hasself and s.n(2):
            w("self")
            r = me.klass
        else:
            r = s.pick(below)
            w(r.var)
        w(".")
        x = w(p.name)
        if not write:
            self.called(get, r, x, x)
        return get, put, r, x

    def assign(self):
        get, put, r, x = self.prop(True)
        if put is None:
            self.w("+", "1")
            return self.called(get, r, x, x)
        op = self.s.pick(["=", "=", "+="])
        self.w(op)
        if op == "+=":
            self.called(get, r, x, x)
        self.called(put, r, x, x)
        self.expr(2)

    def message(self, d, up=False):
        s, w = self.s, self.w
        me = self.cur
        c = s.pick(self.klasses)
        k = 8 if up else s.n(12)
        inst, recv, r, quals = True, [c.var], c, []
        if k == 0:
            inst, recv = False, [c.name]
        elif k == 1:
            recv = ["(", "(", c.name, "*", ")", "idv", ")"]
        elif k == 2 and self.protos:
            quals = [s.pick(self.protos)]
            recv = ["(", "(", c.name, "<", quals[0].name, ">", "*", ")", "idv", ")"]
        elif k == 3 and self.protos:
            quals, r = [s.pick(self.protos)], None
            recv = ["(", "(", "id", "<", quals[0].name, ">", ")", "idv", ")"]
        elif k in (4, 5, 6, 7) and me:
            recv, r, inst = ["self"], me.klass, me.inst
        elif k in (8, 9) and me and me.klass.sup:
            recv, r, inst = ["super"], me.klass.sup, me.inst
        if k in (8, 9) and me and me.inst is inst and recv == ["super"] and (up or s.n(2)) and me.overrides:
            sels = [me.sel]
        else:
            sels = self.known(r, inst, quals)
        if not sels:
            return w("gb")
        sel = s.pick(sels)
        m = self.find(r, sel, inst) if r else None
        if not m:
            m = self.viaprotos(quals, sel, inst)[0]
        marks = self.marks(m)
        if m.cont.kind == "proto" and "protected" in marks and r and me and r is not me.klass and (r in self.chain(me.klass) or me.klass in self.chain(r)):
            return w("ga")          # of which class a method of a protocol is, is left open
        if "protected" in marks and not me:
            return w("ga")          # what functions may call, too
        if sel == me.sel if me and recv == ["super"] else False:
            me.supers.add(sel)
        b = w("[")
        w(*recv)
        if ":" not in sel:
            w(sel)
        else:
            for p in sel.split(":")[:-1]:
                w(p, ":")
                self.expr(d - 1)
        e = w("]")
        cm = self.comment(m)
        self.called(m, None if not r or recv == ["self"] and not inst else r, b, e)

    def known(self, r, inst, quals):
        out = []
        for x in self.chain(r):
            for own in [x.own] + [cat.own for cat in x.cats] + [p.own for p in self.allprotos(x.protos)]:
                out += [sel for sel, i in own if i == inst and sel in SELS]
        for p in self.allprotos(quals):
            out += [sel for sel, i in p.own if i == inst]
        return sorted(set(out))

    def comment(self, m):
        return COMMENT.get(m.sel)

    def called(self, m, r, b, e):
        marks = self.marks(m)
        if "prohibited" in marks:
            cm = self.comment(m)
            self.out.append(("calling prohibited method", f"calling prohibited method {m.sel}" + (f" instead use {cm}" if cm else ""), b, e))
        if "protected" in marks and self.cur and r:
            c = m.cont.klass if m.cont.kind == "cat" else r if m.cont.kind == "proto" else m.cont
            if c not in self.chain(self.cur.klass):
                self.out.append(("calling protected method", f"calling protected method {m.sel} from outside {c.name} and its subclasses", b, e))

    def define(self, c, sel, inst, over, done):
        w = self.w
        self.cur = Rec(klass=c, sel=sel, inst=inst, supers=set(), overrides=[o for o in over if self.find(c.sup, sel, inst)] if c.sup else [])
        b = w("-" if inst else "+")
        w("(", "int", ")")
        self.selector(sel)
        e = self.body()
        done.add((sel, inst))
        if any("base" in self.marks(o) for o in over) and not self.cur.supers:
            self.out.append(("missing call to base method", f"overridden method {sel} must call super", b, e))
        self.cur = None

    def impl(self, c):
        s, w = self.s, self.w
        b = w("@implementation")
        w(c.name)
        done = set()
        todo = [(sel, i) for sel, i in sorted(set((sel, i) for i in (True, False) for sel in self.known(c, i, []))) if s.n(2)]
        for _ in range(s.n(3)):
            todo.append((s.pick(SELS), s.n(4) != 3))
        for sel, inst in todo:
            if (sel, inst) in done or any((sel, inst) in cat.new for k in self.chain(c) for cat in k.cats):
                continue
            self.define(c, sel, inst, self.over(c, sel, inst), done)
        for x in self.chain(c)[:2]:
            for p in x.props.values():
                if s.n(4) == 3 and (x is c or True):
                    self.define(c, p.name, True, self.over(c, p.name, True), done)
        e = w("@end")
        synth = set((sel, True) for sel in [m for (m, i), d in c.own.items() if d.prop])
        if ("isEqual:", True) in done and ("hash", True) not in done:
            self.out.append(("missing hash method", "If you override isEqual you must override hash too.", b, e))
        if c.sup:
            for (sel, inst), d in c.sup.own.items():
                if "abstract" in self.marks(d) and (sel, inst) not in done | synth:
                    self.out.append(("missing abstract method implementation", f"subclasses of {c.sup.name} must implement {sel}", b, e))

    def catimpl(self, cat):
        s, w = self.s, self.w
        if not cat.name:
            return
        c = cat.klass
        w("@implementation", c.name, "(", cat.name, ")")
        done = set()
        for sel, inst in cat.new:
            if s.n(3):
                self.define(c, sel, inst, [], done)
        if c.sup and s.n(2):
            for i in (True, False):
                for sel in self.known(c.sup, i, []):
                    if (sel, i) not in c.own and not self.viaprotos(c.protos, sel, i) and not any((sel, i) in x.own for x in c.cats) and s.n(3) == 2:
                        self.define(c, sel, i, self.over(c, sel, i), done)
        w("@end")


class Enforce(Sub):
    name = "enforce"
    quick, thorough = 900, 15000

    def strategy(self):
        return program_strategy(["m", "m", "m", "mm", "mm", "c", "cpp"])

    def test(self, ctx, case):
        g = Contracts(Src(bytes.fromhex(case["b"])), case["lang"])
        P = g.P
        P.finish(Src(bytes.fromhex(case["lay"])), case["style"])
        pre = PRE if P.lang in ("m", "mm") else "extern int ga, gb;\n"
        P.base = pre.count("\n")
        want = [(r, m, P.base + P.at(b)[0], P.at(b)[1], P.base + P.at(e)[0], P.at(e)[1]) for r, m, b, e in sorted(set(g.out))]
        rep, path, text = write_run(ctx, ctx.inst(rules=FILES), P, case, [], prelude=pre)
        got = [(v.rule, v.msg, v.sl, v.sc, v.el, v.ec) for v in rep.violations if v.sl > P.base]
        diff_multiset(got, set(want), f"{P.lang}\n{P.text}\n")
        return sorted({w[0] for w in want})


def subs(tier):
    return [Enforce()]
