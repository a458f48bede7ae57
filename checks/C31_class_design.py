"""C31: rules about the design of C++ classes."""
from metrics import *
from decls import Rec

FILES = ["AvoidDefaultArgumentsOnVirtualMethodsRule", "AvoidPrivateStaticMembersRule", "BaseClassDestructorShouldBeVirtualOrProtectedRule",
         "DestructorOfVirtualClassRule"]
NEEDS = dict(rules=FILES, reporters=[])
RULE = ("generated hierarchies of C++ classes and class templates; the complete list of violations of the four rules, with messages and positions, against "
        "virtuality, accesses, bases and default arguments computed from the hierarchy (non-trivial: something is reported)")
PRE = {"cpp": "extern int ga;\n", "mm": "extern int ga;\n"}


class Classes:
    def __init__(self, src, lang):
        self.s, self.lang = src, lang
        self.P = Program(lang)
        self.t = self.P.pr.o
        self.P.flags = ["-std=c++17"] + (["-fobjc-runtime=macosx-10.15"] if lang == "mm" else [])
        self.k, self.cs, self.defaults, self.statics, self.infn = 0, [], [], [], False
        for _ in range(1 + src.n(6)):
            self.top()
            if not src.left():
                break

    def w(self, *ts):
        return self.t.w(*[x for t in ts for x in t.split(" ")])

    def here(self):
        return self.t.here()

    def uid(self, p):
        self.k += 1
        return f"{p}{self.k}"

    def top(self):
        k = self.s.n(12)
        if k < 8:
            self.klass([c for c in self.cs if not c.nested])
        elif k == 8:
            self.w("namespace", self.uid("nn"), "{")
            lo = len(self.cs)
            for _ in range(1 + self.s.n(3)):
                self.klass([c for c in self.cs if not c.nested])
            self.w("}")
            for c in self.cs[lo:]:
                c.nested = True
        elif k == 9:
            self.w("void", self.uid("fn"), "(", ")", "{")
            lo, self.infn = len(self.cs), True
            for _ in range(1 + self.s.n(3)):
                self.klass([c for c in self.cs if not c.nested])
            self.infn = False
            self.w("}")
            for c in self.cs[lo:]:
                c.nested = True
        else:
            self.w("int", self.uid("ff"), "(", "int", "=", "1", ")", ";")

    # -- classes

    def klass(self, avail, depth=0, member=None):
        s, w = self.s, self.w
        c = Rec(name=self.uid("Cl"), tmpl=not self.infn and not depth and s.n(6) == 5, nested=bool(depth), bases=[], dtor=None, dacc=None, virt={}, stat=[],
                poly=False, bad=False)
        key = s.pick(["struct", "struct", "class"])
        if s.n(6) == 5:
            if c.tmpl:
                w("template", "<", "class", "TT", ">")
            w(key, c.name, ";")
        c.b = self.here()
        if c.tmpl:
            w("template", "<", "class", "TT", ">")
            c.pb = c.b
            c.b = self.here()
        w(key, c.name)
        if s.n(12) == 11:
            c.final = w("final") and True
        else:
            c.final = False
        pick = [b for b in avail if not b.final]
        n = s.n(3) if s.n(4) else 3
        for _ in range(n):
            pick = [b for b in pick if b not in [x[0] for x in c.bases]]
            # a class and its own base as direct bases would be ambiguous in harmless ways only: one of them is left out
            if not pick:
                break
            b = pick[-1 - s.n(len(pick))]
            if any(b in self.above(x[0]) or x[0] in self.above(b) for x in c.bases) or self.clash(c, b):
                continue
            acc = s.pick(["public", "public", "", "private", "protected"])
            virt = s.n(8) == 7 and not self.allvirt(b)
            w(":" if not c.bases else ",", *(["virtual"] if virt else []), *([acc] if acc else []), b.name)
            if b.tmpl:
                w("<", "int", ">")
            c.bases.append((b, acc or ("public" if key == "struct" else "private")))
        c.poly = any(b.poly for b, a in c.bases)
        c.bad = any(b.bad for b, a in c.bases)
        c.vdtor = any(b.vdtor for b, a in c.bases)
        w("{")
        acc = "public" if key == "struct" else "private"
        late = []
        for _ in range(s.n(7)):
            k = s.n(16)
            if k < 2:
                acc = s.pick(["public", "private", "protected"])
                w(acc, ":")
            elif k < 8:
                self.method(c, acc, late)
            elif k in (8, 9, 10):
                self.static(c, acc, late)
            elif k in (11, 12) and c.dtor is None and not c.bad:
                self.dtor(c, acc, late)
            elif k == 13 and not depth:
                self.klass([x for x in self.cs if not x.nested and not set(map(id, self.above(x))) & set(map(id, self.above(c)))], 1)
                continue
            elif k == 14 and not self.infn:
                w("friend", "void", self.uid("fr"), "(", "int", ")", ";")
            else:
                w("int", self.uid("fd"), ";")
        c.e = w("}")
        w(";")
        self.cs.append(c)
        if s.n(8) == 7 and not c.tmpl:
            w(key, c.name, ";")
        if not self.infn and not depth:
            for f in late:
                f()
        return c

    def above(self, c):
        out = [c]
        for b, a in c.bases:
            out += self.above(b)
        return out

    def allvirt(self, c):
        """The signatures of all virtual methods of c and its bases."""
        out = {}
        for b, a in c.bases:
            out.update(self.allvirt(b))
        out.update(c.virt)
        return out

    def clash(self, c, b):
        return b.bad and any(x[0].vdtor for x in c.bases) or b.vdtor and any(x[0].bad for x in c.bases)

    def method(self, c, acc, late):
        s, w = self.s, self.w
        sig = (s.pick(["ma", "mb"]), s.n(3), s.n(2))
        if sig in c.virt or sig in c.stat or any(x[:2] == sig[:2] for x in c.stat):
            return
        inh = {}
        for b, a in c.bases:
            inh.update(self.allvirt(b))
        c.stat.append(sig)              # the signatures it has
        over = sig in inh
        k = s.n(6)
        virt = k in (1, 2, 3) or over
        b = self.here()
        if k in (1, 2, 3):
            w("virtual")
        w("void", sig[0])
        dflt = self.params(sig[1], s.n(3))
        if sig[2]:
            w("const")
        e = self.here() - 1
        if virt and not c.tmpl and s.n(4) == 3:
            if over and s.n(2):
                e = w("override")
        if virt:
            c.poly = True
            c.virt[sig] = True
        k = s.n(5)
        out = False
        if k == 1 and virt:
            w("=")
            e = w("0")
            w(";")
        elif k == 2:
            w("{")
            e = w("}")
        elif k == 3 and not c.tmpl:
            w(";")
            out = True
        else:
            w(";")
        if virt and dflt:
            self.defaults.append((b, e))
        if out:
            def define():
                b = w("void")
                w(c.name, "::", sig[0])
                self.params(sig[1], 0)
                if sig[2]:
                    w("const")
                w("{")
                e = w("}")
                if virt and dflt:
                    self.defaults.append((b, e))
            late.append(define)

    def params(self, n, d):
        w = self.w
        w("(")
        for q in range(n):
            if q:
                w(",")
            w("int")
            if self.s.n(2):
                w("pa" + "xyz"[q])
            if n - q <= d:
                w("=", "1")
        w(")")
        return bool(n and d)

    def static(self, c, acc, late):
        s, w = self.s, self.w
        priv = acc == "private"
        k = s.n(5)
        b = w("static")
        if k == 0 and not self.infn:
            w("const")
        spans, names = [], []
        if k < 3 and not self.infn:
            w("int")
            for q in range(1 + (s.n(3) == 2)):
                if q:
                    w(",")
                names.append(self.uid("sd"))
                e = w(names[-1])
                if s.n(4) == 3:
                    w("[", "2")
                    e = w("]")
                    names.pop()
                elif k == 0:
                    w("=")
                    e = w("3")
                    names.pop()
                spans.append((b, e))
            w(";")
        else:
            f = self.uid("sm")
            w("void", f)
            self.params(s.n(3), s.n(2))
            e = self.here() - 1
            if s.n(2) or self.infn:
                w("{")
                e = w("}")
            else:
                w(";")
            spans.append((b, e))
        if priv:
            self.statics += spans
        if names and not c.tmpl and s.n(2):
            def define():
                for n in names:
                    b = w("int")
                    w(c.name, "::")
                    e = w(n)
                    if s.n(2):
                        w("=")
                        e = w("2")
                    w(";")
                    if priv:
                        self.statics.append((b, e))
            late.append(define)

    def dtor(self, c, acc, late):
        s, w = self.s, self.w
        k = s.n(8)
        virt = k in (1, 2, 3)
        c.dtor, c.dacc = True, acc
        if virt:
            w("virtual")
            c.poly = c.vdtor = True
        w("~", c.name, "(", ")")
        j = s.n(6)
        bad = acc == "private"
        if j == 1:
            w("=", "default", ";")
        elif j == 2 and not virt and not c.vdtor:
            w("=", "delete", ";")
            bad = True
        elif j == 3 and not c.tmpl and not self.infn and not c.nested:
            w(";")
            late.append(lambda: w(c.name, "::", "~", c.name, "(", ")", "{", "}"))
        else:
            w("{", "}")
        c.bad = bad
        if bad:
            c.final = c.final or c.vdtor

    # -- what is expected

    def want(self):
        out = set()
        for b, e in self.defaults:
            out.add(("avoid default arguments on virtual methods", "", b, e))
        for b, e in self.statics:
            out.add(("avoid private static members", "", b, e))
        for c in self.cs:
            if not c.poly:
                continue
            if not c.vdtor:
                out.add(("destructor of virtual class", f"class {c.name} should have a virtual destructor ~{c.name}()", c.b, c.e))
            self.bases(c, c, out)
        return out

    def bases(self, c, at, out):
        for b, acc in at.bases:
            if acc != "public":
                continue
            if not (b.vdtor or b.dtor and b.dacc == "protected"):
                out.add(("base class destructor should be virtual or protected", f"~{b.name}() should be protected or virtual according to class {c.name}",
                         b.pb if b.tmpl else b.b, b.e))
            if not b.poly:
                self.bases(c, b, out)


class Design(Sub):
    name = "design"
    quick, thorough = 900, 15000

    def strategy(self):
        return program_strategy(["cpp", "cpp", "cpp", "mm"])

    def test(self, ctx, case):
        g = Classes(Src(bytes.fromhex(case["b"])), case["lang"])
        P = g.P
        P.finish(Src(bytes.fromhex(case["lay"])), case["style"])
        P.base = PRE[P.lang].count("\n")
        want = [(r, m, P.base + P.at(b)[0], P.at(b)[1], P.base + P.at(e)[0], P.at(e)[1]) for r, m, b, e in g.want()
                if P.lang == "cpp" or r == "avoid private static members"]
        rep, path, text = write_run(ctx, ctx.inst(rules=FILES), P, case, [], prelude=PRE[P.lang])
        got = [(v.rule, v.msg, v.sl, v.sc, v.el, v.ec) for v in rep.violations if v.sl > P.base]
        diff_multiset(got, set(want), f"{P.lang}\n{text}\n")
        return sorted({w[0] for w in want})


def subs(tier):
    return [Design()]
