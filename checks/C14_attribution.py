"""C14: code of the source itself is reported once, at its position; code of included headers is not."""
import json, os, shutil, tempfile
from hypothesis import strategies as st
from util import *

LOADED = ["EmptyIfStatementRule", "GotoStatementRule", "BitwiseOperatorInConditionalRule"]
NEEDS = dict(rules=LOADED, reporters=[])
RULE = ("sources in C, C++ and ObjC with code in all kinds of declaration contexts, nested, written directly, through macros defined in the source or in "
        "headers, in macro arguments, and in files included at the top level or inside declarations; every probe's file, start and end position "
        "against the position recorded while the text was written (non-trivial: probes in the source and probes that must not be reported)")
EI, GO, BW = "empty if statement", "goto statement", "bitwise operator in conditional"

MACROS = """#define EIF(x) if (x) { }
#define ARG(...) __VA_ARGS__
#define HALF if (gg) {
#define NEST(x) ARG(EIF(x))
#define BITS(x) while (x & 4) { gg = 0; }
#define COND gg | 3
#define SELF(n, ...) int n(void) { __VA_ARGS__ if (gg) { } return 0; }
"""
PROBES = ["ei", "ei0", "go", "bw", "eif", "arg", "half", "nest", "bits", "cond", "dead", "argnest", "bwarg"]

CTX = {
    "c": ["fn", "sfn", "knr", "mac", "macproto"],
    "cpp": ["fn", "sfn", "mac", "ns", "anon", "extc", "cls", "tcls", "tfn", "glam", "out", "spec", "nested", "ext1", "lins", "clsexp"],
    "m": ["fn", "sfn", "mac", "impl", "gblk", "cat"],
}
# contexts whose body is declarations (so includes and contexts nest there)
DECLS = {"ns", "anon", "extc"}


class Out:
    """One file being written: text with positions."""

    def __init__(self, path, live):
        self.path, self.live, self.text, self.line, self.col = path, live, [], 1, 1

    def w(self, s):
        """Writes s; returns the position where it starts."""
        at = (self.line, self.col)
        self.text.append(s)
        n = s.count("\n")
        if n:
            self.line += n
            self.col = len(s) - s.rindex("\n")
        else:
            self.col += len(s.encode())
        return at

    def pos(self, s):
        """Writes s where @0 .. @9 mark positions; returns them."""
        out, k = {}, 0
        for part in s.split("@"):
            if k:
                out[part[0]] = (self.line, self.col)
                part = part[1:]
            self.w(part)
            k += 1
        return out


body_item = st.one_of(st.sampled_from(PROBES).map(lambda x: ["p", x]), st.sampled_from(["lam", "se", "loop", "inc", "blk", "loc", "nl"]).map(lambda x: ["s", x]))
decl = st.recursive(
    st.fixed_dictionaries({"k": st.integers(0, 99), "body": st.lists(body_item, max_size=4), "inc": st.integers(0, 9), "sub": st.just([])}),
    lambda ch: st.fixed_dictionaries({"k": st.integers(0, 99), "body": st.lists(body_item, max_size=3), "inc": st.integers(0, 9),
                                      "sub": st.lists(ch, max_size=3)}), max_leaves=8)
case = st.fixed_dictionaries({
    "lang": st.sampled_from(["c", "cpp", "cpp", "m"]), "macros": st.sampled_from(["main", "header"]),
    "main": st.lists(decl, min_size=1, max_size=4), "hdr": st.lists(st.lists(decl, max_size=2), min_size=3, max_size=3),
    "where": st.integers(0, 2), "rel": st.booleans(), "use": st.integers(0, 3)})


class Build:
    def __init__(self, case, d):
        self.case, self.d, self.n, self.want, self.quiet = case, d, 0, [], 0
        self.lang = case["lang"]
        self.files = {}
        self.main = os.path.join(d, "src", "main." + self.lang)
        self.included = set()

    def id(self):
        self.n += 1
        return self.n

    def expect(self, o, live, rule, a, b):
        if live:
            self.want.append((rule, o.path, *a, *b))
        else:
            self.quiet += 1

    def probe(self, o, live, kind):
        p = lambda s: o.pos(s)
        if kind == "ei":
            q = p("if (gg) @0{ @1} ")
            self.expect(o, live, EI, q["0"], q["1"])
        elif kind == "ei0":
            q = p("if (gg)\n  @0; ")
            self.expect(o, live, EI, q["0"], q["0"])
        elif kind == "go":
            n = self.id()
            q = p(f"lb{n}: @0goto @1lb{n}; ")
            self.expect(o, live, GO, q["0"], q["1"])
        elif kind == "bw":
            q = p("if (@0gg & \n @1gh) { gg = 1; } ")
            self.expect(o, live, BW, q["0"], q["1"])
        elif kind in ("eif", "nest"):
            q = p("@0EIF(gg) " if kind == "eif" else "@0NEST(gg) ")
            self.expect(o, live, EI, q["0"], q["0"])
        elif kind == "arg":
            q = p("ARG(if (gg) @0{ @1}) ")
            self.expect(o, live, EI, q["0"], q["1"])
        elif kind == "argnest":
            q = p("ARG(ARG(gg = 1; ARG(if (gg) @0{ @1}))) ")
            self.expect(o, live, EI, q["0"], q["1"])
        elif kind == "half":
            q = p("@0HALF @1} ")
            self.expect(o, live, EI, q["0"], q["1"])
        elif kind == "bits":
            # the condition is x & 4: x comes from the argument, 4 from the macro's body
            q = p("@1BITS(@0gg) ")
            self.expect(o, live, BW, q["0"], q["1"])
        elif kind == "cond":
            q = p("if (@0COND) { gg = 2; } ")
            self.expect(o, live, BW, q["0"], q["0"])
        elif kind == "bwarg":
            q = p("ARG(if (@0gg ^ @1gh) { gg = 1; }) ")
            self.expect(o, live, BW, q["0"], q["1"])
        elif kind == "dead":
            p("\n#if 0\nif (gg) { }\n#endif\n")

    def body(self, o, live, items):
        o.w("{ ")
        self.items(o, live, items)
        o.w("}")

    def items(self, o, live, items):
        for what, k in items:
            if what == "p":
                self.probe(o, live, k)
            elif k == "nl":
                o.w("\n\t /* if (gg) { } */ gg = 0; // if (gg) { }\n")
            elif k == "loop":
                o.w("while (gg) { switch (gg) { case 1: ")
                self.probe(o, live, "ei")
                o.w("} gg = 0; } ")
            elif k == "se":
                o.w("gg = ({ ")
                self.probe(o, live, "ei")
                o.w("gh; }); ")
            elif k == "lam" and self.lang == "cpp":
                o.w("auto lv = [&](int qq) { ")
                self.probe(o, live, "ei0")
                o.w("return qq; }; gg = lv(1); ")
                o.w("(void)[=]{ ")
                self.probe(o, live, "go")
                o.w("}(); ")
            elif k == "loc" and self.lang == "cpp":
                n = self.id()
                o.w(f"struct lc{n} {{ int mm() {{ ")
                self.probe(o, live, "bw")
                o.w("return 1; } }; ")
            elif k == "blk" and self.lang == "m":
                o.w("void (^bb)(int) = ^(int qq) { ")
                self.probe(o, live, "ei")
                o.w("}; bb(1); ")
            elif k == "inc":
                # a fragment included inside the body: reported where it stands
                n = self.id()
                p = os.path.join(self.d, "src", f"frag{n}.inc")
                f = Out(p, live)
                self.probe(f, live, "ei")
                self.probe(f, live, "eif")
                f.w("\n")
                self.files[p] = f
                rel = f"frag{n}.inc" if os.path.dirname(o.path).endswith("src") else f"../src/frag{n}.inc"
                o.w(f"\n#include \"{rel}\"\n")

    def decl(self, o, live, dcl):
        ks = CTX[self.lang]
        k = ks[dcl["k"] % len(ks)]
        n = self.id()
        seen, items = set(), []
        for it in dcl["body"]:
            if it[1] in ("lam", "blk", "loc"):
                if it[1] in seen:
                    continue
                seen.add(it[1])
            items.append(it)
        B = lambda: self.body(o, live, items)
        if k == "fn":
            o.w(f"void f{n}(void) ")
            B()
        elif k == "sfn":
            o.w(f"static inline __attribute__((unused))\nvoid f{n}(void)\n")
            B()
        elif k == "knr":
            o.w(f"int f{n}(aa) int aa; ")
            B()
        elif k == "mac":
            # the whole definition comes from a macro: the position is that of the macro's name
            q = o.pos(f"@0SELF(f{n}, ")
            self.probe(o, live, "ei")
            o.w(")")
            self.expect(o, live, EI, q["0"], q["0"])
        elif k == "macproto":
            o.w(f"void f{n}(void);\nvoid f{n}(void) ")
            B()
        elif k in ("ns", "anon", "extc"):
            o.w({"ns": f"namespace n{n} {{\n", "anon": "namespace {\n", "extc": "extern \"C\" {\n"}[k])
            for s in dcl["sub"]:
                self.decl2(o, live, s, k)
            if dcl["inc"] < 2 and k != "extc":
                self.include(o, live, dcl["inc"], True)
            o.w("}")
        elif k == "cls":
            o.w(f"class c{n} {{ int aa; public: c{n}() : aa([]{{ ")
            self.probe(o, live, "ei")
            o.w("return 1; }()) ")
            B()
            o.w(f"\n  ~c{n}() {{ ")
            self.probe(o, live, "go")
            o.w("}\n  static int sf() { ")
            self.probe(o, live, "ei0")
            o.w(f"return 1; }}\n  friend void fr{n}(c{n} &) {{ ")
            self.probe(o, live, "bw")
            o.w(f"}}\n  int operator+(int) const {{ ")
            self.probe(o, live, "half")
            o.w("return 1; }\n};")
        elif k == "tcls":
            o.w(f"template <class T> struct t{n} {{ T vv; int mm() {{ ")
            self.probe(o, live, "ei")
            o.w("return 1; } template <class U> int tm(U) { ")
            self.probe(o, live, "bw")
            o.w(f"return 2; }} int oo(); }};\ntemplate <class T> int t{n}<T>::oo() {{ ")
            self.probe(o, live, "ei0")
            o.w("return 3; }\n")
            u = self.case["use"]
            if u & 1:
                o.w(f"inline int us{n}() {{ t{n}<int> x; t{n}<long> y; return x.mm() + y.mm() + x.oo() + x.tm(1) + y.tm('a'); }}\n")
            if u & 2:
                o.w(f"template struct t{n}<short>;\n")
        elif k == "tfn":
            o.w(f"template <class T> void f{n}(T tt) ")
            B()
            if self.case["use"] & 1:
                o.w(f"\ntemplate void f{n}<int>(int);\ninline void us{n}() {{ f{n}(1); f{n}(2L); }}")
        elif k == "glam":
            o.w(f"static auto g{n} = []() ")
            B()
            o.w(";")
        elif k == "out":
            o.w(f"struct o{n} {{ void mm(int); }};\nvoid o{n}::mm(int) ")
            B()
        elif k == "spec":
            o.w(f"template <class T> struct s{n} {{ int mm() {{ ")
            self.probe(o, live, "ei")
            o.w(f"return 1; }} }};\ntemplate <> struct s{n}<int> {{ int mm() {{ ")
            self.probe(o, live, "ei0")
            o.w("return 1; } };")
        elif k == "nested":
            o.w(f"struct x{n} {{ struct y {{ struct z {{ void mm() ")
            B()
            o.w(" }; }; };")
        elif k == "ext1":
            o.w(f"extern \"C\" void f{n}(void) ")
            B()
        elif k == "lins":
            o.w(f"struct d{n} {{ int dm = [] {{ ")
            self.probe(o, live, "bw")
            o.w("return 1; }(); };")
        elif k == "clsexp":
            o.w(f"class e{n} {{ public: explicit operator bool() const noexcept ")
            o.w("{ ")
            self.items(o, live, [i for i in items if i[1] not in ("lam",)])
            o.w("return true; } };")
        elif k == "impl":
            o.w(f"__attribute__((objc_root_class)) @interface I{n} {{ int iv; }}\n- (void)mm;\n@end\n@implementation I{n}\n- (void)mm ")
            B()
            o.w("\n+ (int)cm:(int)aa { ")
            self.probe(o, live, "ei")
            o.w(f"return 1; }}\nvoid f{n}(void) ")
            B2 = [i for i in items if i[0] == "p"]
            self.body(o, live, B2)
            o.w("\n@end")
        elif k == "cat":
            o.w(f"__attribute__((objc_root_class)) @interface J{n}\n@end\n@implementation J{n}\n@end\n@interface J{n} (Cc)\n- (void)nn;\n@end\n"
                f"@implementation J{n} (Cc)\n- (void)nn ")
            B()
            o.w("\n@end")
        elif k == "gblk":
            o.w(f"void (^b{n})(void) = ^ ")
            B()
            o.w(";")
        o.w("\n")

    def decl2(self, o, live, s, ctx):
        if ctx == "extc":
            ks = CTX[self.lang]
            if ks[s["k"] % len(ks)] not in ("fn", "sfn", "mac", "cls", "nested", "out", "lins", "extc", "ext1", "glam", "clsexp"):
                return
        self.decl(o, live, s)

    def include(self, o, live, k, inside):
        k %= 3
        if k in self.included:
            return
        self.included.add(k)
        p = os.path.join(self.d, "inc", f"hdr{k}.h")
        h = Out(p, live)
        for s in self.case["hdr"][k]:
            self.decl(h, live and inside, s)
        self.files[p] = h
        o.w(f"\n#include \"hdr{k}.h\"\n")

    def build(self):
        o = Out(self.main, True)
        pre = "extern int gg, gh;\n"
        if self.case["macros"] == "main":
            o.w(MACROS)
        else:
            p = os.path.join(self.d, "inc", "macros.h")
            h = Out(p, True)
            h.w(MACROS)
            self.files[p] = h
            o.w("#include \"macros.h\"\n")
        o.w(pre)
        for j, s in enumerate(self.case["main"]):
            if j == self.case["where"]:
                self.include(o, True, 0, False)
                self.include(o, True, 1, False)
            self.decl(o, True, s)
        self.include(o, True, 2, False)
        self.files[self.main] = o
        for p, f in self.files.items():
            write(p, "".join(f.text))


class Attribution(Sub):
    name = "attribution"
    quick, thorough = 700, 8000

    def strategy(self):
        return case

    def test(self, ctx, case):
        i = ctx.inst(rules=LOADED)
        d = tempfile.mkdtemp(prefix="c", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            os.makedirs(os.path.join(d, "src"))
            os.makedirs(os.path.join(d, "inc"))
            b = Build(case, d)
            b.build()
            fl = {"c": ["-std=gnu11", "-Wno-deprecated-non-prototype"], "cpp": ["-std=c++17"], "m": ["-fblocks"]}[case["lang"]]
            main = os.path.relpath(b.main, d) if case["rel"] else b.main
            r = oclint(ctx, i, ["-report-type", "verif", "-max-priority-1", "9999", "-max-priority-2", "9999", "-max-priority-3", "9999", main,
                                "--", "-w", "-I", os.path.join(d, "inc"), *fl], cwd=d)
            rep = need_report(r)
            texts = "\n".join(f"--- {p}\n" + "".join(f.text) for p, f in b.files.items())
            if rep.errors:
                raise Fail(f"the generated source does not compile: {rep.errors}\n{texts}")
            got = [(v.rule, os.path.normpath(os.path.join(d, v.path)), v.sl, v.sc, v.el, v.ec) for v in rep.violations]
            diff_multiset(got, b.want, f"violations (of {len(b.want)} expected) for\n{texts}")
            mains = [w for w in b.want if w[1] == b.main]
            return ["quiet" if b.quiet and mains else "", "fragment" if len(mains) < len(b.want) else "", case["lang"] if mains and b.quiet else ""]
        finally:
            shutil.rmtree(d)


def subs(tier):
    return [Attribution()]
