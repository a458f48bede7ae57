"""Programs made of functions of many forms, and the size metrics over their trees."""
import os, shutil, tempfile
from hypothesis import strategies as st
from mini import *
from util import *

INT_MAX = 2 ** 31 - 1


class Fn:
    """A function or method definition: first token, body, extra expressions that are part of it (constructor initializers)."""

    def __init__(self, b, e, body, extra=()):
        self.b, self.e, self.body, self.extra = b, e, body, list(extra)


def source(case, **opt):
    """-> Program with .fns (definitions), .roots (all trees, for rules that look at statements anywhere)."""
    src = Src(bytes.fromhex(case["b"]))
    lang = case["lang"]
    P = Program(lang)
    P.fns, P.roots, P.cls, P.n = [], [], [], 0
    P.gen = g = Gen(src, lang, **opt)
    for _ in range(1 + src.n(4)):
        container(P, g, src)
        if not src.left():
            break
    if not opt.get("unfinished"):
        P.finish(Src(bytes.fromhex(case["lay"])), case["style"])
    return P


def body(g, ret, params):
    g.scopes = [["ga", "gb", "gc"] + params, []]
    g.labels, g.loop, g.brk, g.nojump, g.ret = [], 0, 0, 0, ret
    b = N("compound", body=g.stmts(g.s.n(5), g.o["depth"]))
    if ret == "int" and g.s.n(2):
        b.body.append(N("return", sub=par(g.expr(2), 1)))
    return b


def define(P, g, head, ret, params, extra=None):
    """head tokens, optional ': member(expr)', body; records the function."""
    b = P.here()
    P.w(*head)
    ex = []
    if extra:
        P.w(":")
        g.labels, g.loop, g.brk, g.nojump, g.ret = [], 0, 0, 0, ret
        for k, m in enumerate(extra):
            if k:
                P.w(",")
            P.w(m, "(")
            g.scopes = [["ga", "gb", "gc"] + params]
            e = par(g.expr(2), 2)
            P.p(e)
            ex.append(e)
            P.w(")")
    bd = body(g, ret, params)
    P.p(bd)
    P.fns.append(Fn(b, P.here() - 1, bd, ex))
    P.roots += ex + [bd]


PAR = [([], []), (["int", "pa"], ["pa"]), (["int", "pa", ",", "int", "pb"], ["pa", "pb"])]


def params(s, c):
    toks, names = s.pick(PAR)
    return (toks or (["void"] if c else [])), names


def container(P, g, s):
    P.n += 1
    k = P.n
    cpp, objc = P.lang in ("cpp", "mm"), P.lang in ("m", "mm")
    j = s.n(10)
    if j < 3 and g.o.get("bools") and s.n(2):
        t, ns = params(s, not cpp)
        define(P, g, ["bool" if cpp else "BOOL", f"fn{k}", "(", *t, ")"], "bool", ns)
        return
    if j == 1:
        t, ns = params(s, not cpp)
        define(P, g, ["static", "void", f"fn{k}", "(", *t, ")"], "void", ns)
        return
    if j == 2:           # a declaration besides the definition
        t, ns = params(s, not cpp)
        P.w("int", f"fn{k}", "(", *t, ")", ";")
        define(P, g, ["int", f"fn{k}", "(", *t, ")"], "int", ns)
        if s.n(2) and not g.o.get("nolater"):
            P.w("int", f"fn{k}", "(", *t, ")", ";")
        return
    if j == 3 and cpp:
        P.w("template", "<", "typename", "T", ">")
        nodep = g.o.get("nodep")          # no expression depends on the template parameter
        define(P, g, ["int", f"fn{k}", "(", *(["T", "pt", ",", "int", "pa"] if nodep else ["T", "pa"]), ")"], "int", ["pa"])
        if nodep:
            return
        if s.n(2):
            P.w("int", f"use{k}", "=", f"fn{k}", "(", "1", ")", ";")
        if s.n(2):
            P.w("long", f"usl{k}", "=", f"fn{k}", "(", "1L", ")", ";")
        return
    if j == 4 and cpp:
        P.w("namespace", f"ns{k}", "{")
        define(P, g, ["inline", "int", f"fn{k}", "(", ")"], "int", [])
        P.w("}")
        return
    if j in (5, 6, 7) and cpp:
        cb = P.here()
        P.w(s.pick(["struct", "class"]), f"Cls{k}", "{", "public", ":")
        late = []
        for q in range(1 + s.n(3)):
            h = s.n(7)
            if h == 0:
                t, ns = params(s, False)
                define(P, g, ["int", f"me{q}", "(", *t, ")"] + s.pick([[], ["const"]]), "int", ns)
            elif h == 1:
                t, ns = params(s, False)
                P.w("int", f"me{q}", "(", *t, ")", ";")
                late.append((["int", f"Cls{k}", "::", f"me{q}", "(", *t, ")"], "int", ns))
            elif h == 2 and not any("ctor" == x for x in late):
                late.append("ctor")
                define(P, g, s.pick([[], ["explicit"]]) + [f"Cls{k}", "(", "int", "pa", ")"], "void", ["pa"], ["xa", "xb"][:1 + s.n(2)])
            elif h == 3 and "dtor" not in late:
                late.append("dtor")
                define(P, g, s.pick([[], ["virtual"]]) + ["~", f"Cls{k}", "(", ")"], "void", [])
            elif h == 4:
                define(P, g, ["static", "int", f"me{q}", "(", ")"], "int", [])
            elif h == 5:
                P.w("template", "<", "class", "T", ">")
                define(P, g, ["void", f"me{q}", "(", *(["T", "pt", ",", "int", "pa"] if g.o.get("nodep") else ["T", "pa"]), ")"], "void", ["pa"])
            else:
                P.w("void", f"me{q}", "(", ")", "=", "delete", ";")
        P.cls.append((cb, P.w("int", "xa", ",", "xb", ";", "}")))
        P.w(";")
        for x in late:
            if not isinstance(x, str):
                define(P, g, *x)
        return
    if j == 8 and (cpp or objc):
        g.scopes = [["ga", "gb", "gc"], []]
        g.labels, g.loop, g.brk, g.nojump, g.ret = [], 0, 0, 0, "int"
        b = N("compound", body=g.stmts(s.n(4), g.o["depth"]) + [N("return", sub=g.leaf())])
        if cpp:
            P.w("auto", f"glam{k}", "=")
            n = N("lambda", cap="", params=[], ret=True, body=b)
        else:
            for r in b.walk():
                if r.kind == "return" and r.sub is not None:
                    r.sub = N("cast", ty=["int"], sub=par(r.sub, 16))
            P.w("int", "(", "^", f"glam{k}", ")", "(", "void", ")", "=")
            n = N("block", params=[], body=b)
        P.p(n)
        P.w(";")
        P.roots.append(n)
        return
    if j in (5, 6, 7, 9) and objc:
        P.w("__attribute__", "(", "(", "objc_root_class", ")", ")", "@interface", f"Cls{k}")
        ms = []
        for q in range(1 + s.n(3)):
            h = s.n(4)
            toks, ns = [(["-", "(", "int", ")", f"me{q}"], []), (["-", "(", "int", ")", f"me{q}", ":", "(", "int", ")", "pa"], ["pa"]),
                        (["+", "(", "int", ")", f"me{q}", ":", "(", "int", ")", "pa", "with", ":", "(", "int", ")", "pb"], ["pa", "pb"]),
                        (["-", "(", "void", ")", f"me{q}"], [])][h]
            ms.append((toks, "void" if h == 3 else "int", ns))
            if h == 3 or s.n(2):
                P.w(*toks, ";")
        P.w("@end")
        P.w("@implementation", f"Cls{k}")
        for m in ms:
            define(P, g, *m)
        if s.n(3) == 2:
            t, ns = params(s, True)
            define(P, g, ["int", f"fn{k}", "(", *t, ")"], "int", ns)
        P.w("@end")
        return
    t, ns = params(s, not cpp)
    define(P, g, ["int", f"fn{k}", "(", *t, ")"], "int", ns)


# ---------------------------------------------------------------- models

def ccn(fn):
    n = 1
    for root in fn.extra + [fn.body]:
        for x in root.walk():
            if x.kind in ("if", "while", "do", "for", "rfor", "forin", "case", "catch", "atcatch", "cond"):
                n += 1
            elif x.kind == "bin" and x.op in ("&&", "||"):
                n += 1
    return n


def npath_e(e):
    if e is None:
        return 0
    k = e.kind
    if k == "paren" or k in ("cast", "cxxcast"):
        return npath_e(e.sub)
    if k == "cond":
        return npath_e(e.c) + npath_e(e.t) + npath_e(e.f_) + 2
    if k == "bin" and e.op in ("&&", "||"):
        return 1 + npath_e(e.l) + npath_e(e.r)
    return 0


def npath(s):
    k = s.kind
    if k == "compound":
        r = 1
        for x in s.body:
            r *= npath(x)
        return r
    if k == "if":
        return npath_e(s.cond) + npath(s.then) + (npath(s.els) if s.els else 1)
    if k in ("while", "do"):
        return npath_e(s.cond) + npath(s.body) + 1
    if k == "for":
        return 1 + npath_e(s.cond) + npath_e(s.inc) + npath(s.body) + 1
    if k in ("forin", "rfor"):
        return npath(s.body) + 2
    if k == "switch":
        t, grp = npath_e(s.cond), 0
        for x in s.body.body:
            if x.kind in ("case", "default"):
                t += grp
                grp = npath(x)
            else:
                grp *= npath(x)
        return t + grp
    if k in ("case", "default"):
        return npath(s.sub)
    return 1


def ncss(s):
    k = s.kind
    if k == "null":
        return 0
    if k == "compound":
        return sum(map(ncss, s.body))
    if k == "if":
        return 1 + ncss(s.then) + (1 + ncss(s.els) if s.els else 0)
    if k in ("while", "for", "forin", "rfor", "switch", "catch", "atcatch", "atfinally", "atsync", "atpool"):
        return 1 + ncss(s.body)
    if k == "do":
        return 2 + ncss(s.body)
    if k in ("case", "default"):
        return 1 + ncss(s.sub)
    if k == "try":
        return 1 + ncss(s.body) + sum(map(ncss, s.catches))
    if k == "attry":
        return 1 + ncss(s.body) + sum(map(ncss, s.catches)) + (ncss(s.fin) if s.fin else 0)
    return 1


def depth(s):
    k = s.kind
    if k == "compound":
        return 1 + max([0] + [depth(x) for x in s.body])
    if k == "if":
        return max(depth(s.then), depth(s.els) if s.els else 0)
    if k in ("while", "do", "for", "forin", "rfor", "switch", "catch", "atcatch", "atfinally", "atsync", "atpool"):
        return depth(s.body)
    if k in ("case", "default"):
        return depth(s.sub)
    if k == "try":
        return max([depth(s.body)] + [depth(c) for c in s.catches])
    if k == "attry":
        return max([depth(s.body)] + [depth(c) for c in s.catches] + ([depth(s.fin)] if s.fin else []))
    return 0


# ---------------------------------------------------------------- running

def write_run(ctx, inst, P, case, args, ext=None, prelude=None):
    """Writes the program and runs the rules; -> (report, path, text)."""
    prelude = PRELUDE[P.lang] if prelude is None else prelude
    text = prelude + P.text
    P.base = prelude.count("\n")
    d = tempfile.mkdtemp(prefix="c", dir=inst.dir)
    os.chmod(d, 0o777)
    try:
        p = write(os.path.join(d, "s." + (ext or P.lang)), text)
        r = oclint(ctx, inst, ["-report-type", "verif"] + args + [p, "--", "-w"] + FLAGS[P.lang] + getattr(P, "flags", []), cwd=d)
        rep = need_report(r, text)
        if rep.errors:
            if os.environ.get("VERIF_STRICT"):
                raise HarnessText(f"the generated program does not compile: {rep.errors[:3]}\n{text}")
            raise Discard()
        return rep, p, text
    finally:
        shutil.rmtree(d)


class HarnessText(Exception):
    pass


def bytes_strategy(sizes=(0, 40, 120, 300)):
    return st.sampled_from(sizes).flatmap(lambda m: st.binary(min_size=m, max_size=2 * m + 20)).map(bytes.hex)


def program_strategy(langs, **more):
    d = {"lang": st.sampled_from(langs), "b": bytes_strategy(), "style": st.sampled_from([4, 0, 1, 2, 3, 5, 5]),
         "lay": st.binary(max_size=60).map(bytes.hex)}
    d.update(more)
    return st.fixed_dictionaries(d)


class MetricSub(Sub):
    """Functions whose metric exceeds the threshold are reported, and nothing else."""
    rule = key = msg = None
    default = 0
    langs = ["c", "cpp", "m", "mm"]
    opts = {}
    quick, thorough = 700, 12000

    def strategy(self):
        return program_strategy(self.langs, t=st.integers(0, 2 ** 16))

    def values(self, P):
        """-> list of (value, first token, last token)"""
        raise NotImplementedError

    def program(self, case):
        return source(case, **self.opts)

    def threshold(self, case, vals):
        t = case["t"]
        if t % 5 == 4:
            return None
        vs = sorted({v for v, _, _ in vals}) or [1]
        if t % 5 == 0:
            return 1 + t // 5 % 12
        return max(1, vs[t // 5 % len(vs)] - (t % 2))

    def test(self, ctx, case):
        P = self.program(case)
        vals = self.values(P)
        th = self.threshold(case, vals)
        i = ctx.inst(rules=[self.rule_file])
        rep, path, text = write_run(ctx, i, P, case, [] if th is None else ["-rc", f"{self.key}={th}"])
        lim = self.default if th is None else th
        want = [(self.rule, self.msg.format(n=v, t=lim), P.base + P.at(b)[0], P.at(b)[1], P.base + P.at(e)[0], P.at(e)[1]) for v, b, e in vals if v > lim]
        got = [(v.rule, v.msg, v.sl, v.sc, v.el, v.ec) for v in rep.violations]
        diff_multiset(got, set(want), f"{P.lang}, limit {lim}\n{text}\n")
        n = len(want)
        at = any(v == lim or v == lim + 1 for v, _, _ in vals)
        return [P.lang if n else "", "boundary" if at else "", "several" if n > 1 else "", "big" if any(v > 30 for v, _, _ in vals) else ""]


class TreeSub(Sub):
    """A family of statement rules against models over the generated tree."""
    langs = ["c", "cpp", "m", "mm"]
    opts = {}
    rule_files = ()
    quick, thorough = 500, 9000
    style = True

    def strategy(self):
        return program_strategy(self.langs, t=st.integers(0, 2 ** 16))

    def rules(self, case):
        """-> ({rule name: model}, command line arguments)"""
        raise NotImplementedError

    def program(self, case):
        return source(case, **self.opts)

    def prelude(self, lang):
        return PRELUDE[lang]

    def test(self, ctx, case):
        import models
        P = self.program(case)
        P.consts = getattr(P, "consts", {"EA": 0, "EB": 1, "EC": 2})
        rules, args = self.rules(case)
        P.base = self.prelude(P.lang).count("\n")
        want = models.expected(P, rules)
        i = ctx.inst(rules=self.rule_files)
        rep, path, text = write_run(ctx, i, P, case, args, prelude=self.prelude(P.lang))
        got = [(v.rule, v.msg, v.sl, v.sc, v.el, v.ec) for v in rep.violations]
        diff_multiset(got, set(want), f"{P.lang} {args}\n{text}\n")
        return sorted({w[0] for w in want})
