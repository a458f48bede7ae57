"""C28: __attribute__((annotate("oclint:suppress..."))) on declarations."""
from anyprog import *

NEEDS = dict(rules=None, reporters=[])
RULE = ("generated functions, methods, classes, parameters and local variables in C, C++ and Objective-C, some annotated, analyzed by all rules twice: with annotations that mean "
        "nothing, and with oclint:suppress annotations of equal length for all rules or for one; exactly the violations of these rules within the annotated declarations must "
        "disappear (non-trivial: some disappear and some stay)")
SIZE = 150
COCOA = {"missing call to base method", "calling prohibited method", "calling protected method", "missing abstract method implementation"}
FAKES = ["oclint:suppres", "oclint:suppress[]", "Oclint:suppress", "oclint:suppress[{r}", "oclint:suppress{r}", "suppress", "oclint:enforce[{r}]", "oclint:suppress ", "oclint:suppress[{r} ]",
         "oclint:suppress[unknown rule]", "oclint:suppress[[{r}]]", "oclint:suppressed", ":suppress", "oclint:suppress[X{r}]", "", "oclint:Suppress[{r}]"]
COMMENT = ["", "[why]", "[]", "[a [nested] one]"]


def token(s):
    t = '__attribute__((annotate("' + s + '")))'
    return t[:13] + t[13:15] + " " * (SIZE - len(t)) + t[15:]


def places(P, kind, lang):
    """-> list of (token index to insert before, first token, last token) of declarations that can be annotated"""
    out, t = [], P.pr.o.t
    for f in P.fns:
        head = t[f.b]
        body = f.body.b if kind == "mini" else f.bb
        if head in ("-", "+"):
            out.append((body, f.b, f.e))
        elif head != "friend":
            out.append((f.b, f.b, f.e))
    if kind == "mini":
        out += [(b + 1, b, e) for b, e in P.cls]
        return out
    for c in P.classes:
        if t[c.b] in ("struct", "class", "union"):
            out.append((c.b + 1, c.b, c.e))
        elif t[c.b] in ("@interface", "@protocol") and c.kind != "Objective-C category":
            out.append((c.b, c.b, c.e))
    for v in P.vars:
        if v.__dict__.get("param"):
            out.append((v.e + 1, v.b, v.e))
        elif v.__dict__.get("single") and v.e is not None:
            out.append((v.b, v.b, v.e))
    return out


class Attributes(Sub):
    name = "attributes"
    quick, thorough = 350, 6000

    def strategy(self):
        return any_strategy(kinds=("mini", "decls"), marks=st.lists(st.tuples(st.integers(0, 400), st.integers(0, 5), st.integers(0, 1000)), min_size=1, max_size=4))

    def test(self, ctx, case):
        P, pre = tokens(case, nolater=True)
        toks = P.pr.o.t
        if not toks or P.lang == "c" and case["kind"] == "mini" and not P.fns:
            raise Discard()
        ps = places(P, case["kind"], case["lang"])
        if not ps:
            raise Discard()
        marks = {}
        for w, how, which in case["marks"]:
            marks.setdefault(ps[w % len(ps)], (how, which))
        marks = [(*p, *m) for p, m in sorted(marks.items())]
        new, at, where = [], {}, {}
        for k, t in enumerate(toks + [None]):
            for j, m in enumerate(marks):
                if m[0] == k:
                    where[j] = len(new)
                    new.append(token(f"dummy{j:02}"))
            at[k] = len(new)
            if t is not None:
                new.append(t)
        toks[:] = new
        P.finish(Src(bytes.fromhex(case["lay"])), 6 if case["style"] == 5 else case["style"])
        plain = pre + P.text
        base = pre.count("\n")
        flags = FLAGS[case["lang"]] + getattr(P, "flags", [])
        args = lowargs(case["low"])
        i = ctx.inst()
        a = run_text(ctx, i, case["lang"], plain, flags, args)
        compiles(a, plain, case)

        def pos(tok):
            l, c = P.at(tok)
            return (l + base, c)
        rules = {}
        marked = plain
        for j, (ins, b, e, how, which) in enumerate(marks):
            lo = pos(min(where[j], at[b]))
            hi = pos(at[e])
            if at[e] in P.far:
                hi = (P.far[at[e]][0] + base, P.far[at[e]][1])
            hi = (hi[0], hi[1] + len(toks[at[e]]) - 1)      # @end is at "end"
            inner = [v for v in a.violations if self.inside(v, lo, hi)]
            names = sorted({v.rule for v in inner if v.rule not in COCOA}) or ["long line"]
            others = sorted({v.rule for v in a.violations if v.rule not in COCOA}) or ["long line"]
            r = names[which % len(names)]
            rule = None
            if how <= 1:
                text, rule = "oclint:suppress", True
            elif how <= 3:
                text, rule = f"oclint:suppress[{r}]" + COMMENT[which // 8 % len(COMMENT)], r
            elif how == 4:
                text = FAKES[which // 8 % len(FAKES)].format(r=r)
            else:
                r = others[which % len(others)]
                text, rule = f"oclint:suppress[{r}]", r
            rules[j] = (rule, lo, hi, pos(at[b]), pos(at[e])[0])
            marked = marked.replace(token(f"dummy{j:02}"), token(text))
        assert len(marked.encode()) == len(plain.encode())
        b = run_text(ctx, i, case["lang"], marked, flags, args)
        compiles(b, marked, case)
        key = lambda v: (v.rule, v.msg, v.sl, v.sc, v.el, v.ec)
        gone, stay, vague = [], [], set()
        # other declarations of an annotated class have its annotation too
        for j, m in enumerate(marks):
            if toks[at[m[1]]] in ("struct", "class", "union"):
                vague |= {k for k, l in enumerate(marked.split("\n"), 1) if toks[where[j] + 1] in l and not rules[j][1][0] <= k <= rules[j][2][0]}
        for v in a.violations:
            s = set()
            for rule, lo, hi, first, brace in rules.values():
                if rule is True or rule == v.rule:
                    if v.rule == "long line":
                        if lo[0] <= v.sl < first[0] or brace < v.sl <= hi[0]:
                            vague.add(v.sl)          # between the attribute and the rest of the declaration, or within braces a macro writes
                        elif first[0] <= v.sl <= hi[0]:
                            s.add(1)
                    elif self.inside(v, lo, hi):
                        s.add(1)
            (gone if s else stay).append(v)
        sure = lambda vs: [key(v) for v in vs if not (v.rule == "long line" and v.sl in vague)]
        diff_multiset(sure(b.violations), sure(stay), f"of {len(a.violations)} violations, {len(gone)} lie in annotated declarations: {rules}\n{marked}\n")
        n = len(gone)
        kinds = {toks[at[m[1]]] for m, r in zip(marks, rules.values()) if r[0] and n}
        return ["suppressed and not" if n and stay else "", "one rule" if n and any(isinstance(r[0], str) for r in rules.values()) else "",
                "class" if kinds & {"struct", "class", "union"} else "", "method" if kinds & {"-", "+"} else "", "interface" if kinds & {"@interface", "@protocol"} else "",
                "lines" if any(v.rule == "long line" for v in gone) else "", "decoy" if any(m[3] >= 4 for m in marks) and stay else ""]

    def inside(self, v, lo, hi):
        return (v.sl, v.sc) >= lo and (v.el, v.ec) <= hi


METH = st.fixed_dictionaries({"name": st.integers(0, 3), "cls": st.booleans(), "where": st.lists(st.tuples(st.sampled_from(["interface", "extension", "Cone", "Ctwo"]), st.integers(0, 6)).map(list),
                                                                                     min_size=1, max_size=3, unique_by=lambda w: w[0]),
                              "body": st.integers(0, 3), "cat": st.booleans(), "arg": st.booleans()})


class Declared(Sub):
    """Attributes on the declarations of Objective-C methods hold for their definitions."""
    name = "declared"
    quick, thorough = 150, 3000

    def strategy(self):
        return st.fixed_dictionaries({"lang": st.sampled_from(["m", "mm"]), "meths": st.lists(METH, min_size=1, max_size=5, unique_by=lambda m: (m["name"], m["cls"], m["arg"]))})

    def test(self, ctx, case):
        BODY = ["int x; x = 1;", "if (gaa) { }", "int x; if (gaa) { x = 2; }", "while (gaa) { }"]
        RULE = [["short variable name"], ["empty if statement"], ["short variable name"], ["empty while statement"]]
        ATT = ["oclint:suppress", "oclint:suppress[{r}]", "", "", "oclint:suppress[unknown]", "oclint:suppress[{r}][why]", "oclint:suppres"]
        decls = {w: [] for w in ("interface", "extension", "Cone", "Ctwo")}
        impl = {"": [], "Cone": []}
        lines = []
        for m in case["meths"]:
            sign = "+" if m["cls"] else "-"
            head = f"{sign} (void)mm{m['name']}" + (":(int)argument" if m["arg"] else "")
            where = m["where"]
            cat = m["cat"] and [w for w, _ in where] == ["Cone"]     # implemented by the category that declares it
            quiet = False
            for w, k in where:
                if w != "interface" and any(x == "interface" for x, _ in where):
                    k = 2           # a redeclaration: to the compiler the definition takes its attributes from the interface
                text = ATT[k].format(r=RULE[m["body"]][0])
                decls[w].append(head + (f' __attribute__((annotate("{text}")))' if text else "") + ";")
                quiet = quiet or k in (0, 1, 5)
            impl["Cone" if cat else ""].append((head, m["body"], quiet))
        out = ["extern int gaa;", "__attribute__((objc_root_class)) @interface Aaa", *decls["interface"], "@end"]
        for w in ("Cone", "Ctwo"):
            if decls[w]:
                out += [f"@interface Aaa ({w})", *decls[w], "@end"]
        if decls["extension"]:
            out += ["@interface Aaa ()", *decls["extension"], "@end"]
        want = []
        for c in ("", "Cone"):
            if c and not impl[c]:
                continue
            out.append("@implementation Aaa" + (f" ({c})" if c else ""))
            for head, b, quiet in impl[c]:
                out.append(f"{head} {{ {BODY[b]} }}")
                if not quiet:
                    want += [(r, len(out)) for r in RULE[b]]
            out.append("@end")
        t = "\n".join(out) + "\n"
        i = ctx.inst()
        rep = run_text(ctx, i, case["lang"], t, ["-fobjc-runtime=macosx"], ["-rule", "ShortVariableName", "-rule", "EmptyIfStatement", "-rule", "EmptyWhileStatement"])
        compiles(rep, t, {"kind": "declared"})
        diff_multiset([(v.rule, v.sl) for v in rep.violations], want, f"violations\n{t}\n")
        n = sum(q for x in impl.values() for _, _, q in x)
        return ["both" if n and want else "", "category" if any(w in ("Cone", "Ctwo") and k in (0, 1, 5) for m in case["meths"] for w, k in m["where"]) else "",
                "class method" if n and any(m["cls"] for m in case["meths"]) else ""]


def subs(tier):
    return [Attributes(), Declared()]
