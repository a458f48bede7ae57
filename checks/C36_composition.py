"""C36: rules, thresholds and declarations of a source do not influence each other."""
import random, re
from collections import Counter
from anyprog import *
from hypothesis import strategies as st

NEEDS = dict(rules=None, reporters=[])
RULE = ("generated programs, snippets and unusual syntax under generated thresholds: the violations of all rules are those of the parts of a partition of the rules; "
        "one changed threshold changes the violations of its rule only; those of two programs in one file are those of each alone, in either order, also with "
        "all names replaced, and those of n copies n times those of one (non-trivial: violations of at least two rules, or in both programs)")
HERE = os.path.dirname(os.path.abspath(__file__))
EXO = {l: open(os.path.join(HERE, "..", "corpus", "exotic", l + ".txt")).read().split("//----\n") for l in ("c", "cpp", "m", "mm")}
EXO["mm"] = EXO["mm"] + EXO["m"]
EXOF = {"c": ["-std=gnu17"], "cpp": ["-std=c++23", "-fexceptions"], "m": ["-fblocks", "-fobjc-runtime=macosx", "-fobjc-exceptions"],
        "mm": ["-fblocks", "-fobjc-exceptions", "-fobjc-runtime=macosx", "-std=c++20", "-fexceptions"]}
OWNER = {"CYCLOMATIC_COMPLEXITY": "high cyclomatic complexity", "NPATH_COMPLEXITY": "high npath complexity", "NCSS_METHOD": "high ncss method",
         "NESTED_BLOCK_DEPTH": "deep nested block", "LONG_LINE": "long line", "LONG_METHOD": "long method", "LONG_CLASS": "long class", "TOO_MANY_FIELDS": "too many fields",
         "TOO_MANY_METHODS": "too many methods", "TOO_MANY_PARAMETERS": "too many parameters", "SHORT_VARIABLE_NAME": "short variable name",
         "LONG_VARIABLE_NAME": "long variable name", "MAXIMUM_IF_LENGTH": "prefer early exits and continue", "MINIMUM_CASES_IN_SWITCH": "too few branches in switch statement"}


def any_text(case):
    if case["kind"] == "exotic":
        b = bytes.fromhex(case["b"])
        x = EXO[case["lang"]]
        return x[(b[0] * 256 + b[1]) % len(x) if len(b) > 1 else 0] + "\n", EXOF[case["lang"]]
    return text(case)


def bag(vs):
    return Counter(v.key() for v in vs)


def same(a, b, what):
    a, b = bag(a), bag(b)
    if a != b:
        raise Fail(f"{what}: only first {sorted((a - b).elements())}; only second {sorted((b - a).elements())}")


class Partition(Sub):
    name = "partition"
    quick, thorough = 200, 8000

    def strategy(self):
        return any_strategy(kinds=("mini", "decls", "snippet", "exotic"), parts=st.binary(min_size=72, max_size=72).map(bytes.hex), n=st.sampled_from([2, 2, 3, 5]), off=st.booleans())

    def test(self, ctx, case):
        i = ctx.inst()
        t, flags = any_text(case)
        args = lowargs(case["low"])
        whole = run_text(ctx, i, case["lang"], t, flags, args)
        compiles(whole, t, dict(case, kind="snippet" if case["kind"] == "exotic" else case["kind"]))
        names = RULES(ctx, i)
        got = []
        b = bytes.fromhex(case["parts"])
        for k in range(case["n"]):
            mine = [r for j, r in enumerate(names) if b[j % len(b)] % case["n"] == k]
            if case["off"]:
                sel = [x for r in names if r not in mine for x in ("-disable-rule", r)]
            else:
                sel = [x for r in mine for x in ("-rule", r)]
                if not mine:
                    sel = ["-rule", "no such rule"]
            rep = run_text(ctx, i, case["lang"], t, flags, args + sel)
            got += rep.violations
        f = lambda vs: [fix(v) for v in vs]
        same(f(whole.violations), f(got), f"all rules together, and the parts of a partition into {case['n']} ({'others disabled' if case['off'] else 'selected'}), {args} {flags}\n{t}\n")
        n = len({v.rule for v in whole.violations})
        return [case["lang"] if n > 1 else "", "many" if n > 7 else "", case["kind"] if n > 1 else "", "off" if case["off"] and n > 1 else ""]


def fix(v):
    """without the scratch directory"""
    w = type(v)(v.rule, v.cat, v.pri, os.path.basename(v.path), v.sl, v.sc, v.el, v.ec, v.msg)
    return w


def RULES(ctx, i):
    if not hasattr(i, "rule_names"):
        r = oclint(ctx, i, ["-list-enabled-rules", "-report-type", "verif", "x.c", "--"])
        i.rule_names = sorted(l[2:] for l in r.out.decode().split("\n") if l.startswith("- "))
        if len(i.rule_names) < 60:
            raise RuntimeError("rules are not listed")
    return i.rule_names


class Threshold(Sub):
    name = "threshold"
    quick, thorough = 150, 6000

    def strategy(self):
        return any_strategy(kinds=("mini", "decls", "snippet", "exotic"), key=st.sampled_from(sorted(OWNER)), v=st.integers(0, 40))

    def test(self, ctx, case):
        i = ctx.inst()
        t, flags = any_text(case)
        args = lowargs(case["low"])
        a = run_text(ctx, i, case["lang"], t, flags, args)
        compiles(a, t, dict(case, kind="snippet" if case["kind"] == "exotic" else case["kind"]))
        b = run_text(ctx, i, case["lang"], t, flags, args + ["-rc", f"{case['key']}={case['v']}"])
        rule = OWNER[case["key"]]
        rest = lambda r: [fix(v) for v in r.violations if v.rule != rule]
        same(rest(a), rest(b), f"rules other than {rule}, without and with {case['key']}={case['v']} ({args})\n{t}\n")
        x, y = (sum(v.rule == rule for v in r.violations) for r in (a, b))
        return [case["lang"] if x != y else "", case["key"] if x != y else ""]


WORD = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|\b[A-Za-z_]\w*|\b\d[\w.]*|.', re.S)
KEY = set("""__VA_ARGS__ alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class co_await co_return co_yield compl concept const consteval
constexpr constinit const_cast continue decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if import inline int long module
mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires restrict return short signed sizeof static static_assert
static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq final override typeof
define undef ifdef ifndef endif if elif else include pragma line error warning defined once main std NULL nil Nil YES NO BOOL id Class SEL IMP self super _cmd unused annotate
maybe_unused nodiscard noreturn deprecated fallthrough likely unlikely initializer_list size_t ptrdiff_t va_list memcpy memset strlen malloc free printf abs errno linux unix i386""".split())


def renamer(k, keep):
    """An injective, length preserving replacement of names (except those in keep)."""
    def one(w):
        out = []
        for j, c in enumerate(w):
            if c.isalpha():
                base = 97 if c.islower() else 65
                out.append(chr(base + (ord(c) - base + k) % 26))
            else:
                out.append(c)
        return "".join(out)
    return lambda w: w if w in keep or w.startswith("__") else one(w)


def rename(t, f):
    return "".join(f(x) if x[0].isalpha() or x[0] == "_" else x for x in WORD.findall(t))


def split(case):
    """-> prelude, text of the program, flags"""
    lang = case["lang"]
    P, pre = tokens(case)
    P.finish(Src(bytes.fromhex(case["lay"])), case["style"])
    return pre, P.text, FLAGS[lang] + getattr(P, "flags", [])


def words(t):
    return {x for x in WORD.findall(t) if x[0].isalpha() or x[0] == "_"}


def moved(vs, by, f=None):
    out = []
    for v in vs:
        m = v.msg if f is None else rename_msg(v.msg, f)
        out.append(type(v)(v.rule, v.cat, v.pri, os.path.basename(v.path), v.sl + by, v.sc, v.el + by, v.ec, m))
    return out


def rename_msg(m, f):
    # names are quoted in messages
    return re.sub(r"(['`])([A-Za-z_][\w.]*)(['`])", lambda x: x.group(1) + f(x.group(2)) + x.group(3), m)


class Neighbours(Sub):
    name = "neighbours"
    quick, thorough = 200, 8000

    def strategy(self):
        one = {"b": bytes_strategy((0, 40, 120)), "style": st.sampled_from([4, 0, 1, 2, 3, 5]), "lay": st.binary(max_size=40).map(bytes.hex)}
        return st.fixed_dictionaries({"lang": st.sampled_from(["c", "cpp"]), "kind": st.sampled_from(["mini", "decls"]), "one": st.fixed_dictionaries(one),
                                      "two": st.fixed_dictionaries(one), "low": st.integers(0, 2 ** len(LOW) - 1), "rot": st.integers(1, 25)})

    def test(self, ctx, case):
        i = ctx.inst()
        lang = case["lang"]
        mk = lambda x: split({"lang": lang, "kind": case["kind"], **x})
        pre, A, flags = mk(case["one"])
        _, B, _ = mk(case["two"])
        A, B = A.rstrip("\n\\") + "\n", B.rstrip("\n\\") + "\n"
        args = lowargs(case["low"])
        run = lambda t: run_text(ctx, i, lang, t, flags, args)
        base = pre.count("\n")
        ra = run(pre + A)
        compiles(ra, pre + A, case)
        rb = run(pre + B)
        compiles(rb, pre + B, case)
        keep = KEY | words(pre)
        # names that are taken by the other program or are special become something else
        for j in range(26):
            f = renamer((case["rot"] + j) % 26 or 26, keep)
            new = {f(w) for w in words(B)} - keep
            if case["rot"] + j != 26 and not any(f(w) in keep or f(w) in words(A) for w in words(B) - keep):
                break
        else:
            raise Discard()
        B2 = rename(B, f)
        rb2 = run(pre + B2)
        if rb2.errors:
            if os.environ.get("VERIF_STRICT"):
                raise HarnessText(f"renamed program does not compile {rb2.errors[:3]}\n{pre + B2}")
            raise Discard()
        same(moved(rb.violations, 0, f), moved(rb2.violations, 0), f"a program, and the same with other names ({args})\n{pre + B}\n----\n{B2}\n")
        pv = [v for v in ra.violations if v.el <= base]
        la, lb = A.count("\n"), B2.count("\n")
        inner = lambda r: [v for v in r.violations if v.el > base]
        for x, y, n, r1, r2 in ((A, B2, la, ra, rb2), (B2, A, lb, rb2, ra)):
            t = pre + x + y
            rep = run(t)
            if rep.errors:
                if os.environ.get("VERIF_STRICT"):
                    raise HarnessText(f"both programs do not compile together {rep.errors[:3]}\n{t}")
                raise Discard()
            same(moved(rep.violations, 0), moved(pv, 0) + moved(inner(r1), 0) + moved(inner(r2), n), f"two programs in one file, and each alone ({args})\n{t}\n")
        n = bool(inner(ra)) and bool(inner(rb2))
        return [lang if n else "", case["kind"] if n else "", "many" if len(ra.violations) + len(rb2.violations) > 20 else ""]


class Copies(Sub):
    """Sources as large as real ones: what is reported grows with the source."""
    name = "copies"
    weight = 0.6
    quick, thorough = 60, 2500

    def strategy(self):
        return st.fixed_dictionaries({"lang": st.sampled_from(["cpp", "cpp", "c"]), "kind": st.sampled_from(["mini", "decls"]), "b": bytes_strategy((0, 40, 120)),
                                      "style": st.sampled_from([4, 0, 1, 2, 3, 5]), "lay": st.binary(max_size=40).map(bytes.hex), "n": st.sampled_from([3, 12, 40, 120, 200]),
                                      "low": st.integers(0, 2 ** len(LOW) - 1)})

    def test(self, ctx, case):
        i = ctx.inst()
        lang = case["lang"]
        if lang == "c":
            case = dict(case, kind="mini")
        pre, A, flags = split(case)
        A = A.rstrip("\n\\") + "\n"
        args = lowargs(case["low"])

        def copy(k):
            if lang == "cpp":
                return f"namespace n{k:03} {{\n{A}\n}}\n"
            return re.sub(r"\bfn(\d+)\b", rf"fn\1x{k:03}", A)
        one = copy(0)
        base, h = pre.count("\n"), one.count("\n")
        ra = run_text(ctx, i, lang, pre + one, flags, args)
        compiles(ra, pre + one, case)
        t = pre + "".join(copy(k) for k in range(case["n"]))
        rep = run_text(ctx, i, lang, t, flags, args)
        if rep.errors:
            if os.environ.get("VERIF_STRICT"):
                raise HarnessText(f"copies do not compile together {rep.errors[:3]}\n{pre + one}{copy(1)}")
            raise Discard()
        inner = [v for v in ra.violations if v.sl > base]
        plain = lambda vs: [type(v)(v.rule, v.cat, v.pri, v.path, v.sl, v.sc, v.el, v.ec, re.sub(r"\bn\d\d\d\b|(?<=x)\d\d\d\b", "nnn", v.msg)) for v in vs]
        want = [w for k in range(case["n"]) for w in moved(inner, k * h)]
        same(plain(moved(rep.violations, 0)), plain(moved([v for v in ra.violations if v.sl <= base], 0) + want), f"{case['n']} copies of a program, and one ({args}), the last copy:\n{pre}{copy(case['n'] - 1)}\n")
        return [lang if inner else "", case["kind"] if inner else "", "hundreds" if len(rep.violations) > 200 else "", "thousands" if len(rep.violations) > 2000 else ""]


def subs(tier):
    return [Partition(), Threshold(), Neighbours(), Copies()]
