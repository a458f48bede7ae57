"""C35: any source is analysed to an end, repeatably, and what is reported lies in the sources."""
import random, re
from anyprog import *
from hypothesis import strategies as st

NEEDS = dict(rules=None, reporters=[])
RULE = ("sources combined from generated programs, snippets and chunks of unusual syntax, with tokens deleted, doubled, swapped and moved, under generated "
        "flags, thresholds and analyses: the run ends with exit 0, 5 or 6, 6 exactly with compiler errors, is repeatable in another process with other memory "
        "contents, and reports nothing for broken sources and otherwise distinct violations inside existing files (non-trivial: violations are reported)")
HERE = os.path.dirname(os.path.abspath(__file__))
EXO = {l: open(os.path.join(HERE, "..", "corpus", "exotic", l + ".txt")).read().split("//----\n") for l in ("c", "cpp", "m", "mm")}
EXO["mm"] = EXO["mm"] + EXO["m"]
STD = {"c": ["gnu17", "gnu11", "c99", "gnu2x", "gnu89"], "m": ["gnu17", "gnu11", "gnu99"], "cpp": ["c++23", "gnu++20", "c++17", "gnu++14", "c++11"], "mm": ["c++20", "gnu++17", "c++11"]}
OBJC = ["-fblocks", "-fobjc-exceptions", "-fobjc-runtime=macosx"]
MORE = ["-O2", "-g", "-fblocks", "-fms-extensions", "-fsanitize=undefined", "-fno-exceptions", "-fexceptions", "-ffreestanding", "-fopenmp", "-ftrapv", "-ferror-limit=1",
        "-Wall", "-Wextra", "-pedantic", "-funsigned-char", "-fshort-enums", "-DNDEBUG", "-UNDEBUG", "-m32", "-fno-rtti", "-fcoroutines-ts", "-fdelayed-template-parsing",
        "-fms-compatibility", "-fno-builtin", "-fvisibility=hidden", "-c", "-S", "-fsyntax-only", "-emit-llvm", "-ffast-math", "-fpascal-strings", "-trigraphs", "-fdeclspec"]
OBJCM = ["-fobjc-arc", "-fobjc-gc", "-fobjc-runtime=gnustep-2.0", "-fobjc-runtime=gcc"]
TOK = re.compile(r'\s+|[A-Za-z_]\w*|\d[\w.]*|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|//[^\n]*|/\*.*?\*/|<<=|>>=|->\*?|\+\+|--|&&|\|\||[-+*/%&|^=<>!]=|<<|>>|::|\.\.\.|.', re.S)


def mutate(text, spec, other):
    """Deletes, doubles, swaps and moves tokens; spec: list of numbers, three per change."""
    for k in range(0, len(spec) - 2, 3):
        ts = TOK.findall(text)
        idx = [j for j, t in enumerate(ts) if not t.isspace()]
        if not idx:
            break
        what, a, b = spec[k] % 8, idx[spec[k + 1] % len(idx)], idx[spec[k + 2] % len(idx)]
        if what == 0:
            ts[a] = ""
        elif what == 1:
            ts[a] = ts[a] + " " + ts[a]
        elif what == 2:
            ts[a], ts[b] = ts[b], ts[a]
        elif what == 3:                        # a run of tokens goes
            del ts[a:a + 1 + spec[k + 2] % 12]
        elif what == 4:                        # a run of tokens moves
            run = ts[a:a + 1 + spec[k + 2] % 9]
            ts[b:b] = [" "] + run + [" "]
        elif what == 5:                        # a statement or declaration twice
            e = next((j for j in range(a, len(ts)) if ts[j] in (";", "}")), a)
            ts[e + 1:e + 1] = [" "] + ts[a:e + 1]
        elif what == 6:
            os_ = [t for t in TOK.findall(other) if not t.isspace()]
            ts[a] = os_[spec[k + 2] % len(os_)] if os_ else ts[a]
        else:
            ts[a] = ["0", "1", "(", ")", "{", "}", ";", "\n", "int", "template <class T>", "\\\n", "#if 0\n", "#endif\n", "//!OCLINT\n", "/*", "\"", "auto", "\x00", "\xe9", "__attribute__((annotate(\"oclint:suppress\")))"][spec[k + 2] % 20]
        text = "".join(ts)
    return text


KEYS = set("struct class union enum".split())
NUM = re.compile(r"\d+$")


def dependent(text, spec):
    """The text in a class template, with some of its types and numbers replaced by dependent ones; spec: [how, numbers...]."""
    ts = TOK.findall(text)
    idx = [j for j, t in enumerate(ts) if not t.isspace()]
    prev = {b: ts[a] for a, b in zip(idx, idx[1:])}
    types = {"int", "char", "bool", "double", "void", "long", "float", "unsigned"} | {ts[j] for j in idx if prev.get(j) in KEYS and ts[j][0].isalpha()}
    places = [j for j in idx if (ts[j] in types and prev.get(j) not in KEYS) or NUM.match(ts[j])]
    for k, j in enumerate(places):
        x = spec[1 + k % (len(spec) - 1)] >> (k // (len(spec) - 1) % 8)
        if spec[0] & 1 and x % 3:              # all of them or some
            continue
        if NUM.match(ts[j]):
            ts[j] = ["V", "T::v", "sizeof(T)", "sizeof...(P)"][x % 4]
        else:
            ts[j] = "T" if prev.get(j) == ":" else ["T", "T", "typename T::t", "U<T>", "typename T::template u<V>"][x % 5]
    return "template <class T, int V, template <class> class U, class... P> struct W" + str(spec[0]) + " {\n" + "".join(ts) + "};\n"


def build(case):
    lang = case["lang"]
    parts, flags = [], ["-std=" + STD[lang][case["std"] % len(STD[lang])]]
    for k, x in enumerate(case["parts"]):
        if x[0] == "gen" and k == 0:
            t, f = text(dict(case["gen"], lang=lang))
            flags += [g for g in f if not g.startswith("-std")]
        elif x[0] == "snippet":
            t = BY[lang][x[1] % len(BY[lang])] + "\n"
        else:
            t = EXO[lang][x[1] % len(EXO[lang])] + "\n"
        if lang in ("cpp", "mm") and case["dep"] and (len(case["parts"]) == 1 or case["dep"][0] >> 4 & 1 << k):
            t = dependent(t, case["dep"])
        parts.append(t)
    t = "".join(parts)
    t = mutate(t, case["mut"], EXO[lang][case["std"] % len(EXO[lang])])
    if lang in ("m", "mm"):
        flags += [f for f in OBJC if f not in flags]
    flags += ["-fexceptions"] if lang != "c" and "-fexceptions" not in flags else []
    ms = MORE + (OBJCM if lang in ("m", "mm") else [])
    return t, flags + [ms[f % len(ms)] for f in case["flags"]]


part = st.one_of(st.tuples(st.just("exotic"), st.integers(0, 10 ** 4)), st.tuples(st.just("snippet"), st.integers(0, 10 ** 4)),
                 st.tuples(st.just("exotic"), st.integers(0, 10 ** 4))).map(list)
first = st.one_of(st.tuples(st.just("gen"), st.just(0)).map(list), part)
gen = st.fixed_dictionaries({"kind": st.sampled_from(["mini", "decls"]), "b": bytes_strategy((0, 40, 120)), "style": st.sampled_from([4, 0, 1, 2, 3, 5]), "lay": st.binary(max_size=30).map(bytes.hex)})


class Robust(Sub):
    name = "robust"
    quick, thorough = 300, 12000
    langs = ["c", "cpp", "cpp", "m", "mm"]

    def strategy(self):
        num = st.integers(0, 2 ** 16)
        return st.fixed_dictionaries({
            "lang": st.sampled_from(self.langs), "std": st.integers(0, 1000), "gen": gen,
            "parts": st.tuples(first, st.lists(part, max_size=2)).map(lambda t: [t[0]] + t[1]),
            "mut": st.sampled_from([0, 0, 0, 3, 3, 6, 15]).flatmap(lambda n: st.lists(num, min_size=n, max_size=n)),
            "dep": st.sampled_from([0, 0, 4]).flatmap(lambda n: st.lists(num, min_size=n, max_size=n)),
            "flags": st.lists(st.integers(0, 200), max_size=3), "low": st.integers(0, 2 ** len(LOW) - 1),
            "opt": st.integers(0, 7)})

    def setup(self, ctx):
        i = ctx.inst()
        if not hasattr(i, "s2"):
            i.s2 = i.server({"GLIBC_TUNABLES": "glibc.malloc.perturb=165"})

    def test(self, ctx, case):
        i = ctx.inst()
        t, flags = build(case)
        lang = case["lang"]
        d = tempfile.mkdtemp(prefix="c", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            p = write(os.path.join(d, "s." + lang), t.encode("utf-8", "surrogateescape"))
            base = ["-report-type", "verif"] + lowargs(case["low"]) + (["-enable-global-analysis"] if case["opt"] & 1 else []) + \
                (["-allow-duplicated-violations"] if case["opt"] & 2 else [])
            an = ["-enable-clang-static-analyzer"] if case["opt"] & 4 else []
            tail = [p, "--", "-w"] + flags
            say = f"{' '.join(base + an + tail)}\n{t}"
            e = {"HOME": i.path("home"), "PWD": None}
            r = i.s.run([i.argv0] + base + an + tail, d, e, 120)
            if r.sig:
                # the same without any rule is the compiler's own failure
                if i.s.run([i.argv0, "-rule", "no such rule"] + base + an + tail, d, e, 120).sig:
                    raise Discard()
                raise Fail(f"killed by signal {r.sig}: {say}\n{r.text()}")
            if r.report is None:
                # refused before compiling (driver level errors)
                raise Discard()
            rep = r.report
            if r.rc not in (0, 5, 6):
                raise Fail(f"exit status {r.rc}: {say}")
            if (r.rc == 6) != bool(rep.errors):
                raise Fail(f"exit status {r.rc} with {len(rep.errors)} compiler errors: {say}")
            if rep.errors and rep.violations:
                raise Fail(f"violations in a source that does not compile: {rep.errors[0]}; {rep.violations}\n{say}")
            if not case["opt"] & 2 and len(set(rep.violations)) != len(rep.violations):
                raise Fail(f"a violation is listed twice: {[v for k, v in enumerate(rep.violations) if v in rep.violations[:k]]}\n{say}")
            lines = t.encode("utf-8", "surrogateescape").split(b"\n")
            known = set(ctx_names(i))
            for v in rep.violations:
                if v.path != p:
                    raise Fail(f"violation in another file: {v}\n{say}")
                if not (1 <= v.sl <= len(lines) and 1 <= v.el <= len(lines) and 1 <= v.sc <= len(lines[v.sl - 1]) + 1 and 1 <= v.ec <= len(lines[v.el - 1]) + 1):
                    raise Fail(f"violation outside the file: {v}\n{say}")
                if not (v.rule and v.cat and 1 <= v.pri <= 3):
                    raise Fail(f"{v}\n{say}")
            # again, elsewhere
            r2 = i.s2.run([i.argv0] + base + tail, d, e, 120)
            rep2 = need_report(r2, say)
            for f in ("violations", "errors"):
                if getattr(rep2, f) != getattr(rep, f):
                    a, b = getattr(rep, f), getattr(rep2, f)
                    raise Fail(f"{f} differ in another process{' without the static analyzer' if an else ''}: first {[x for x in a if x not in b]}; second {[x for x in b if x not in a]} ({len(a)}, {len(b)})\n{say}")
            n = bool(rep.violations)
            return [lang if n else "", "broken" if rep.errors else "", "analyzer" if an and n else "", "mutated" if case["mut"] and n else "",
                    "many" if len(rep.violations) > 20 else "",
                    "dependent" if case["dep"] and n and lang in ("cpp", "mm") else ""]
        finally:
            shutil.rmtree(d)


class Whole(Robust):
    name = "whole"
    quick, thorough = 300, 6000
    langs = ["c", "cpp", "cpp", "cpp", "m", "mm"]

    def strategy(self):
        num = st.integers(0, 2 ** 16)
        return st.fixed_dictionaries({
            "lang": st.sampled_from(self.langs), "std": st.just(0), "gen": gen, "parts": st.lists(part, min_size=1, max_size=1), "mut": st.just([]),
            "dep": st.sampled_from([0, 4, 4]).flatmap(lambda n: st.lists(num, min_size=n, max_size=n)),
            "flags": st.just([]), "low": st.integers(0, 2 ** len(LOW) - 1), "opt": st.integers(0, 7)})


def ctx_names(i):
    return i.rules


def subs(tier):
    return [Robust(), Whole()]
