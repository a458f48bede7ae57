"""C15: rules run for the languages they support, in every dialect of them."""
import json, os, shutil, tempfile
from hypothesis import strategies as st
from util import *

NEEDS = dict(rules=None, reporters=[])
RULE = ("corpus snippets and combinations of small functions compiled in every dialect of C, C++ and ObjC that accepts them: within a language the "
        "violations agree, and rules appear only for languages they support (non-trivial: at least two dialects accept the source and it has violations)")
SN = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "corpus", "snippets.json")))
C, X, O = {"c"}, {"cpp"}, {"m", "mm"}
GATE = {"unnecessary null check for dealloc": X, "redundant nil check": O,
        "missing abstract method implementation": O, "missing call to base method": O, "calling protected method": O, "missing hash method": O,
        "base class destructor should be virtual or protected": X, "destructor of virtual class": X, "avoid default arguments on virtual methods": X,
        "use boxed expression": O, "use object subscripting": O, "use container literal": O, "use number literal": O,
        "broken null check": C | X, "broken nil check": O, "misplaced null check": C | X, "misplaced nil check": O,
        "throw exception from finally block": O}
DIALECTS = {"c": ["c89", "gnu89", "iso9899:199409", "c99", "gnu99", "c11", "gnu11", "c17", "gnu17"],
            "cpp": ["c++98", "gnu++98", "c++11", "c++14", "gnu++14", "c++17", "c++20", "gnu++20", "c++23"],
            "m": ["c89", "gnu89", "c99", "gnu99", "c11", "gnu17"], "mm": ["c++98", "c++11", "c++17", "gnu++20"]}

PARTS = ["int {f}(int aa, int bb) {{ if (aa) {{ }} else {{ return bb; }} return 1; }}",
         "int {f}(int aa, int bb) {{ int x; switch (aa) {{ case 1: bb = 2; }} return bb; }}",
         "void {f}(int *pp) {{ if (pp != 0 || *pp == 2) {{ *pp = 1; }} }}",
         "void {f}(int *pp) {{ if (pp == 0 && *pp == 2) {{ *pp = 1; }} }}",
         "void {f}(int *pp) {{ if (*pp == 2 && pp) {{ *pp = 1; }} }}",
         "int {f}(int aa) {{ while (aa) {{ aa = 0; break; }} return (aa); }}",
         "int {f}(int aa) {{ int rr = aa & 1; {{ goto ee; }} ee: return rr; }}",
         "int {f}(int aa) {{ if (1) {{ aa = !!aa; }} return aa ? 1 : 1; }}",
         "int {f}(int aa) {{ if (aa) {{ if (aa > 2) {{ aa = 3; }} }} for (;aa < 5;) {{ aa++; }} return aa; }}",
         "int {f}(int aa) {{ switch (aa) {{ default: aa = 1; break; case 1: aa = 3; case 5: break; }} return -~-aa; }}",
         "int {f}(int aa, int bb, int cc, int dd, int ee, int ff, int gg, int hh, int ii, int jj, int kk) {{ return aa; }}"]


class Dialects(Sub):
    name = "dialects"
    quick, thorough = 90, 1500

    def strategy(self):
        corp = st.tuples(st.just("corpus"), st.integers(0, len(SN) - 1)).map(list)
        gen = st.tuples(st.sampled_from(["c", "cpp", "m", "mm"]), st.lists(st.integers(0, len(PARTS) - 1), min_size=1, max_size=4)).map(list)
        return st.fixed_dictionaries({"src": st.one_of(corp, gen), "pick": st.lists(st.integers(0, 30), min_size=3, max_size=3)})

    def test(self, ctx, case):
        i = ctx.inst()
        kind, x = case["src"]
        if kind == "corpus":
            lang, code = SN[x]["lang"], SN[x]["code"]
            if lang == "m" and case["pick"][0] % 4 == 0:
                lang = "mm"
        else:
            lang, code = kind, "\n".join(PARTS[k].format(f=f"fun{j}") for j, k in enumerate(x))
        d = tempfile.mkdtemp(prefix="c", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            p = write(os.path.join(d, "s." + lang), code + "\n")
            ds = DIALECTS[lang]
            seen = []
            for q in [case["pick"][0], case["pick"][1], case["pick"][2], 0]:
                s = ds[q % len(ds)]
                if s in [a for a, _ in seen]:
                    continue
                r = oclint(ctx, i, ["-report-type", "verif", p, "--", "-w", "-std=" + s] + (["-fblocks", "-fobjc-exceptions"] if lang in ("m", "mm") else []), cwd=d)
                rep = need_report(r, f"{lang} {s}\n{code}")
                if rep.errors:
                    continue
                seen.append((s, rep))
            for s, rep in seen:
                for v in rep.violations:
                    if lang not in GATE.get(v.rule, {"c", "cpp", "m", "mm"}):
                        raise Fail(f"{v.rule} does not support {lang} ({s}) but reports {v}\n{code}")
            for s, rep in seen[1:]:
                if rep.violations != seen[0][1].violations:
                    a, b = set(rep.violations), set(seen[0][1].violations)
                    raise Fail(f"{lang}: -std={s} and -std={seen[0][0]} differ: only {s} {a - b}; only {seen[0][0]} {b - a}\n{code}")
            if not seen:
                raise Discard()
            n = len(seen) > 1 and seen[0][1].violations
            return [lang if n else "", "c89" if n and any("89" in s for s, _ in seen) else "", kind if n and kind == "corpus" else ""]
        finally:
            shutil.rmtree(d)


class Objective(Sub):
    """Objective-C and Objective-C++ run the rules for Objective-C, and those for every language as C and C++ do."""
    name = "objective"
    quick, thorough = 60, 1000

    def strategy(self):
        corp = st.tuples(st.just("corpus"), st.integers(0, len(SN) - 1)).map(list)
        objc = st.tuples(st.just("corpus"), st.sampled_from([k for k, s in enumerate(SN) if s["lang"] == "m"])).map(list)
        gen = st.tuples(st.sampled_from(["c", "cpp"]), st.lists(st.integers(0, len(PARTS) - 1), min_size=1, max_size=4)).map(list)
        return st.fixed_dictionaries({"src": st.one_of(objc, objc, corp, gen), "std": st.integers(0, 30)})

    def test(self, ctx, case):
        i = ctx.inst()
        kind, x = case["src"]
        if kind == "corpus":
            lang, code = SN[x]["lang"], SN[x]["code"]
        else:
            lang, code = kind, "\n".join(PARTS[k].format(f=f"fun{j}") for j, k in enumerate(x))
        if lang not in ("c", "cpp", "m"):
            raise Discard()
        other = {"c": "m", "cpp": "mm", "m": "mm"}[lang]
        d = tempfile.mkdtemp(prefix="c", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            got = []
            for l in (lang, other):
                p = write(os.path.join(d, "s." + l), code + "\n")
                s = "c++17" if l == "mm" and lang == "m" else DIALECTS[lang][case["std"] % len(DIALECTS[lang])] if l != "mm" or lang == "cpp" else ""
                r = oclint(ctx, i, ["-report-type", "verif", p, "--", "-w", "-std=" + s, "-fblocks"] + (["-fobjc-exceptions"] if l in ("m", "mm") else []), cwd=d)
                rep = need_report(r, f"{l} {s}\n{code}")
                if rep.errors:
                    raise Discard()
                for v in rep.violations:
                    if l not in GATE.get(v.rule, {"c", "cpp", "m", "mm"}):
                        raise Fail(f"{v.rule} does not support {l} ({s}) but reports {v}\n{code}")
                # constants of an enum are ints in C and of its own type in C++
                keep = (lambda r: GATE.get(r) == O and (r != "use boxed expression" or "enum" not in code)) if lang == "m" else (lambda r: r not in GATE)
                got.append([(v.rule, v.pri, v.sl, v.sc, v.el, v.ec, v.msg) for v in rep.violations if keep(v.rule)])
            diff_multiset(got[1], got[0], f"violations as {other} against {lang}\n{code}\n")
            return [f"{lang}-{other}" if got[0] else "", "objc" if lang == "m" and got[0] else ""]
        finally:
            shutil.rmtree(d)


def subs(tier):
    return [Dialects(), Objective()]
