"""C39: the documentation generator describes the loaded rules, and what it says of the shipped ones holds."""
import json, os, re, shutil, subprocess, tempfile
from util import *
import build as B
from C02_rule_selection import ident

NEEDS = dict(rules=None, reporters=[], doc=True)
RULE = ("generated rules (names, categories, texts, thresholds) and subsets of the shipped ones, loaded from one or several directories: index and pages against a "
        "reference; programs with constructs of sizes around the documented default of each threshold: leaving the threshold out and setting it to that default "
        "report the same (non-trivial: several rules in a category or an optional part; setting the threshold one higher or lower reports something else)")
LINK = "https://github.com/oclint/oclint/blob/master/"


def docgen(ctx, i, dirs, mock=None):
    """Runs the generator in a scratch directory -> {page: text}"""
    d = tempfile.mkdtemp(prefix="d", dir=i.dir)
    try:
        os.makedirs(d + "/w")
        out = d + "/build/oclint-docs/rules"
        os.makedirs(out)
        env = {"PATH": "/usr/bin:/bin", "HOME": d + "/w", "TZ": "UTC"}
        args = [ctx.prod["docgen"]]
        for k, libs in enumerate(dirs):
            os.makedirs(f"{d}/r{k}")
            for l in libs:
                os.symlink(l, f"{d}/r{k}/" + os.path.basename(l))
            args += ["-R", f"{d}/r{k}"]
        if mock is not None:
            env["VERIF_DOCRULES"] = write(d + "/mock", nets(mock))
        r = subprocess.run(args + ["docgen"], cwd=d + "/w", env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        pages = {f[:-4]: open(os.path.join(out, f), encoding="utf-8", errors="surrogateescape").read() for f in os.listdir(out) if f.endswith(".rst")}
        return r, pages
    finally:
        shutil.rmtree(d)


def body(t):
    """The lines of a page but for blank ones and the footer."""
    ls = [l.rstrip() for l in t.split("\n")]
    ls = [l for l in ls if l]
    if not ls or not re.match(r"\.\. Generated on \w+ \w+ +\d+ [\d:]+ \d+$", ls[-1]):
        raise Fail(f"the page does not end with the time it was made: {t[-200:]!r}")
    return ls[:-1]


def lines(t):
    return [l.rstrip() for l in t.split("\n") if l.rstrip()]


def under(l, ch):
    return [l, ch * len(l)]


def section(m):
    i = ident(m["name"])
    f = m["file"] or i + "Rule.cpp"
    p = f"oclint-rules/rules/{m['cat']}/{f}"
    out = lines("\n".join(under(i, "-"))) + [f"**Since: {m['since']}**", f"**Name: {m['name']}**"] + lines(m["desc"])
    out += [f"This rule is defined by the following class: `{p} <{LINK}{p}>`_", "**Example:**"] + lines(m["ex"])
    if m["thr"]:
        out += ["**Thresholds:**"]
        for k, v in sorted(m["thr"].items()):
            out += lines(k) + lines("    " + v)
    if m["sup"]:
        out += ["**Suppress:**", ".. code-block:: cpp", f"    __attribute__((annotate(\"oclint:suppress[{m['att'] or m['name']}]\")))"]
    return [l.rstrip() for l in out] + lines(m["more"])


def index(n, cats):
    return under("Rule Index", "=") + [f"OCLint |release| includes {n} rules.", ".. toctree::", "   :maxdepth: 2"] + ["   " + c for c in sorted(cats)]


word = st.text(alphabet="abcdefgXYZ", min_size=1, max_size=9)
NAMES = st.lists(st.one_of(word, st.sampled_from(["a", "if", "x2", "C++", "-", "null"])), min_size=1, max_size=4).map(" ".join)
PROSE = st.one_of(st.sampled_from(["", "Text.", "Two\nlines", "\n\n.. code-block:: cpp\n\n    int x; // ü\n", "**bold** `a <b>`_ & \"q\" \\", "-----", "ends\n\n"]),
                  st.text(alphabet="ab \n*`-=_\\\"<&é", max_size=30))
LINE = st.text(alphabet="abc ,.'é", min_size=1, max_size=20)
MOCK = st.fixed_dictionaries({"name": NAMES, "att": st.sampled_from(["", "", "base method", "x"]), "cat": st.sampled_from(["size", "basic", "my rules", "Zed", "a", "cocoa", "zz9"]),
                              "pri": st.integers(1, 3), "since": st.sampled_from(["0.6", "22.02", "0.10.2", ""]), "desc": PROSE, "ex": PROSE,
                              "file": st.sampled_from(["", "", "OtherRule.cpp"]), "sup": st.booleans(), "more": PROSE,
                              "thr": st.dictionaries(st.sampled_from(["LONG_LINE", "A_B", "X", "Z_9"]), LINE, max_size=3)})


class Pages(Sub):
    name = "pages"
    quick, thorough = 60, 1500

    def strategy(self):
        return st.lists(MOCK, min_size=1, max_size=9).map(lambda ms: {"rules": ms})

    def test(self, ctx, case):
        i = ctx.inst(rules=[])
        ms = [m for m in case["rules"] if ident(m["name"])]
        if not ms:
            raise Discard()
        items = [len(ms)]
        for m in ms:
            items += [m["name"], m["att"], m["cat"], m["pri"], m["since"], m["desc"], m["ex"], m["file"], int(m["sup"]), m["more"], len(m["thr"])]
            for k, v in m["thr"].items():
                items += [k, v]
        r, pages = docgen(ctx, i, [[ctx.prod["docmock"]]], items)
        if r.returncode:
            raise Fail(f"exit status {r.returncode}: {r.stderr[-500:]}")
        cats = sorted({m["cat"] for m in ms})
        eq(sorted(pages), sorted(cats + ["index"]), "pages written")
        eq(body(pages["index"]), index(len(ms), cats), "index")
        for c in cats:
            mine = sorted((m for m in ms if m["cat"] == c), key=lambda m: ident(m["name"]))
            head = under(c[0].upper() + c[1:], "=")
            got = body(pages[c])
            if len({ident(m["name"]) for m in mine}) < len(mine):      # the order of equal identifiers is open
                want = head + [l for m in mine for l in section(m)]
                eq(sorted(got), sorted(want), f"lines of page {c}")
                eq([l for l in got if l in {ident(m["name"]) for m in mine}], [l for l in want if l in {ident(m["name"]) for m in mine}], f"headings of page {c}")
            else:
                eq(got, head + [l for m in mine for l in section(m)], f"page {c}")
        return ["several" if len(cats) < len(ms) else "", "thresholds" if any(m["thr"] for m in ms) else "", "suppress" if any(m["sup"] for m in ms) else ""]


def parse(page):
    """Sections of a page of the shipped rules -> {identifier: text}"""
    ls, out, cur = page.split("\n"), {}, None
    for a, b in zip(ls, ls[1:] + [""]):
        if a and re.fullmatch(r"[A-Za-z]+", a) and b == "-" * len(a):
            if a in out:
                raise Fail(f"{a} is described twice")
            cur = out[a] = []
        elif cur is not None:
            cur.append(a)
    return {k: "\n".join(v) for k, v in out.items()}


class Shipped(Sub):
    name = "shipped"
    quick, thorough = 4, 120

    def strategy(self):
        return st.fixed_dictionaries({"drop": st.lists(st.integers(0, 200), max_size=30), "dirs": st.integers(1, 4), "salt": st.integers(0, 5)})

    def test(self, ctx, case):
        i = ctx.inst()
        libs = sorted(ctx.prod["docrules"])
        gone = {libs[k % len(libs)] for k in case["drop"]}
        mine = [l for l in libs if l not in gone]
        dirs = [[] for _ in range(case["dirs"])]
        for k, l in enumerate(mine):
            dirs[(k * (case["salt"] + 1)) % len(dirs)].append(ctx.prod["docrules"][l])
        r, pages = docgen(ctx, i, dirs)
        if r.returncode:
            raise Fail(f"exit status {r.returncode}: {r.stderr[-500:]}")
        # what the tool itself says of them
        known = listed(ctx, ctx.inst(rules=[]), mine)
        eq(body(pages["index"]), index(len(known), [c for c in pages if c != "index"]), "index")
        seen = {}
        for c in sorted(pages):
            if c == "index":
                continue
            secs = parse(pages[c])
            eq(list(secs), sorted(secs), f"order of the rules of {c}")
            for k, t in secs.items():
                seen[k] = c
                m = re.search(r"`oclint-rules/rules/(\S+)/(\S+\.cpp) <" + re.escape(LINK) + r"oclint-rules/rules/\1/\2>`_", t)
                if not m or m.group(1) != c or not os.path.isfile(os.path.join(B.REPO, "oclint-rules/rules", c, m.group(2))):
                    raise Fail(f"{k}: the class file of the page does not exist: {m and m.group(0)}")
                if not re.search(r"^\*\*Since: \d+(\.\d+)+\*\*$", t, re.M) or not re.search(r"^\*\*Name: \S.*\*\*$", t, re.M) or not re.search(r"^\*\*Example:\*\*\n+\.\. code-block::", t, re.M):
                    raise Fail(f"{k}: since, name or example is missing: {t}")
        eq(sorted(seen), sorted(known), "rules described and rules the tool lists")
        return ["several", "dropped" if gone else ""]


def listed(ctx, i, libs):
    """Identifiers of the rules of these libraries as -list-enabled-rules gives them."""
    if not hasattr(i, "bylib"):
        i.bylib = {}
    out = []
    d = tempfile.mkdtemp(prefix="l", dir=i.dir)
    os.chmod(d, 0o777)
    try:
        os.mkdir(d + "/r")
        for l in libs:
            os.symlink(ctx.prod["rules"][l], d + "/r/" + os.path.basename(ctx.prod["rules"][l]))
        s = write(d + "/s.c", "")
        r = oclint(ctx, i, ["-R", d + "/r", "-list-enabled-rules", "-report-type", "verif", s, "--"])
        text = r.out.decode() + r.err.decode()
        out = re.findall(r"^- ([A-Za-z]+)$", text, re.M)
    finally:
        shutil.rmtree(d)
    return sorted(set(out))


def sized(key, n, u):
    """A construct whose size, as KEY counts it, is n or close to it."""
    f = f"f{u}"
    if key == "LONG_VARIABLE_NAME" or key == "SHORT_VARIABLE_NAME":
        return f"int {(chr(97 + u % 26) * max(1, n))};\n"
    if key == "CYCLOMATIC_COMPLEXITY":
        return f"void {f}(int qqq) {{ " + "if (qqq) qqq++; " * (n - 1) + "}\n"
    if key == "NPATH_COMPLEXITY":
        return f"void {f}(int qqq) {{ switch (qqq) {{ " + "".join(f"case {k}: qqq++; break; " for k in range(n - 1)) + "default: break; } }\n"
    if key == "NCSS_METHOD":
        return f"void {f}(int qqq) {{ " + "qqq++; " * (n - 1) + "}\n"
    if key == "LONG_LINE":
        return "//" + "x" * (n - 2) + "\n"
    if key == "LONG_METHOD":
        return f"void {f}(int qqq) {{" + "\n" * (n - 2) + "qqq++;\n}\n"
    if key == "LONG_CLASS":
        return f"struct S{u} {{" + "\n" * (n - 2) + "int aaa;\n};\n"
    if key == "NESTED_BLOCK_DEPTH":
        return f"void {f}(int qqq) " + "{ " * n + "qqq++; " + "} " * n + "\n"
    if key == "TOO_MANY_FIELDS":
        return f"struct S{u} {{ " + "".join(f"int aa{k}; " for k in range(n)) + "};\n"
    if key == "TOO_MANY_METHODS":
        return f"struct S{u} {{ " + "".join(f"void aa{k}(); " for k in range(n)) + "};\n"
    if key == "TOO_MANY_PARAMETERS":
        return f"void {f}(" + ", ".join(f"int aa{k}" for k in range(n)) + ") { }\n"
    if key == "MINIMUM_CASES_IN_SWITCH":
        return f"void {f}(int qqq) {{ switch (qqq) {{ " + "".join(f"case {k}: qqq++; break; " for k in range(n)) + "default: break; } }\n"
    if key == "MAXIMUM_IF_LENGTH":
        return f"void {f}(int qqq) {{ for (;;) {{ if (qqq) {{" + "\n" * (n - 2) + "qqq++;\n} } }\n"
    return None


class Defaults(Sub):
    name = "defaults"
    quick, thorough = 100, 2500

    def strategy(self):
        return st.fixed_dictionaries({"parts": st.lists(st.tuples(st.integers(0, 100), st.integers(-2, 3)).map(list), min_size=1, max_size=4), "which": st.integers(0, 3)})

    def setup(self, ctx):
        i = ctx.inst()
        if not hasattr(i, "thresholds"):
            r, pages = docgen(ctx, i, [list(ctx.prod["docrules"].values())])
            if r.returncode:
                raise Fail(f"exit status {r.returncode}: {r.stderr[-500:]}")
            i.thresholds = []
            for c in sorted(pages):
                for k, t in parse(pages[c]).items():
                    for m in re.finditer(r"^([A-Z_]+)\n    .*?default value is (\S+)\.$", t, re.M):
                        i.thresholds.append((k, m.group(1), int(m.group(2))))

    def test(self, ctx, case):
        i = ctx.inst()
        T = i.thresholds
        if not T:
            raise Fail("no thresholds are documented")
        known = [x for x in T if sized(x[1], x[2], 0) is not None]
        parts = [(known[k % len(known)], d) for k, d in case["parts"]]
        t = "".join(sized(key, n + d, u) for u, ((_, key, n), d) in enumerate(parts))
        (rule, key, n), _ = parts[case["which"] % len(parts)]
        d = tempfile.mkdtemp(prefix="c", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            p = write(d + "/a.cpp", t)
            got = lambda *a: need_report(oclint(ctx, i, ["-report-type", "verif", *a, p, "--", "-w"])).violations
            a = got()
            b = got("-rc", f"{key}={n}")
            if a != b:
                raise Fail(f"{rule}: {key} is documented to be {n} by default, but {key}={n} changes {[x for x in a if x not in b]} to {[x for x in b if x not in a]}:\n{t}")
            hi, lo = got("-rc", f"{key}={n + 1}"), got("-rc", f"{key}={n - 1}")
            return ["at" if hi != a or lo != a else "", key if hi != a or lo != a else ""]
        finally:
            shutil.rmtree(d)


def subs(tier):
    return [Pages(), Shipped(), Defaults()]
