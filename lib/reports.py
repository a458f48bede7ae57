"""Result sets for the report formats, and readers that turn each format back into one."""
import calendar, json, os, re, shutil, tempfile, time
import xml.etree.ElementTree as ET
from html.parser import HTMLParser
from hypothesis import strategies as st
from util import *

# names of rules and categories are words; paths and messages can hold anything
NAMES = ["short variable name", "empty do/while statement", "high npath complexity", "goto statement", "rule with <T> & \"x\" 'y'",
         "r\u00e8gle"]
CATS = ["size", "basic", "empty", "a<b", "c&d", "q\"r"]
SPICE = ["\"", "'", "&", "<", ">", "\\", "/", " ", "\u00e9", "\u4e2d", "\U0001f600", "&amp;", "&lt;", "]]>", "<!--", "-->", "</td>",
         "\\u0041", "\\n", "%s", ":", "|", "[", "]", ",", "}", "{", "\x7f", "\u0085", "\u2028"]


def text(extra=""):
    piece = st.sampled_from(SPICE + list(extra)) | st.text(alphabet="abcxyz019_.-", max_size=6)
    return st.lists(piece, max_size=6).map("".join)


def path(extra=""):
    return text(extra).map(lambda t: "/" + t + "a.c")


num = st.sampled_from([0, 1, 2, 9, 10, 99, 100, 12345, 2147483647])
pos = st.tuples(num.filter(bool), num.filter(bool), num, num).map(list)


def resultset(path_extra="", msg_extra=""):
    rule = st.tuples(st.sampled_from(NAMES), st.sampled_from(CATS), st.sampled_from([1, 2, 3, 1, 2, 3, 4, 10])).map(list)

    def rest(rules):
        p, m = path(path_extra), text(msg_extra)
        v = st.tuples(st.integers(0, len(rules) - 1), p, pos, m).map(list)
        # diagnostics need not have a place
        d = st.one_of(st.tuples(st.just(-1), p, pos, m), st.tuples(st.just(-1), p, pos, m), st.tuples(st.just(-1), st.just(""), st.just([0, 0, 0, 0]), m)).map(list)
        return st.fixed_dictionaries({
            "rules": st.just(rules), "files": st.integers(0, 300), "with": st.integers(0, 300),
            "v": st.lists(v, max_size=5), "e": st.lists(d, max_size=2), "w": st.lists(d, max_size=2), "b": st.lists(d, max_size=2)})
    return st.lists(rule, min_size=1, max_size=4).flatmap(rest)


def run_reporter(ctx, cls, case):
    """Feeds the result set to one reporter, returns (bytes, t0, t1)."""
    items = [len(case["rules"])]
    for r in case["rules"]:
        items += r
    items += [case["files"], case["with"]]
    for k in "vewb":
        items.append(len(case[k]))
        for v in case[k]:
            items += [v[0], v[1], *v[2], v[3]]
    i = ctx.inst(rules=[])
    p = write(i.path("script"), nets(items))
    t0 = time.time()
    r = i.s.run(["@report", ctx.prod["reporters"][cls], p], i.dir, {"TZ": "UTC"})
    if r.sig or r.rc:
        raise Fail(f"{cls} ended abnormally: {r.text()}")
    return r.out, int(t0) - 1, int(time.time()) + 1


def want_of(case):
    """(file count, with count, [p1,p2,p3], violations, errors, warnings, bugs); each violation
    = (path, sl, sc, el, ec, rule, category, priority, message)."""
    def conv(v):
        r = case["rules"][v[0]] if v[0] >= 0 else (None, None, None)
        return (v[1], *v[2], r[0], r[1], r[2], v[3])
    vs = [conv(v) for v in case["v"]]
    return {"files": case["files"], "with": case["with"], "p": [sum(1 for v in vs if v[7] == k) for k in (1, 2, 3)],
            "v": vs, "e": [conv(v) for v in case["e"]], "w": [conv(v) for v in case["w"]], "b": [conv(v) for v in case["b"]]}


def want_of_report(rep):
    """The same from a run reported by the verif reporter."""
    conv = lambda v: (v.path, v.sl, v.sc, v.el, v.ec, v.rule or None, v.cat or None, v.pri or None, v.msg)
    return {"files": rep.files, "with": rep.fileswith, "p": [rep.p1, rep.p2, rep.p3], "v": [conv(v) for v in rep.violations],
            "e": [conv(v) for v in rep.errors], "w": [conv(v) for v in rep.warnings], "b": [conv(v) for v in rep.bugs]}


def noend(v):
    """Formats that leave the end out when a part of it is unknown."""
    return v if v[3] and v[4] else (*v[:3], 0, 0, *v[5:])


def decode(raw):
    try:
        return raw.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Fail(f"not UTF-8: {e}: {raw[:400]!r}")


# ------------------------------------------------------------------- JSON
def check_json(raw, w, t0, t1):
    def pairs(ps):
        ks = [k for k, _ in ps]
        if len(set(ks)) != len(ks):
            raise Fail(f"repeated key in {ks}")
        return dict(ps)

    def const(c):
        raise Fail("constant " + c)
    try:
        d = json.loads(decode(raw), object_pairs_hook=pairs, parse_constant=const)
    except ValueError as e:
        raise Fail(f"not JSON ({e}): {raw[:800]!r}")
    eq(sorted(d), ["clangStaticAnalyzer", "summary", "timestamp", "url", "version", "violation"], "top-level keys")
    if not (isinstance(d["timestamp"], int) and t0 <= d["timestamp"] <= t1):
        raise Fail(f"timestamp {d['timestamp']} not in {t0}..{t1}")
    eq(d["summary"], {"numberOfFiles": w["files"], "numberOfFilesWithViolations": w["with"],
                      "numberOfViolationsWithPriority": [{"priority": k + 1, "number": n} for k, n in enumerate(w["p"])]}, "summary")

    def one(v):
        x = {"path": v[0], "startLine": v[1], "startColumn": v[2]}
        if v[3] and v[4]:
            x.update(endLine=v[3], endColumn=v[4])
        if v[5] is not None:
            x.update(rule=v[5], category=v[6], priority=v[7])
        x["message"] = v[8]
        return x
    eq(d["violation"], [one(v) for v in w["v"]], "violations")
    eq(d["clangStaticAnalyzer"], [one(v) for v in w["b"]], "checker bugs")


# -------------------------------------------------------------------- XML
def parse_xml(raw):
    try:
        return ET.fromstring(raw)
    except ET.ParseError as e:
        raise Fail(f"not well-formed XML ({e}): {raw[:800]!r}")


def check_xml(raw, w, t0, t1):
    d = parse_xml(raw)
    eq(d.tag, "oclint", "root element")
    eq([c.tag for c in d], ["datetime", "summary", "violations", "clangstaticanalyzer"], "sections")
    m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)Z", d[0].text or "")
    if not m:
        raise Fail(f"datetime {d[0].text!r}")
    t = calendar.timegm(tuple(map(int, m.groups())) + (0, 0, 0))
    if not t0 <= t <= t1:
        raise Fail(f"datetime {d[0].text} is not the time of the run ({time.gmtime(t0)[:6]})")
    eq([(p.get("name"), p.text) for p in d[1]],
       [("number of files", str(w["files"])), ("files with violations", str(w["with"]))] +
       [(f"number of priority {k+1} violations", str(n)) for k, n in enumerate(w["p"])], "summary")

    def one(v):
        x = {"path": v[0], "startline": str(v[1]), "startcolumn": str(v[2])}
        if v[3] and v[4]:
            x.update(endline=str(v[3]), endcolumn=str(v[4]))
        if v[5] is not None:
            x.update(rule=v[5], category=v[6], priority=str(v[7]))
        x["message"] = v[8]
        return x
    for sec, key in ((d[2], "v"), (d[3], "b")):
        eq([c.tag for c in sec], ["violation"] * len(w[key]), f"elements of {sec.tag}")
        eq([dict(c.attrib) for c in sec], [one(v) for v in w[key]], sec.tag)


# -------------------------------------------------------------------- PMD
def check_pmd(raw, w, t0, t1):
    d = parse_xml(raw)
    eq(d.tag, "pmd", "root element")
    want = [(v, ("compiler error", "clang", "1")) for v in w["e"]] + \
           [(v, ("compiler warning", "clang", "2")) for v in w["w"]] + \
           [(v, (v[5], v[6], str(2 * v[7] - 1))) for v in w["v"]] + \
           [(v, ("clang static analyzer", "clang", "2")) for v in w["b"]]
    got = []
    for f in d:
        if f.tag != "file" or len(f) != 1 or f[0].tag != "violation":
            raise Fail(f"unexpected element {ET.tostring(f)!r}")
        a = f[0].attrib
        t = f[0].text
        if t[:1] == "\n" and t[-1:] == "\n" and len(t) > 1:
            t = t[1:-1]
        got.append((f.get("name"), a.get("beginline"), a.get("begincolumn"), a.get("endline"), a.get("endcolumn"),
                    a.get("rule"), a.get("ruleset"), a.get("priority"), t))
    eq(got, [(v[0], *(str(x) for x in v[1:5]), *r, v[8]) for v, r in want], "violations")


# ------------------------------------------------------------------- HTML
class _H(HTMLParser):
    VOID = {"hr", "br", "meta", "link", "img", "input"}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.tables, self.cell, self.bad, self.tail = [], [], None, None, ""

    def handle_starttag(self, tag, attrs):
        if tag in self.VOID:
            return
        self.stack.append(tag)
        if tag == "table":
            self.tables.append({"id": dict(attrs).get("id"), "head": [], "body": []})
        elif tag == "tr":
            self.tables[-1]["head" if "thead" in self.stack else "body"].append([])
        elif tag in ("td", "th"):
            self.cell = ["", dict(attrs).get("class")]
        elif tag not in ("html", "head", "body", "h1", "h2", "thead", "tbody", "title", "style", "script", "p", "a"):
            self.bad = self.bad or f"element {tag} is not part of the report"

    def handle_startendtag(self, tag, attrs):
        if tag not in self.VOID:
            self.bad = self.bad or f"element {tag}"

    def handle_endtag(self, tag):
        if not self.stack or self.stack.pop() != tag:
            self.bad = self.bad or f"misplaced </{tag}>"
        if tag in ("td", "th") and self.cell is not None:
            self.tables[-1]["head" if "thead" in self.stack else "body"][-1].append(tuple(self.cell))
            self.cell = None

    def handle_comment(self, data):
        self.bad = self.bad or f"comment {data!r}"

    def handle_pi(self, data):
        self.bad = self.bad or f"processing instruction {data!r}"

    def handle_data(self, data):
        if self.cell is not None:
            self.cell[0] += data
        elif self.stack and self.stack[-1] == "p":
            self.tail += data


def check_html(raw, w, t0, t1):
    h = _H()
    h.feed(decode(raw))
    h.close()
    if h.bad or h.stack:
        raise Fail(f"HTML: {h.bad or h.stack}: {raw[-1200:]!r}")
    eq(len(h.tables), 2, "tables")
    s, d = h.tables
    eq([[c[0] for c in r] for r in s["body"]],
       [[str(x) for x in (w["files"], w["with"], *w["p"], len(w["e"]), len(w["w"]), len(w["b"]))]], "summary table")
    want = [(v[0], f"{v[1]}:{v[2]}", v[5], v[6], str(v[7]), v[8]) for v in w["v"]]
    want += [(v[0], f"{v[1]}:{v[2]}", "compiler error", "", "error", v[8]) for v in w["e"]]
    want += [(v[0], f"{v[1]}:{v[2]}", "compiler warning", "", "warning", v[8]) for v in w["w"]]
    want += [(v[0], f"{v[1]}:{v[2]}", "clang static analyzer", "", "checker bug", v[8]) for v in w["b"]]
    eq([tuple(c[0] for c in r) for r in d["body"]], want, "details table")
    cls = [f"priority{v[7]}" for v in w["v"]] + ["cmplr-error"] * len(w["e"]) + ["cmplr-warning"] * len(w["w"]) + \
        ["checker-bug"] * len(w["b"])
    eq([r[4][1] for r in d["body"]], cls, "classes of the priority cells")
    stamp = h.tail.split("|")[0].strip()
    try:
        t = calendar.timegm(time.strptime(stamp, "%a %b %d %H:%M:%S %Y"))
    except ValueError:
        raise Fail(f"time stamp {stamp!r}")
    if not t0 <= t <= t1:
        raise Fail(f"time stamp {stamp!r} is not the time of the run")


# ---------------------------------------------------------- text and Xcode
def check_text(raw, w, t0, t1):
    lines = decode(raw).split("\n")
    want, d = [], lambda v: f"{v[0]}:{v[1]}:{v[2]}: {v[8]}"
    if w["e"]:
        want += ["", "Compiler Errors:", "(please be aware that these errors will prevent OCLint from analyzing this source code)", ""]
        want += [d(v) for v in w["e"]]
    if w["w"]:
        want += ["", "Compiler Warnings:", ""] + [d(v) for v in w["w"]]
    if w["b"]:
        want += ["", "Clang Static Analyzer Results:", ""] + [d(v) for v in w["b"]]
    want += ["", "", "OCLint Report", "",
             f"Summary: TotalFiles={w['files']} FilesWithViolations={w['with']} P1={w['p'][0]} P2={w['p'][1]} P3={w['p'][2]}", ""]
    want += [f"{v[0]}:{v[1]}:{v[2]}: {v[5]} [{v[6]}|P{v[7]}] {v[8]}".rstrip(" ") for v in w["v"]]
    got = [x.rstrip(" ") for x in lines]
    want = [x.rstrip(" ") for x in want]
    eq(got[:len(want)], want, "text report")
    rest = [x for x in got[len(want):] if x]
    if len(rest) != 1 or not rest[0].startswith("[OCLint ("):
        raise Fail(f"after the violations: {rest!r}")


def check_xcode(raw, w, t0, t1):
    want = [f"{v[0]}:{v[1]}:{v[2]}: warning: {v[5]} [{v[6]}|P{v[7]}] {v[8]}" for v in w["v"]]
    eq(decode(raw).split("\n"), want + [""], "xcode report")


class Direct(Sub):
    """Arbitrary result sets handed to the reporter."""
    name = "direct"
    quick, thorough = 1200, 12000

    def __init__(self, cls, check, path_extra="", msg_extra=""):
        self.cls, self.check, self.px, self.mx = cls, check, path_extra, msg_extra
        if cls != "JSONReporter":
            self.name = "direct_" + cls[:-8].lower()

    def strategy(self):
        return resultset(self.px, self.mx)

    def test(self, ctx, case):
        raw, t0, t1 = run_reporter(ctx, self.cls, case)
        self.check(raw, want_of(case), t0, t1)
        s = str(case)
        return ["special" if any(c in s for c in "\"&<>\\") and len(case["v"]) > 0 else "",
                "several" if len(case["v"]) > 1 else "", "diagnostics" if case["e"] or case["w"] or case["b"] else ""]


class EndToEnd(Sub):
    """Real runs over oddly named files, read back and compared with the verif reporter."""
    name = "endtoend"
    quick, thorough = 50, 600
    RULES = ["EmptyIfStatementRule", "ShortVariableNameRule", "FeatureEnvyRule", "UnusedLocalVariableRule", "TooManyParametersRule"]
    BITS = ["int fa{k}(int xx) {{ if (xx) {{ }} return 1; }}\n", "int fb{k}(int aaa, int y) {{ int unused_; return aaa; }}\n",
            "template <class T> struct Te{k} {{ T val; bool operator<(const Te{k} &o) const {{ int q; return val < o.val; }} }};\n",
            "struct Pq{k} {{ void aa(); void bb(); void cc(); }}; struct Rs{k} {{ void operator&(Pq{k} &ppp) {{ ppp.aa(); ppp.bb(); ppp.cc(); }} }};\n",
            "int warn{k}(void) {{ int unused{k}; return 0; }}\n", "int null{k}(void) {{ int *ptr = 0; return *ptr; }}\n",
            "int bad{k}(void) {{ return undeclared<{k}>; }}\n",
            "template<class A> void Ft{k}(A aa) {{ if (aa) {{ }} }}\n", "\n\n\t// comment \"quoted\" <b>\n"]

    def __init__(self, cls, kind, check, newline=True):
        self.cls, self.kind, self.check = cls, kind, check
        self.parts = ["plain", "with space", "q\"uote", "a&b", "l<t", "ap'os", "\u00e9t\u00e9", "c#", "p%20"] + (["new\nline"] if newline else [])
        if kind != "json":
            self.name = "endtoend_" + kind

    def strategy(self):
        return st.fixed_dictionaries({
            "dirs": st.lists(st.sampled_from(self.parts), min_size=1, max_size=3),
            "files": st.lists(st.lists(st.integers(0, len(self.BITS) - 1), max_size=5), min_size=1, max_size=3),
            "analyze": st.booleans(), "relative": st.booleans(), "tofile": st.booleans(), "dups": st.booleans()})

    def test(self, ctx, case):
        i = ctx.inst(rules=self.RULES, reporters=("VerifReporter", self.cls))
        d = tempfile.mkdtemp(prefix="e", dir=i.dir)
        os.chmod(d, 0o777)
        try:
            src = []
            for k, f in enumerate(case["files"]):
                dd = os.path.join(d, case["dirs"][k % len(case["dirs"])])
                os.makedirs(dd, exist_ok=True)
                src.append(write(os.path.join(dd, f"s{k}.cpp"), "".join(self.BITS[b].format(k=n) for n, b in enumerate(f)) or "int z;\n"))
            if case["relative"]:
                src = [os.path.relpath(s, d) for s in src]
            opts = (["-enable-clang-static-analyzer"] if case["analyze"] else []) + (["-allow-duplicated-violations"] if case["dups"] else [])
            tail = [*opts, *src, "--", "-Wall", "-std=c++17"]
            ref = need_report(oclint(ctx, i, ["-report-type", "verif", *tail], cwd=d))
            o = ["-o", "rep ort.out"] if case["tofile"] else []
            t0 = int(time.time()) - 1
            r = oclint(ctx, i, ["-report-type", self.kind, *o, *tail], cwd=d, env={"TZ": "UTC"})
            t1 = int(time.time()) + 1
            if r.sig:
                raise Fail("killed: " + r.text())
            raw = r.out
            if case["tofile"]:
                p = os.path.join(d, "rep ort.out")
                if not os.path.exists(p):
                    raise Fail("no output file\n" + r.text())
                eq(r.out, b"", "standard output when a file is named")
                raw = open(p, "rb").read()
            w = want_of_report(ref)
            self.check(raw, w, t0, t1)
            s = str(w["v"] + w["b"] + w["e"])
            return ["special" if any(c in s for c in "\"&<") and w["v"] else "", "diag" if w["e"] or w["w"] or w["b"] else ""]
        finally:
            shutil.rmtree(d)


RULE = ("result sets of several rules, violations, errors, warnings and checker bugs whose paths and messages mix quotes, angle "
        "brackets, ampersands, backslashes, control characters and non-ASCII text, written by the reporter and read back with an "
        "independent strict parser; real runs over files in oddly named directories, compared with a length-prefixed dump of the "
        "same run (non-trivial: special characters present, several violations, or diagnostics)")
