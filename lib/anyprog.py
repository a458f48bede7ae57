"""Programs of all generated kinds for properties that hold whatever the rules are."""
import json
from metrics import *
from decls import *

SN = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "corpus", "snippets.json")))
BY = {"c": [s["code"] for s in SN if s["lang"] == "c"], "cpp": [s["code"] for s in SN if s["lang"] == "cpp"], "m": [s["code"] for s in SN if s["lang"] == "m"]}
BY["mm"] = BY["m"]
LOW = {"CYCLOMATIC_COMPLEXITY": 1, "NPATH_COMPLEXITY": 1, "NCSS_METHOD": 2, "NESTED_BLOCK_DEPTH": 1, "LONG_LINE": 30, "LONG_METHOD": 2, "LONG_CLASS": 2, "TOO_MANY_FIELDS": 1,
       "TOO_MANY_METHODS": 0, "TOO_MANY_PARAMETERS": 1, "SHORT_VARIABLE_NAME": 3, "LONG_VARIABLE_NAME": 18, "MAXIMUM_IF_LENGTH": 1}


def lowargs(mask):
    out = []
    for k, (key, v) in enumerate(LOW.items()):
        if mask >> k & 1:
            out += ["-rc", f"{key}={v}"]
    return out


def any_strategy(langs=("c", "cpp", "m", "mm"), kinds=("mini", "decls", "snippet"), **more):
    return program_strategy(list(langs), kind=st.sampled_from(kinds), low=st.integers(0, 2 ** len(LOW) - 1), **more)


def tokens(case, **opt):
    """-> (Program without layout, prelude) for the kinds mini and decls."""
    if case["kind"] == "mini":
        return source(case, unfinished=True, ifinit=1, enum=1, **opt), PRELUDE[case["lang"]]
    return Decls(Src(bytes.fromhex(case["b"])), case["lang"]).P, DPRELUDE[case["lang"]]


def text(case, **opt):
    """-> (text, flags)"""
    lang = case["lang"]
    if case["kind"] == "snippet":
        b = bytes.fromhex(case["b"])
        code = BY[lang]
        k = (b[0] * 256 + b[1]) % len(code) if len(b) > 1 else 0
        t = code[k]
        if case["style"] % 2:          # more lines, in the same program
            t = t.replace("; ", ";\n").replace("{ ", "{\n")
        return t + "\n", FLAGS[lang]
    P, pre = tokens(case, **opt)
    P.finish(Src(bytes.fromhex(case["lay"])), case["style"])
    return pre + P.text, FLAGS[lang] + getattr(P, "flags", [])


def code_ends(text):
    """For every line, is its end plain code (outside comments and literals, no continuation)?"""
    out, state, k, n = [], "code", 0, len(text)
    while k < n:
        c, two = text[k], text[k:k + 2]
        if c == "\n":
            j = k - 1
            if text[j:j + 1] == "\r":
                j -= 1
            cont = text[j:j + 1] == "\\"
            out.append(state == "code" and not cont)
            if state == "line" and not cont or state in "\"'":
                state = "code"
        elif state == "code":
            if two == "//":
                state = "line"
            elif two == "/*":
                state = "block"
                k += 1
            elif c in "\"'":
                state = c
        elif state == "block":
            if two == "*/":
                state = "code"
                k += 1
        elif state in "\"'":
            if c == "\\":
                k += 1
            elif c == state:
                state = "code"
        k += 1
    return out


def run_text(ctx, inst, lang, text, flags, args, files=()):
    d = tempfile.mkdtemp(prefix="c", dir=inst.dir)
    os.chmod(d, 0o777)
    try:
        p = write(os.path.join(d, "s." + lang), text)
        for n, t in files:
            write(os.path.join(d, n), t)
        return need_report(oclint(ctx, inst, ["-report-type", "verif"] + args + [p, "--", "-w"] + list(flags), cwd=d), text)
    finally:
        shutil.rmtree(d)


def compiles(rep, text, case):
    if rep.errors:
        if os.environ.get("VERIF_STRICT") and case["kind"] != "snippet":
            raise HarnessText(f"the generated program does not compile: {rep.errors[:3]}\n{text}")
        raise Discard()
