"""C40: a scaffolded rule or reporter has what it was asked to have and joins the build; nothing else changes."""
import os, re, shutil, subprocess, tempfile
from util import *
import build as B
from C02_rule_selection import ident

NEEDS = dict(rules=[], reporters=[], scaffold=True)
RULE = ("histories of one to ten scaffolding commands in a copy of the scripts, templates and build lists, from any directory: the source files that appear, the targets that cmake finds, and name, category, priority, identifier and generated tests "
        "of all that was made, compiled and run (non-trivial: two commands of a kind, a new category with several rules, or a refused reporter)")


def tree(d):
    """A copy of what the scaffolding scripts read and write."""
    R = B.REPO
    shutil.copytree(R + "/oclint-scripts", d + "/oclint-scripts", ignore=shutil.ignore_patterns("__pycache__"))
    for m in ("rules", "reporters"):
        shutil.copytree(f"{R}/oclint-{m}/template", f"{d}/oclint-{m}/template")
        for s in (m, "test"):
            for root, _, fs in os.walk(f"{R}/oclint-{m}/{s}"):
                t = d + root[len(R):]
                os.makedirs(t, exist_ok=True)
                for f in fs:
                    if f == "CMakeLists.txt":
                        shutil.copy(f"{root}/{f}", t)
                    elif f.endswith(".cpp"):
                        open(f"{t}/{f}", "w").close()
    # cmake without a compiler that writes down which targets there are
    for m in ("rules", "reporters"):
        write(f"{d}/oclint-{m}/CMakeLists.txt", """cmake_minimum_required(VERSION 3.20)
project(x NONE)
macro(note)
  file(APPEND "${CMAKE_BINARY_DIR}/targets" "${ARGN}|${CMAKE_CURRENT_SOURCE_DIR}\\n")
endmacro()
macro(add_library)
  note(lib ${ARGN})
endmacro()
macro(add_executable)
  note(exe ${ARGN})
endmacro()
macro(add_test)
  note(test ${ARGV0})
endmacro()
macro(target_link_libraries)
endmacro()
macro(set_target_properties)
endmacro()
add_subdirectory(%s)
add_subdirectory(test)
""" % m)


def targets(d, m):
    b = f"{d}/b-{m}"
    r = subprocess.run(["cmake", "-S", f"{d}/oclint-{m}", "-B", b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Fail(f"cmake fails for oclint-{m}:\n{r.stdout[-1500:]}")
    t = open(b + "/targets").read().replace(d, "").replace(";", " ").split("\n")
    shutil.rmtree(b)
    return sorted(" ".join(l.split()) for l in t if l)


def files(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            out[root[len(d) + 1:] + "/" + f] = open(root + "/" + f, "rb").read()
    return out


def words(c):
    return re.sub("([A-Z])", lambda m: " " + m.group(1).lower(), c).strip()


TYPES = ["Generic", "SourceCodeReader", "ASTVisitor", "ASTMatcher"]
CLASS = st.lists(st.builds(lambda a, b: a + b, st.sampled_from("ABCDEFQXZ"), st.one_of(st.just(""), st.text(alphabet="abcdeimnoq", min_size=1, max_size=6), st.sampled_from(["if2", "pp11x", "ule", "est"]))), min_size=1, max_size=4).map("".join).flatmap(lambda c: st.sampled_from([c, c, c, "my" + c]))
NAME = st.one_of(st.none(), st.none(), st.lists(st.one_of(st.text(alphabet="abcxyz", min_size=1, max_size=6), st.sampled_from(["C++", "Objective-C", "{{x}}", "2", "e'e"])), min_size=1, max_size=4).map(" ".join))
COMMAND = st.one_of(
    st.fixed_dictionaries({"k": st.just("rule"), "cls": CLASS, "name": NAME, "type": st.sampled_from([None] + TYPES), "cat": st.sampled_from([None, "size", "cocoa", "mine", "my_rules", "zz9", "mine"]),
                           "pri": st.sampled_from([None, 1, 2, 3]), "test": st.sampled_from([None, True, False]), "long": st.booleans()}),
    st.fixed_dictionaries({"k": st.just("reporter"), "cls": st.one_of(CLASS, st.sampled_from(["Text", "XML", "Xcode"])), "name": NAME, "test": st.sampled_from([None, True, False]), "long": st.booleans(), "only": st.sampled_from(["", "", "test"])}))


class Lists(Sub):
    """Files and targets."""
    name = "lists"
    quick, thorough = 25, 600
    longest = 6
    compiled = False

    def strategy(self):
        return st.fixed_dictionaries({"commands": st.lists(COMMAND, min_size=1, max_size=self.longest), "cwd": st.sampled_from(["", "oclint-scripts", "oclint-rules"])})

    def test(self, ctx, case):
        i = ctx.inst(rules=[])
        d = tempfile.mkdtemp(prefix="s", dir=i.dir)
        try:
            return self.run(ctx, case, d)
        finally:
            shutil.rmtree(d)

    def run(self, ctx, case, d):
        os.mkdir(d + "/t")
        t = d + "/t"
        tree(t)
        version = re.search(r'def oclint_version.*?"(.*?)"', open(t + "/oclint-scripts/oclintscripts/version.py").read(), re.S).group(1)
        was, had = files(t), {m: targets(t, m) for m in ("rules", "reporters")}
        want = {m: list(had[m]) for m in had}
        new, rules, reps, units, tested, seen, log = set(), [], [], [], 0, set(), []
        refused = 0
        for c in case["commands"]:
            cls = c["cls"]
            if (c["k"], cls) in seen or c["k"] == "rule" and (not ident(c["name"] or words(cls)) or any(f"/{cls}Rule.cpp" in f for f in was)):
                continue
            seen.add((c["k"], cls))
            o = lambda s, l: l if c["long"] else s
            a = ["python3", t + "/oclint-scripts/scaffold" + ("Rule" if c["k"] == "rule" else "Reporter"), cls]
            if c["name"]:
                a += [o("-n", "--name"), c["name"]]
            name = c["name"] or words(cls)
            plural = "" if c["k"] == "rule" else "s"
            if c["test"] is not None:
                a += [("--test" if c["test"] else "--no-test") + plural]
            tests = c["test"] is not False
            if c["k"] == "rule":
                for k, (s, l) in {"type": ("-t", "--type"), "cat": ("-c", "--category"), "pri": ("-p", "--priority")}.items():
                    if c[k] is not None:
                        a += [o(s, l), str(c[k])]
                cat = c["cat"] or "custom"
            elif c["only"] and not os.path.exists(f"{t}/oclint-reporters/test/{cls}ReporterTest.cpp"):
                was[f"oclint-reporters/test/{cls}ReporterTest.cpp"] = b""
                write(f"{t}/oclint-reporters/test/{cls}ReporterTest.cpp", "")
            before = files(t)
            r = subprocess.run(a, cwd=os.path.join(t, case["cwd"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60,
                               env={"PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "HOME": d})
            cmd = " ".join(a[1:]).replace(t, "")
            log.append(cmd)
            if r.returncode:
                raise Fail(f"{cmd}: exit status {r.returncode}: {r.stdout[-800:]}")
            if c["k"] == "reporter":
                p = f"oclint-reporters/reporters/{cls}Reporter.cpp"
                q = f"oclint-reporters/test/{cls}ReporterTest.cpp"
                if p in before or tests and q in before:
                    refused += 1
                    if "already exists" not in r.stdout:
                        raise Fail(f"{cmd}: the reporter exists, the output is {r.stdout!r}")
                    if files(t) != before:
                        raise Fail(f"{cmd}: the reporter exists, and files change")
                    continue
                new.add(p)
                reps.append(name)
                want["reporters"].append(f"lib {cls}Reporter SHARED {cls}Reporter.cpp|/oclint-reporters/reporters")
                units.append(("reporter", f"{t}/{q}" if tests else f"{t}/{p}"))
                if tests:
                    new.add(q)
                    tested += 1
                    want["reporters"] += [f"exe {cls}ReporterTest {cls}ReporterTest.cpp|/oclint-reporters/test", f"test {cls}ReporterTest|/oclint-reporters/test"]
            else:
                p = f"oclint-rules/rules/{cat}/{cls}Rule.cpp"
                q = f"oclint-rules/test/{cat}/{cls}RuleTest.cpp"
                for s in ("rules", "test"):
                    if f"oclint-rules/{s}/{cat}/CMakeLists.txt" not in was:
                        new.add(f"oclint-rules/{s}/{cat}/CMakeLists.txt")
                new.add(p)
                rules.append((ident(name), name, cat, str(c["pri"] or 3), version))
                want["rules"].append(f"lib {cls}Rule SHARED {cls}Rule.cpp|/oclint-rules/rules/{cat}")
                units.append(("rule", f"{t}/{q}" if tests else f"{t}/{p}"))
                if tests:
                    new.add(q)
                    tested += 1
                    want["rules"] += [f"exe {cls}RuleTest {cls}RuleTest.cpp|/oclint-rules/test/{cat}", f"test {cls}RuleTest|/oclint-rules/test/{cat}"]
        if not log:
            raise Discard()
        now = files(t)
        say = "\n".join(log)
        eq(sorted(set(now) - set(was)), sorted(new), f"new files after\n{say}\n")
        changed = sorted(f for f in was if now.get(f) != was[f] and not f.endswith("CMakeLists.txt"))
        if changed:
            raise Fail(f"changed by\n{say}\n: {changed}")
        for m in want:
            eq(targets(t, m), sorted(want[m]), f"targets of oclint-{m} after\n{say}\n")
        if not self.compiled:
            return self.labels(units, rules, refused)
        got = made(ctx, d, t, units, say)
        eq(sorted(got["rule"]), sorted(rules), f"identifier, name, category, priority and version of the rules after\n{say}\n")
        eq(sorted(x[0] for x in got["reporter"]), sorted(reps), f"names of the reporters after\n{say}\n")
        eq(got["ok"], tested, f"generated tests of the properties that pass, after\n{say}\n")
        return self.labels(units, rules, refused)

    def labels(self, units, rules, refused):
        kinds = [u[0] for u in units]
        own = [r[2] for r in rules if r[2] in ("custom", "mine", "my_rules", "zz9")]
        return ["two" if len(kinds) > len(set(kinds)) else "", "refused" if refused else "", "category" if len(own) > len(set(own)) else ""]


class Made(Lists):
    """Also compiles and runs what was made."""
    name = "made"
    quick, thorough = 3, 80
    longest = 10
    compiled = True


def made(ctx, d, t, units, say):
    """Compiles what was made with a main program and runs it."""
    os.mkdir(d + "/h")
    write(d + "/h/TestRuleOnCode.h", f'#pragma once\n#include "{B.REPO}/oclint-rules/test/headers/TestRuleOnCode.h"\n')
    src = ['#include "TestRuleOnCode.h"']
    tab = []
    for k, (kind, f) in enumerate(units):
        src += [f"#define create create_{k}", f"#define main main_{k}", f"namespace scaffolded_{k} {{", f'#include "{f}"', "}", "#undef create", "#undef main"]
        if kind == "reporter":
            src.append(f"extern \"C\" oclint::Reporter *create_{k}();")
            tab.append(f"create_{k}")
    src.append("extern \"C\" { oclint::Reporter *(*scaffolded[])() = { " + "".join(x + ", " for x in tab) + "nullptr }; }")
    write(d + "/all.cpp", "\n".join(src) + "\n")
    inc = [f"-I{t}/oclint-rules", f"-I{t}/oclint-reporters/reporters", f"-I{d}/h"]
    r = subprocess.run([B.CXX] + B.BASE + ["-DDOCGEN", "-include-pch", ctx.prod["pch"], "-Xclang", "-fno-validate-pch"] + inc + B.incs() + ["-c", d + "/all.cpp", "-o", d + "/all.o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Fail(f"does not compile after\n{say}\n{r.stdout[-2000:]}")
    r = subprocess.run([B.CXX, "-fuse-ld=lld"] + ctx.prod["scaffold"] + [d + "/all.o", "-o", d + "/all", "-lgtest", "-lgmock"] + B.CLANG_LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Fail(f"does not link after\n{say}\n{r.stdout[-2000:]}")
    r = subprocess.run([d + "/all", "--gtest_filter=*.PropertyTest"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    out = {"rule": [], "reporter": []}
    head, _, rest = r.stdout.partition("tests\n")
    for l in head.splitlines():
        x = l.split("\t")
        out[x[0]].append(tuple(x[1:]))
    if r.returncode:
        raise Fail(f"exit status {r.returncode} of the generated tests after\n{say}\n{rest[-1500:]}")
    out["ok"] = len(re.findall(r"^\[       OK \]", rest, re.M))
    return out


def subs(tier):
    return [Lists(), Made()]
