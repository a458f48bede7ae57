"""C34: kernels and other functions of CUDA sources."""
from metrics import *
import models

FILES = ["CudaBranchDivergenceRule", "CyclomaticComplexityRule", "GotoStatementRule", "DoubleNegativeRule", "EmptyIfStatementRule", "EmptyElseBlockRule",
         "EmptyWhileStatementRule", "EmptyForStatementRule", "TooManyParametersRule"]
NEEDS = dict(rules=FILES, reporters=[])
RULE = ("generated CUDA sources with kernels, device and host functions in namespaces, classes and templates, compiled for the host, the device or both; the complete "
        "list of violations of a rule for kernels, one for all functions and seven for other functions, with positions, against models evaluated on the generated "
        "tree (non-trivial: something is reported)")
PRE = """#pragma clang force_cuda_host_device begin
struct Tm { Tm(int); ~Tm(); int v; };
int f0(); int f1(int); void v0();
#pragma clang force_cuda_host_device end
enum En { EA, EB, EC };
__attribute__((device)) int ga, gb, gc, arr[4];
__attribute__((device)) enum En ge;
"""
ATTRS = ["global", "global", "global", "device", "host", "host device", "", ""]
HOST = {"goto statement": models.FLOW["goto statement"], "double negative": models.CONDITIONS["double negative"],
        **{k: v for k, v in models.EMPTY.items() if k in ("empty if statement", "empty else block", "empty while statement", "empty for statement")}}


class Cuda:
    def __init__(self, src):
        self.s = src
        P = self.P = Program("cpp")
        P.flags = []
        P.fns, P.roots, P.cls, P.gen = [], [], [], Gen(src, "cpp", exc=0, nodep=1, edepth=2)
        self.k, self.kernels, self.host, self.params = 0, [], [], []
        for _ in range(1 + src.n(4)):
            self.top(2)
            if not src.left():
                break

    def top(self, d):
        s, w = self.s, self.P.w
        k = s.n(8) if d else 0
        self.k += 1
        if k == 1:
            w("namespace", f"ns{self.k}", "{")
        elif k == 2:
            w("extern", '"C"', "{")
        elif k == 3:
            w("namespace", "{")
        elif k in (4, 5):
            w(s.pick(["struct", "class"]), f"Cl{self.k}", "{")
            for _ in range(s.n(4)):
                self.fn(True)
            return w("}", ";")
        else:
            return self.fn(False)
        save, self.inc = self.inc, self.inc or k == 2
        for _ in range(s.n(4)):
            self.top(d - 1)
        self.inc = save
        w("}")

    def fn(self, member):
        s, P = self.s, self.P
        w = P.w
        self.k += 1
        b = None
        tmpl = s.n(5) == 4 and not self.inc
        if tmpl:
            w("template", "<", "class", "TT", ">")
        at = s.pick(ATTRS)
        kernel = at == "global"
        kind = s.n(4)
        head = []
        if member and (kernel or kind == 0):
            head.append(s.pick(["static", "friend"] if not tmpl else ["static"]))
        elif not member and s.n(4) == 3:
            head.append(s.pick(["static", "inline"]))
        for a in at.split():
            head += ["__attribute__", "(", "(", a, ")", ")"]
        ret = "void" if kernel or s.n(2) else "int"
        ps = [[], ["int", "pa"], ["int", "pa", ",", "int", "pb"], ["int", "pa", ",", "float", ",", "int", "pb"]][s.n(4)]
        if tmpl and s.n(2):
            ps = ["TT", "pt"] + ([","] + ps if ps else [])
        head += [ret, f"fn{self.k}", "(", *ps, ")"]
        n0 = len(P.fns)
        if s.n(6) == 5 and head[0] != "friend" and not tmpl and not member:
            w(*head, ";")
        define(P, P.gen, head, ret, [x for x in ps if x in ("pa", "pb")])
        f = P.fns[-1]
        (self.kernels if kernel else self.host).append(f)
        self.params.append((f, ps.count(",") + bool(ps), kernel))

    inc = False

    def want(self, th, pn):
        P = self.P
        out = set()
        P.roots = [f.body for f in self.host]
        for r, m in HOST.items():
            out |= {(r, msg, b, e) for b, e, msg in m(P)}
        for f in self.kernels:
            for x in f.body.walk():
                if x.kind == "if" and x.els is not None:
                    out.add(("branch divergence", "", x.b, P.pr.last(x)))
        for f in P.fns:
            if ccn(f) > th:
                out.add(("high cyclomatic complexity", f"Cyclomatic Complexity Number {ccn(f)} exceeds limit of {th}", f.b, f.e))
        for f, n, kernel in self.params:
            if not kernel and n > pn:
                out.add(("too many parameters", f"Method with {n} parameters exceeds limit of {pn}", f.b, f.e))
        return out


class Kernels(Sub):
    name = "kernels"
    quick, thorough = 500, 9000

    def strategy(self):
        return program_strategy(["cpp"], how=st.integers(0, 3), th=st.sampled_from([1, 2, 4, 10]), pn=st.sampled_from([1, 2, 3]))

    def test(self, ctx, case):
        g = Cuda(Src(bytes.fromhex(case["b"])))
        P = g.P
        P.finish(Src(bytes.fromhex(case["lay"])), case["style"])
        want0 = g.want(case["th"], case["pn"])
        P.base = PRE.count("\n")
        want = [(r, m, P.base + P.at(b)[0], P.at(b)[1], P.base + P.at(e)[0], P.at(e)[1]) for r, m, b, e in want0]
        P.flags = ["-x", "cuda", "-nocudainc", "-nocudalib"] + [["-c"], ["-fsyntax-only"], ["--cuda-host-only"], ["--cuda-device-only"]][case["how"]]
        rep, path, text = write_run(ctx, ctx.inst(rules=FILES), P, case, ["-rc", f"CYCLOMATIC_COMPLEXITY={case['th']}", "-rc", f"TOO_MANY_PARAMETERS={case['pn']}"],
                                    prelude=PRE, ext="cu")
        got = [(v.rule, v.msg, v.sl, v.sc, v.el, v.ec) for v in rep.violations]
        diff_multiset(got, set(want), f"{P.flags}\n{P.text}\n")
        return sorted({w[0] for w in want})


def subs(tier):
    return [Kernels()]
