"""C17: NPath complexity."""
from metrics import *

NEEDS = dict(rules=["NPathComplexityRule"], reporters=[])
RULE = ("generated C, C++ and Objective-C functions of every form, in generated layouts; the reported functions, positions and numbers equal those of a "
        "model of Nejmeh's measure computed on the generated tree (non-trivial: a function is reported, or one lies exactly at or one above the limit)")


class NPath(MetricSub):
    name = "npath"
    rule, rule_file, key, default = "high npath complexity", "NPathComplexityRule", "NPATH_COMPLEXITY", 200
    msg = "NPath Complexity Number {n} exceeds limit of {t}"
    opts = {"stmts": 7}

    def values(self, P):
        return [(min(npath(f.body), INT_MAX), f.b, f.e) for f in P.fns]


class Products(MetricSub):
    """Long sequences of branching statements: the product of many factors."""
    name = "products"
    rule, rule_file, key, default, msg = NPath.rule, NPath.rule_file, NPath.key, NPath.default, NPath.msg
    quick, thorough = 150, 2500

    def strategy(self):
        return st.fixed_dictionaries({"lang": st.sampled_from(self.langs), "n": st.lists(st.tuples(st.integers(0, 6), st.one_of(st.integers(1, 8), st.integers(1, 70))).map(list), min_size=1, max_size=6),
                                      "t": st.integers(0, 2 ** 16)})

    def program(self, case):
        P = Program(case["lang"])
        ga, one = N("ref", name="ga"), N("lit", v="1")
        e = lambda: N("ref", name="ga")
        blk = lambda *b: N("compound", body=list(b))
        mk = [lambda: N("if", cexpr=False, init=None, cond=e(), then=blk(), els=None),
              lambda: N("while", cond=N("bin", op="&&", l=e(), r=N("bin", op="&&", l=e(), r=e())), body=blk()),
              lambda: N("for", init=None, cond=e(), inc=None, body=blk()),
              lambda: N("do", body=blk(N("exprs", sub=e())), cond=e()),
              lambda: N("switch", cond=e(), body=blk(N("case", value=N("lit", v="1"), hi=None, sub=N("null")), N("break"), N("default", sub=N("null")))),
              lambda: N("if", cexpr=False, init=None, cond=e(), then=blk(), els=N("if", cexpr=False, init=None, cond=e(), then=blk(), els=None)),
              lambda: N("exprs", sub=e())]
        body = blk(*[mk[k]() for k, n in case["n"] for _ in range(n)])
        b = P.here()
        P.w("void", "fn", "(", "void", ")")
        P.p(body)
        P.fns = [Fn(b, P.here() - 1, body)]
        P.finish(Src(b""), 0)
        return P

    values = NPath.values


def subs(tier):
    return [NPath(), Products()]
