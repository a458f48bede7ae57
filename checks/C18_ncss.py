"""C18: non-commenting source statements."""
from metrics import *

NEEDS = dict(rules=["NcssMethodCountRule"], reporters=[])
RULE = ("generated C, C++ and Objective-C functions of every form, in generated layouts; the reported functions, positions and numbers equal those of a "
        "model computed on the generated tree (non-trivial: a function is reported, or one lies exactly at or one above the limit)")


class Ncss(MetricSub):
    name = "ncss"
    rule, rule_file, key, default = "high ncss method", "NcssMethodCountRule", "NCSS_METHOD", 30
    msg = "Method of {n} non-commenting source statements exceeds limit of {t}"
    opts = {"stmts": 7}

    def values(self, P):
        return [(1 + ncss(f.body), f.b, f.e) for f in P.fns]


def subs(tier):
    return [Ncss()]
