"""C16: cyclomatic complexity."""
from metrics import *

NEEDS = dict(rules=["CyclomaticComplexityRule"], reporters=[])
RULE = ("generated C, C++ and Objective-C functions of every form, in generated layouts; the reported functions, positions and numbers equal those of a "
        "model computed on the generated tree (non-trivial: a function is reported, or one lies exactly at or one above the limit)")


class Ccn(MetricSub):
    name = "ccn"
    rule, rule_file, key, default = "high cyclomatic complexity", "CyclomaticComplexityRule", "CYCLOMATIC_COMPLEXITY", 10
    msg = "Cyclomatic Complexity Number {n} exceeds limit of {t}"

    def values(self, P):
        return [(ccn(f), f.b, f.e) for f in P.fns]


def subs(tier):
    return [Ccn()]
