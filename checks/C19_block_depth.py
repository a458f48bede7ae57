"""C19: depth of nested blocks."""
from metrics import *

NEEDS = dict(rules=["NestedBlockDepthRule"], reporters=[])
RULE = ("generated C, C++ and Objective-C functions of every form, in generated layouts; every block nested deeper than the limit is reported with its "
        "depth and its braces' positions, and nothing else, against a model computed on the generated tree (non-trivial: a block is reported, or one lies exactly at or one above the limit)")


class Depth(MetricSub):
    name = "depth"
    rule, rule_file, key, default = "deep nested block", "NestedBlockDepthRule", "NESTED_BLOCK_DEPTH", 5
    msg = "Block depth of {n} exceeds limit of {t}"
    opts = {"depth": 8}

    def values(self, P):
        return [(depth(x), x.b, x.e) for r in P.roots for x in r.walk() if x.kind == "compound"]


def subs(tier):
    return [Depth()]
