"""C20: statements with empty bodies."""
from metrics import *
import models

FILES = ["EmptyCatchStatementRule", "EmptyDoWhileStatementRule", "EmptyElseBlockRule", "EmptyFinallyStatementRule", "EmptyForStatementRule",
         "EmptyIfStatementRule", "EmptySwitchStatementRule", "EmptyTryStatementRule", "EmptyWhileStatementRule"]
NEEDS = dict(rules=FILES, reporters=[])
RULE = ("generated C, C++ and Objective-C programs in generated layouts; the complete list of violations of the nine rules, with positions, equals the "
        "empty bodies in the generated tree (non-trivial: something is reported)")


class Empty(TreeSub):
    name = "empty"
    rule_files = FILES
    opts = {"exc": 2}

    def rules(self, case):
        return models.EMPTY, []


def subs(tier):
    return [Empty()]
