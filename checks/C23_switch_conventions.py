"""C23: rules about switch statements."""
from metrics import *
import models

FILES = ["CoveredSwitchStatementsDontNeedDefaultRule", "DefaultLabelNotLastInSwitchStatementRule", "MissingBreakInSwitchStatementRule",
         "NonCaseLabelInSwitchStatementRule", "SwitchStatementsShouldHaveDefaultRule", "TooFewBranchesInSwitchStatementRule"]
NEEDS = dict(rules=FILES, reporters=[])
RULE = ("generated C, C++ and Objective-C programs with nested switch statements over integers and enumerations in generated layouts; the complete list of "
        "violations of the six rules, with positions, equals that of models evaluated on the generated tree (non-trivial: something is reported)")


class Switches(TreeSub):
    name = "switches"
    rule_files = FILES
    opts = {"lambda": 0, "sexpr": 0, "edepth": 1, "throw": 1, "exc": 1, "switch": 6, "label": 2, "enum": 1, "depth": 6}

    def rules(self, case):
        t = None if case["t"] % 3 == 0 else case["t"] // 3 % 7
        return models.switch_rules(3 if t is None else t), [] if t is None else ["-rc", f"MINIMUM_CASES_IN_SWITCH={t}"]


def subs(tier):
    return [Switches()]
