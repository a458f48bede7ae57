"""C08: the PMD report is well-formed and complete."""
from reports import *

NEEDS = dict(rules=EndToEnd.RULES, reporters=["PMDReporter"])


def subs(tier):
    return [Direct("PMDReporter", check_pmd, "\t\n", "\t\n"), EndToEnd("PMDReporter", "pmd", check_pmd)]
