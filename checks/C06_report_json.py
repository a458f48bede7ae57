"""C06: the JSON report is valid and complete."""
from reports import *

NEEDS = dict(rules=EndToEnd.RULES, reporters=["JSONReporter"])


def subs(tier):
    return [Direct("JSONReporter", check_json, "\t\n\r\x01\x1f", "\t\n\r\b\x01\x1f"), EndToEnd("JSONReporter", "json", check_json)]
