"""C10: the text and Xcode reports list every violation on a line of its own."""
from reports import *

NEEDS = dict(rules=EndToEnd.RULES, reporters=["TextReporter", "XcodeReporter"])


def subs(tier):
    return [Direct("TextReporter", check_text), Direct("XcodeReporter", check_xcode),
            EndToEnd("TextReporter", "text", check_text, False), EndToEnd("XcodeReporter", "xcode", check_xcode, False)]
