"""C09: the HTML report shows every finding once."""
from reports import *

NEEDS = dict(rules=EndToEnd.RULES, reporters=["HTMLReporter"])


def subs(tier):
    return [Direct("HTMLReporter", check_html, "\t\n", "\t\n"), EndToEnd("HTMLReporter", "html", check_html)]
