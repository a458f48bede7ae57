"""C07: the XML report is well-formed and complete."""
from reports import *

NEEDS = dict(rules=EndToEnd.RULES, reporters=["XMLReporter"])


def subs(tier):
    return [Direct("XMLReporter", check_xml, "\t\n\r", "\t\n\r"), EndToEnd("XMLReporter", "xml", check_xml)]
