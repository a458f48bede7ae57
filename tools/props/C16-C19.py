from common import p

FORMS = "functions, C++ methods, constructors, destructors, templates, Objective-C methods, in C, C++ and Objective-C"
WHY = "The tests measure single hand-written functions; the number must be right for every composition of statements, and compared with the limit exactly."
COMMON = dict(over=["inputs", "configurations"])
TECH = "generated programs with known trees and token positions in generated layouts, full violation lists against a model of the metric"

P = [
 p("C16", "High cyclomatic complexity reports exactly the functions over the limit",
   "For every function definition (" + FORMS + ") the cyclomatic complexity is one plus the number of if, for, range-for, for-in, while, do, case, catch and ?: constructs and && and || operators in its text, nested lambdas and blocks included; "
   "the definition is reported, once, with that number, the limit and its extent from its first token to its closing brace, if and only if the number exceeds CYCLOMATIC_COMPLEXITY (default 10). Layout and comments do not matter.",
   ["inputs", "configurations"], "all compositions of statements and expressions in all forms of functions, all limits of at least 1, all layouts",
   WHY, ["oclint-metrics/lib/CyclomaticComplexityMetric.cpp", "oclint-rules/rules/size/CyclomaticComplexityRule.cpp"],
   [("CyclomaticComplexityMetric visitor", "oclint-metrics/lib/CyclomaticComplexityMetric.cpp")], TECH,
   "Not generated: functions with local classes, default arguments with operators, macros. "),
 p("C17", "High NPath complexity reports exactly the functions over the limit",
   "For every function definition (" + FORMS + ") NPath is Nejmeh's number: statements in sequence multiply; if adds its condition, then and else (1 without else); while and do add condition, body and 1; for adds init (1), condition, increment, body and 1; range-for and for-in add 2 to the body; "
   "switch adds its condition and each case group's product; ?: adds 2 to its parts; && and || add 1 to theirs; everything else counts 1, expressions without operators 0, and numbers beyond the largest int stay there. The definition is reported, once, with number, limit and extent, if and only if the number exceeds NPATH_COMPLEXITY (default 200).",
   ["inputs", "configurations"], "all compositions of statements and expressions in all forms of functions, all limits of at least 1, all layouts",
   WHY, ["oclint-metrics/lib/NPathComplexityMetric.cpp", "oclint-rules/rules/size/NPathComplexityRule.cpp"],
   [("NPathComplexityMetric recursion", "oclint-metrics/lib/NPathComplexityMetric.cpp")], TECH),
 p("C18", "High NCSS reports exactly the functions over the limit, with their number",
   "For every function definition (" + FORMS + ") NCSS is one plus the non-commenting source statements of its body: null statements and blocks count 0, if, else, loops, switch, case, default, try, catch, finally, synchronized and autoreleasepool 1 each, do-while 2, every other statement 1; "
   "the definition is reported, once, with number, limit and extent, if and only if the number exceeds NCSS_METHOD (default 30). Comments, line breaks and layout do not matter.",
   ["inputs", "configurations"], "all compositions of statements in all forms of functions, all limits of at least 1, all layouts",
   WHY, ["oclint-metrics/lib/NcssMetric.cpp", "oclint-rules/rules/size/NcssMethodCountRule.cpp"],
   [("NcssMetric recursion", "oclint-metrics/lib/NcssMetric.cpp")], TECH, "Labels are only generated before null statements. "),
 p("C19", "Deep nested block reports exactly the blocks deeper than the limit",
   "The depth of a block is one more than that of the deepest block nested in it through the statements it contains (if, else, loops, switch, case, try, catch, finally, synchronized, autoreleasepool); lambdas, block literals and statement expressions start anew. Every block whose depth exceeds NESTED_BLOCK_DEPTH (default 5) is reported once with its depth, the limit and the positions of its braces, and no other.",
   ["inputs", "configurations"], "all nestings of statements in functions, methods, lambdas, blocks and statement expressions, all limits of at least 1, all layouts",
   WHY, ["oclint-metrics/lib/StmtDepthMetric.cpp", "oclint-rules/rules/size/NestedBlockDepthRule.cpp"],
   [("StmtDepthMetric recursion", "oclint-metrics/lib/StmtDepthMetric.cpp")], TECH, "Labels are only generated before null statements. "),
]
