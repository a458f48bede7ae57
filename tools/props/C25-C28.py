from common import p

R = "oclint-rules/rules/"
SIZES = ["LongLine", "LongMethod", "LongClass", "TooManyFields", "TooManyMethods", "TooManyParameters"]
OVER = ["inputs", "configurations"]

P = [
 p("C25", "The size rules count lines, fields, methods and parameters exactly",
   "Long line reports each line of the source of more than LONG_LINE (100) bytes, the line's end excluded. Long method reports each function, method and constructor definition whose body takes more than LONG_METHOD (50) lines, from the line of { to that of }, methods defined inside C++ classes excepted. "
   "Long class reports definitions of C++ classes, structs and unions and Objective-C interfaces, categories, protocols and implementations of more than LONG_CLASS (1000) lines. Too many fields counts the fields a C++ class or an Objective-C interface itself declares, bit fields and anonymous members included, static members, nested classes' and inherited fields not; limit TOO_MANY_FIELDS (20). "
   "Too many methods counts the methods written in a C++ class (constructors, destructors and operators included, functions the compiler declares not) or belonging to an Objective-C implementation, synthesized accessors included; limit TOO_MANY_METHODS (30). Too many parameters reports definitions with more than TOO_MANY_PARAMETERS (10) named or unnamed parameters. "
   "Each is reported once, at the extent of the declaration, with a message that gives the number and the limit; nothing is reported at the limit or below, and nothing for prototypes and forward declarations.",
   OVER, "all compositions of the generated declarations and layouts, all byte contents of lines, limits at, above and below the numbers",
   "The tests try a handful of classes and methods in one layout; the counts must be right for every mix of members, every nesting and every distribution over lines.",
   [f"{R}size/{n}Rule.cpp" for n in SIZES], [(n + "Rule", f"{R}size/{n}Rule.cpp") for n in SIZES],
   "generated declarations with counts recorded while they are written, full violation lists with messages and positions against the counts"),
 p("C26", "Variables and parameters are reported for the length of their names exactly",
   "Long variable name reports each variable and parameter, global, local, static or in a lambda, block or template, whose name has more than LONG_VARIABLE_NAME (20) characters; short variable name each whose name has fewer than SHORT_VARIABLE_NAME (3), except the variables a for statement declares in its head (the classic, range-based and for-in forms), parameters of C++ catch and unnamed parameters. "
   "Fields, functions, types and labels are not variables. Each is reported once, at the extent of the declaration, with its name and length in the message.",
   OVER, "all compositions of the generated declarations, names of lengths 1 to 40, limits at, above and below the lengths",
   "The tests try one declaration per case; the exemption must hold for exactly the for statement's own variables wherever the statement is, and every declaration must be looked at once.",
   [f"{R}naming/LongVariableNameRule.cpp", f"{R}naming/ShortVariableNameRule.cpp"], [("LongVariableNameRule", f"{R}naming/LongVariableNameRule.cpp"), ("ShortVariableNameRule", f"{R}naming/ShortVariableNameRule.cpp")],
   "generated declarations recorded while they are written, full violation lists with messages and positions against the record",
   "Parameters of Objective-C @catch are not generated with names that matter, because the rules do not look at them. "),
 p("C27", "A //!OCLINT comment silences exactly its own line",
   "A comment that contains //!OCLINT, with or without text after it, takes away all violations that start on the comment's line in the source, of all rules, including those found by reading lines. It takes away nothing else: not violations that start on other lines and span this one, not those of neighbouring lines, whether other comments are adjacent or not. "
   "Other comments and string literals that resemble it have no effect.",
   OVER, "all rules, all sources and all sets of marked lines, with comments that clang merges and comments in various positions",
   "The tests mark one line of one snippet and one rule; a suppression must work the same for every rule, line and combination of comments.",
   ["oclint-rules/lib/helper/SuppressHelper.cpp", "oclint-rules/lib/AbstractASTRuleBase.cpp", "oclint-rules/lib/AbstractSourceCodeReaderRule.cpp"],
   [("lineBasedShouldSuppress", "oclint-rules/lib/helper/SuppressHelper.cpp")],
   "metamorphic runs of all rules on generated programs and a corpus of snippets: the same text with inert comments and with suppressing comments of the same length; the violation lists must differ by exactly the marked lines"),
 p("C28", "An oclint:suppress attribute silences exactly what its declaration contains",
   "__attribute__((annotate(\"oclint:suppress\"))) on a function, method, constructor, class, Objective-C interface or protocol, parameter or variable takes away all violations of all rules on the declaration and on everything inside it (nested statements, declarations, constructor initializers), and the long lines it spans. "
   "On the declaration of an Objective-C method in an interface, a category or a class extension it holds for the definition of that very method. "
   "\"oclint:suppress[rule]\", with or without a [comment] behind, takes away those of that rule only. Everything outside the declaration and, in the second form, of other rules is still reported; other annotations have no effect.",
   OVER, "all rules, all generated declarations and sets of annotated ones, both forms and look-alikes",
   "The tests annotate single functions for single rules; the attribute must work on every kind of declaration, at every depth, for every rule, and never leak out of it.",
   ["oclint-rules/lib/helper/SuppressHelper.cpp", "oclint-rules/lib/helper/AttributeHelper.cpp", "oclint-rules/lib/AbstractASTRuleBase.cpp", "oclint-rules/lib/AbstractSourceCodeReaderRule.cpp"],
   [("markedParentsAsSuppress", "oclint-rules/lib/helper/SuppressHelper.cpp"), ("DeclAnnotationRangeCollector", "oclint-rules/lib/helper/SuppressHelper.cpp"), ("declHasActionAttribute", "oclint-rules/lib/helper/AttributeHelper.cpp")],
   "metamorphic runs of all rules on generated programs: the same text with inert annotations and with suppressing ones of the same length; the violation lists must differ by exactly those inside the annotated declarations",
   "Long lines between an attribute and the rest of its declaration are left open, as are statements of the Objective-C rules with attribute names of their own. "),
]
