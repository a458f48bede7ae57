from common import p

P = [
 p("C39", "The documentation of oclint-docgen describes the loaded rules and is true",
   "The index states the number of loaded rules and lists each of their categories once, in alphabetical order; there is a page for each category with exactly its rules, in order of their identifiers, each with its identifier, since, name, description, class file and link, example, thresholds (all, in order of their names), the annotation that suppresses it if it supports that, and its additional document. "
   "For any selection of the shipped rules, however spread over rule directories: the rules described are those that oclint lists, a rule's class file exists in the folder of its category, and the default stated for a threshold is the one in effect: leaving the threshold out and setting it to that value report the same.",
   ["inputs", "configurations"], "all rules with their texts, selections of the shipped rules over directories, thresholds, and sources with constructs of sizes around the default",
   "No test builds oclint-docgen or the documentation part of any rule; the defaults are written twice, once in code and once in prose.",
   ["oclint-driver/main_docgen.cpp", "oclint-core/lib/RuleBase.cpp", "oclint-rules/rules"],
   [("writeRuleToCategory", "oclint-driver/main_docgen.cpp"), ("writeCategoryToIndex", "oclint-driver/main_docgen.cpp"), ("RuleBase::fileName", "oclint-core/lib/RuleBase.cpp")],
   "generated rules and selections of the shipped ones against reference pages; default thresholds left out and set to what is documented must report the same",
   "Blank lines and the time stamp of a page are not compared. "),
]
