from common import p

P = [
 p("C40", "Scaffolded rules and reporters are as asked for and join the build",
   "After any history of scaffoldRule and scaffoldReporter commands for new classes, from any directory: the source of each, and its test unless declined, compiles in the tree; a rule has the type's base, the name asked for or by default the words of its class name in lower case (so that its identifier is the class name), the category (custom), the priority (3) and the version; "
   "a reporter has its name; each, and each generated test, is one target of the build, next to the targets that were there; the generated tests of these properties pass. No other file is new or different. A reporter that exists is refused, and nothing changes.",
   ["inputs", "histories"], "all class names, names, types, categories, priorities and test options, and orders of commands",
   "No test runs the scripts or compiles what they write.",
   ["oclint-scripts/scaffoldRule", "oclint-scripts/scaffoldReporter", "oclint-rules/template", "oclint-reporters/template"],
   [("write_cmake_lists", "oclint-scripts/scaffoldRule"), ("copy_template", "oclint-scripts/scaffoldRule"), ("pre_check", "oclint-scripts/scaffoldRule"), ("pre_validate", "oclint-scripts/scaffoldReporter")],
   "generated histories of commands against a model of files and targets; what they make is compiled, run and asked",
   "Class names are words of letters and digits; scaffolding a rule again is left out. "),
]
