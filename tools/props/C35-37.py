from common import p

P = [
 p("C35", "Any source is analysed to an end, repeatably, and what is reported lies in it",
   "Whatever the sources, flags, thresholds and enabled analyses, a run that accepts its command line ends with exit status 0, 5 or 6 and a report, without being killed where the compiler alone is not; the status is 6 exactly when there are compiler errors, and then "
   "the broken source contributes no violations. The violations and errors are the same in every run of the same command, in another process, with other contents of fresh memory, and with or without the clang static analyzer. Every violation lies at lines and columns that "
   "exist in its file, has a rule, category and priority, and is listed once unless duplicates are allowed.",
   ["inputs", "configurations"], "all sources and flags composed or mutated from the generators and the corpus; two processes per case",
   "Crashes, uninitialised data and stray positions depend on which node kinds meet which rule: the product of the language, its extensions and seventy rules, of which tests try one sensible example each.",
   ["oclint-rules/rules", "oclint-rules/include/oclint/AbstractASTVisitorRule.h", "oclint-driver/lib/Driver.cpp", "oclint-core/lib/RuleBase.cpp"],
   [("LongMethodRule::applyDecl", "oclint-rules/rules/size/LongMethodRule.cpp"), ("NPathComplexityRule::applyDecl", "oclint-rules/rules/size/NPathComplexityRule.cpp"),
    ("RulesetBasedAnalyzer::analyze", "oclint-driver/lib/RulesetBasedAnalyzer.cpp"), ("Driver::run", "oclint-driver/lib/Driver.cpp")],
   "generated, composed and token-mutated sources under generated flags end to end in two processes (the second with perturbed heap contents), invariants on status and report",
   "Runs the compiler alone does not survive are left out, as are command lines refused before compiling. "),
 p("C36", "Rules, thresholds and the declarations of a source do not influence each other",
   "The violations of a run are those each of its rules reports when it runs without the others. Changing the threshold of one rule changes the violations of no other. The violations in two groups of declarations in one source are those of each group alone, at their "
   "places, in either order. In C and C++, replacing names consistently by other names of the same length changes the names in messages and nothing else.",
   ["inputs", "configurations"], "all generated pairs of programs and partitions of the rules (up to five parts)",
   "Rules share the context, the violation set, the configuration and static data, and keep state from one declaration to the next; a test runs one rule over one small source in a process of its own.",
   ["oclint-driver/lib/RulesetBasedAnalyzer.cpp", "oclint-core/lib/RuleConfiguration.cpp", "oclint-rules/include/oclint/AbstractASTVisitorRule.h", "oclint-rules/rules"],
   [("RulesetBasedAnalyzer::analyze", "oclint-driver/lib/RulesetBasedAnalyzer.cpp"), ("RuleConfiguration", "oclint-core/lib/RuleConfiguration.cpp"),
    ("AbstractASTVisitorRule::apply", "oclint-rules/include/oclint/AbstractASTVisitorRule.h")],
   "metamorphic: generated programs and corpus sources; whole against partition of the rules, one threshold changed, two programs joined in both orders, names replaced",
   ""),
 p("C37", "The report arrives whole where asked for, wherever the tool is started from",
   "With an output file, relative to the directory the tool was started in or absolute, given by option or configuration file, the file holds exactly the bytes a run without one prints, whatever it held before, and standard output holds none of it; relative paths do not depend on "
   "the directories of compile commands. A report that cannot be written ends with exit status 4 and nothing on standard output. -list-enabled-rules lists exactly the rules that are enabled, before the report, and changes nothing else. All this holds in every format, and whether the "
   "tool is started by an absolute or relative path or found on the search path.",
   ["inputs", "configurations", "fault_sequences"], "all combinations of formats, destinations, ways to start and databases generated",
   "Driver and main are not linked into any test; where bytes go depends on directories the driver changes while it runs and on writes that fail.",
   ["oclint-driver/main.cpp", "oclint-driver/lib/Options.cpp", "oclint-driver/reporters_dlfcn_port.cpp"],
   [("outStream", "oclint-driver/main.cpp"), ("disposeOutStream", "oclint-driver/main.cpp"), ("listRules", "oclint-driver/main.cpp"), ("outputPath", "oclint-driver/lib/Options.cpp"),
    ("preserveExecutablePath", "oclint-driver/lib/Options.cpp")],
   "generated runs end to end, compared byte by byte (times masked) with a plain run; unwritable destinations include a full device",
   "Empty reports to a full device are fine. "),
]
