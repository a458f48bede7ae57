from common import p

P = [
 p("C11", "Each source is analyzed as its compile command says, and nothing is written",
   "Every compile command of a requested source (all of them, when the database has several) is analyzed with that command's own directory, macros, include paths, forced includes, language and mode flags, with __OCLINT__ defined, whether the command is given as a string or an argument list, by relative or absolute path, before or after '--', or as fixed flags after '--' on the command line; when no command can be found for a source, it is skipped with a message naming it. "
   "Whatever output, dependency or intermediate files the commands ask for, a run without static analyzer leaves the file tree as it was.",
   ["inputs", "configurations"], "all compilation databases, all spellings of the commands in them, and all requested subsets and orders of sources",
   "No test runs the driver on a compilation database; the outcome depends on combinations of flags, directories and spellings.",
   ["oclint-driver/lib/Driver.cpp", "oclint-driver/main.cpp"],
   [("adjustArguments and newCompilerInvocation", "oclint-driver/lib/Driver.cpp"), ("chdir per compile command", "oclint-driver/lib/Driver.cpp")],
   "generated databases and source trees, reported lines against a model of the flags, and the file tree before and after",
   "Command lines the compiler driver itself rejects are not generated (oclint ignores driver-level diagnostics). "),

 p("C12", "Compile diagnostics are listed; a broken source costs only its own violations",
   "Every error and every enabled warning the compiler gives for an analyzed source is listed once as a compile error or warning, with the file, line and column the compiler attributes it to (headers included; the macro's use for code from a macro's body) and the compiler's message, after -w, -Werror and -W flags have had their effect, in order; notes are not listed. "
   "A source with errors contributes no violations and is not counted among the analyzed files, the other sources of the run are analyzed as if it were not there, and the exit status is 6 exactly when an error is listed.",
   ["inputs", "fault_sequences"], "all runs over several sources and headers with any mixture of broken, warning and clean code",
   "No test runs the driver over sources that fail to compile, let alone mixtures with sources that compile.",
   ["oclint-driver/lib/DiagnosticDispatcher.cpp", "oclint-driver/lib/Driver.cpp", "oclint-driver/lib/CompilerInstance.cpp", "oclint-core/lib/ResultCollector.cpp", "oclint-driver/main.cpp"],
   [("HandleDiagnostic routes diagnostics", "oclint-driver/lib/DiagnosticDispatcher.cpp"), ("constructCompilers keeps the compilations that succeeded", "oclint-driver/lib/Driver.cpp")],
   "sources assembled from diagnostic templates of known position and message, end to end against a model",
   "Messages are those of the installed clang, for a table of sixteen kinds of diagnostics. "),
 p("C13", "What is reported for a source does not depend on its company",
   "The violations, errors, warnings and file count of a run over several compile commands are the concatenation, in order (and with duplicates removed unless -allow-duplicated-violations is given), of those of runs over one compile command each: they depend neither on the other sources of the run, nor on their order, nor on several commands compiling one file differently, nor on equal relative names in different directories, nor on -enable-global-analysis.",
   ["inputs", "histories", "configurations"], "all sequences of compile commands and sources, with all rules loaded",
   "Every unit test analyzes one source in a fresh state; rules and helpers keep state between sources.",
   ["oclint-driver/lib/Driver.cpp", "oclint-driver/lib/RulesetBasedAnalyzer.cpp", "oclint-rules/lib/helper/SuppressHelper.cpp", "oclint-rules/include/oclint/AbstractASTVisitorRule.h", "oclint-core/lib/ResultCollector.cpp"],
   [("rules are single objects applied to source after source", "oclint-driver/lib/RulesetBasedAnalyzer.cpp"), ("suppression caches", "oclint-rules/lib/helper/SuppressHelper.cpp")],
   "metamorphic: runs over several commands against the concatenation of one-command runs"),
 p("C14", "Code of the source is reported once, at its position; that of headers is not",
   "A rule that reports a construct reports each occurrence of it in the analyzed source exactly once, in whatever declaration it stands (functions, methods, namespaces, linkage blocks, nested and local classes, templates however often instantiated, lambdas, blocks, Objective-C implementations and categories), and reports nothing for declarations that begin in an included file. "
   "The violation names the file and the position where the construct's first and last tokens are written; tokens from a macro's body are placed where the macro is used, tokens of macro arguments where they are written, and code from a file included inside a declaration of the source in that file.",
   ["inputs"], "all sources with any nesting of declarations, macros and inclusions",
   "The unit tests analyze single small functions without headers, macros or templates.",
   ["oclint-rules/include/oclint/AbstractASTVisitorRule.h", "oclint-rules/lib/AbstractASTMatcherRule.cpp", "oclint-rules/lib/AbstractASTRuleBase.cpp", "oclint-core/lib/RuleCarrier.cpp"],
   [("isValidDecl filters top-level declarations", "oclint-rules/include/oclint/AbstractASTVisitorRule.h"), ("addViolation maps macro locations to file locations", "oclint-rules/lib/AbstractASTRuleBase.cpp")],
   "generated nests of declarations, macros and inclusions against positions recorded while writing them",
   "Probes of three rules (a visitor and two matcher rules) stand for all. "),
 p("C15", "Rules run for the languages they support, in every dialect of them",
   "A rule reports only on sources of languages it supports (C, C++, Objective-C and Objective-C++ being analyzed as Objective-C), and for a source that several -std dialects of its language accept, the violations are the same in all of them.",
   ["inputs", "configurations"], "all sources and all dialects that accept them, with all rules loaded",
   "The unit tests fix one dialect per language.",
   ["oclint-rules/lib/AbstractASTRuleBase.cpp", "oclint-rules/include/oclint/AbstractASTVisitorRule.h"],
   [("isLanguageSupported", "oclint-rules/lib/AbstractASTRuleBase.cpp")],
   "metamorphic over dialects on a corpus and generated functions, and a table of supported languages"),
]
