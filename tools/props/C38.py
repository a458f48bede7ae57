from common import p

P = [
 p("C38", "The static analyzer adds its findings to the report and changes nothing else",
   "With -enable-clang-static-analyzer the report also lists each finding of the clang static analyzer, once, at its file, line and column, for every source and command that compiles, as the command says; diagnostics of the compiler are no findings. "
   "All else is what a run without the option gives: violations, errors, warnings, counts, exit status. Nothing is written.",
   ["inputs", "configurations"], "all generated functions with and without bugs, sources with and without warnings, errors and violations, flags, and ways to give commands",
   "No test links the driver; the analyzer is a second pass with a consumer, flags and effects of its own over each command.",
   ["oclint-driver/lib/Driver.cpp", "oclint-driver/lib/CompilerInstance.cpp", "oclint-driver/lib/DiagnosticDispatcher.cpp", "oclint-core/lib/ResultCollector.cpp", "oclint-core/lib/UniqueResults.cpp"],
   [("invokeClangStaticAnalyzer", "oclint-driver/lib/Driver.cpp"), ("getFrontendAction", "oclint-driver/lib/CompilerInstance.cpp"), ("DiagnosticDispatcher::HandleDiagnostic", "oclint-driver/lib/DiagnosticDispatcher.cpp"),
    ("UniqueResults::allCheckerBugs", "oclint-core/lib/UniqueResults.cpp")],
   "generated sources with planted bugs end to end: the findings against a model, all else against the run without the analyzer, the tree before and after",
   "Commands that only preprocess (-E) are not analysed for bugs and are left out. "),
]
