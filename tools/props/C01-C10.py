from common import p

P = [
 p("C01", "Every distinct violation is reported exactly once",
   "Whatever the order in which violations, compile errors, compile warnings and static-analyzer findings are collected, the default result set lists each distinct one (same rule, path, start and end position and message) exactly once, in order of first occurrence, while -allow-duplicated-violations lists every one collected. "
   "The total, the per-priority counts, the error/warning/bug counts and the number of files with violations always agree with the listed elements.",
   ["inputs", "histories"], "all histories of collected violation sets and diagnostics with arbitrary field collisions, all orders of querying, and all command lines that name files repeatedly",
   "The unit tests check a handful of fixed sets; which collisions hide or double a violation depends on field values and on the order of collection.",
   ["oclint-core/lib/RawResults.cpp", "oclint-core/lib/UniqueResults.cpp", "oclint-core/lib/ResultCollector.cpp", "oclint-core/lib/ViolationSet.cpp", "oclint-core/lib/Violation.cpp", "oclint-driver/main.cpp"],
   [("UniqueResults de-duplicates against the raw results", "oclint-core/lib/UniqueResults.cpp"), ("Violation equality and hash", "oclint-core/lib/Violation.cpp")],
   "random histories against a list model, and metamorphic command lines", "",
   [("violation sets", "violations per processed file", "oclint-core/lib/ResultCollector.cpp")], ["Results queries", "reports"]),
 p("C02", "Exactly the selected rules run",
   "A rule's identifier is its name's words (maximal runs of ASCII letters) with their first letters capitalised, joined. "
   "After any sequence of enable and disable requests a loaded rule runs, and is listed by -list-enabled-rules, exactly when its latest request is not a disable and either no rule is currently enabled or this one is.",
   ["inputs", "histories", "configurations"], "all rule names, all histories of enabling and disabling including unknown names, and all command lines of -rule and -disable-rule",
   "Tests cover a few names and single steps; the outcome depends on the whole history.",
   ["oclint-core/lib/RuleBase.cpp", "oclint-driver/lib/RulesetFilter.cpp", "oclint-driver/main.cpp"],
   [("RulesetFilter keeps disjoint enabled and disabled sets", "oclint-driver/lib/RulesetFilter.cpp"), ("identifier from name", "oclint-core/lib/RuleBase.cpp")],
   "histories against a two-set model, identifiers against a tokenizing model, command lines end to end"),
 p("C03", "Configuration layers override in order: etc, home, working dir, command line",
   "Settings come from the installation's etc/oclint, $HOME/.oclint, the working directory's .oclint and the command line; for every scalar setting the value given by the last of these layers that sets it takes effect, rule configurations are overridden key by key, rule selections apply in that order, and rule paths accumulate. "
   "A setting given in a file has the same effect however its YAML scalar is written (plain, quoted, escaped; block or flow), and a setting nobody gives has its documented default.",
   ["inputs", "configurations"], "all combinations of presence and content of the three files and the command line, and all YAML spellings of the same values",
   "Tests parse a few literal files one at a time; layering and precedence are never exercised together, nor are YAML escapes.",
   ["oclint-driver/lib/ConfigFile.cpp", "oclint-driver/lib/Options.cpp", "oclint-driver/main.cpp"],
   [("config files are processed in order before command line values are consulted", "oclint-driver/lib/Options.cpp"), ("YAML mapping", "oclint-driver/lib/ConfigFile.cpp")],
   "generated configurations end to end against a layering model"),
 p("C04", "Rule configuration values are stored and read back faithfully",
   "After any history of configuration assignments, reading a key as text yields its latest assigned value, reading it as an integer or real yields the number its text starts with (C conversion rules, 0 if none), and an unassigned key yields the caller's default. "
   "-rc KEY=VALUE splits at the last '=', the last -rc of a key wins, and the effective threshold shown in messages is that value.",
   ["inputs", "histories", "configurations"], "all histories of assignment, clearing and typed reads over arbitrary keys and values; all -rc lists",
   "Tests set one or two keys with well-formed values.",
   ["oclint-core/lib/RuleConfiguration.cpp", "oclint-driver/lib/Options.cpp"],
   [("RuleConfiguration map and typed getters", "oclint-core/lib/RuleConfiguration.cpp"), ("-rc parsing", "oclint-driver/lib/Options.cpp")],
   "histories against a dictionary model, -rc lists end to end"),
 p("C05", "The exit status tells what happened",
   "A run exits 7 on a command line that does not parse, 1 when no rule can be loaded or a rule library is broken, 2 when the reporter is unknown, 3 when a compile command's directory is missing or it does not expand to one compilation, 4 when the report cannot be opened or written, 6 when any source has compile errors, 5 when the number of violations of some priority exceeds its limit (defaults 0, 10, 20), and 0 otherwise. "
   "The first of these that applies, in the order 7, 1, 2, 3, 4, 6, 5, decides; with 0, 5 and 6 the report is written and its per-priority counts are those compared with the limits, with the others none is. A message on standard error explains 1 to 4 and 7, and gives counts and limits for 5.",
   ["inputs", "configurations", "fault_sequences"], "all counts of violations per priority around all limits, and all combinations of the listed faults",
   "No test runs the driver's main program; the decision combines counts, limits and faults.",
   ["oclint-driver/main.cpp", "oclint-driver/lib/Driver.cpp", "oclint-core/lib/ViolationSet.cpp"],
   [("main's try/catch ladder and priority checks", "oclint-driver/main.cpp")],
   "generated runs with fault combinations against a precedence table"),
 p("C06", "The JSON report is valid JSON that carries the whole result set",
   "For every result set, the JSON report is one well-formed JSON document from which a standard parser recovers the summary numbers and, in order and without loss, every violation and every static-analyzer finding: path, start position, end position when known, rule, category, priority and message, whatever characters these contain (valid UTF-8 in, the same UTF-8 out).",
   ["inputs"], "all result sets and all strings in paths, rule descriptions and messages", "The tests compare fragments for one fixed violation with plain words.",
   ["oclint-reporters/reporters/JSONReporter.cpp"], [("writeKeyValue/writeViolation", "oclint-reporters/reporters/JSONReporter.cpp")],
   "round trip through an independent strict parser, directly and end to end"),
 p("C07", "The XML report is well-formed and carries the whole result set",
   "For every result set, the XML report is one well-formed document from which a standard parser recovers the summary numbers, the UTC time of the run, and, in order and without loss, every violation and static-analyzer finding with all its attributes, whatever XML-representable characters these contain.",
   ["inputs"], "all result sets and all XML-representable strings", "The tests compare fragments for one fixed violation with plain words.",
   ["oclint-reporters/reporters/XMLReporter.cpp"], [("writeViolation/writeSummary", "oclint-reporters/reporters/XMLReporter.cpp")],
   "round trip through an independent parser, directly and end to end"),
 p("C08", "The PMD report is well-formed and carries the whole result set",
   "For every result set, the PMD report is one well-formed document from which a standard parser recovers every compile error (priority 1), compile warning (2), violation (2 x priority - 1) and static-analyzer finding (2), in that order, each with file, position, rule, ruleset and message, whatever XML-representable characters these contain.",
   ["inputs"], "all result sets and all XML-representable strings", "The tests compare fragments for fixed violations with plain words.",
   ["oclint-reporters/reporters/PMDReporter.cpp"], [("writeViolation", "oclint-reporters/reporters/PMDReporter.cpp")],
   "round trip through an independent parser, directly and end to end", "Message text is explored without carriage returns (XML normalises them in text). "),
 p("C09", "The HTML report shows every element of the result set as text",
   "For every result set, the HTML report has balanced markup whose summary table shows the counts and whose details table shows, as literal text, one row per violation, compile error, compile warning and static-analyzer finding, in that order; no text taken from the sources or paths is ever interpreted as markup.",
   ["inputs"], "all result sets and all strings", "The tests compare fragments for fixed violations with plain words.",
   ["oclint-reporters/reporters/HTMLReporter.cpp"], [("writeViolation/writeSummaryTable", "oclint-reporters/reporters/HTMLReporter.cpp")],
   "round trip through an independent parser, directly and end to end"),
 p("C10", "Text and Xcode reports list every element on its own line",
   "For every result set, the text report is the compile errors, compile warnings and static-analyzer results (each section present exactly when non-empty), then the summary line with the right counts, then one line 'path:line:column: rule [category|Ppriority] message' per violation in order; the Xcode report is one line 'path:line:column: warning: rule [category|Ppriority] message' per violation in order.",
   ["inputs"], "all result sets", "The tests compare fragments for fixed violations.",
   ["oclint-reporters/reporters/TextReporter.cpp", "oclint-reporters/reporters/XcodeReporter.cpp"],
   [("writeViolation", "oclint-reporters/reporters/TextReporter.cpp"), ("writeViolation", "oclint-reporters/reporters/XcodeReporter.cpp")],
   "independent formatting compared line by line, directly and end to end"),
]
