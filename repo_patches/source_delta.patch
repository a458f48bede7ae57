From c8f7b410e97942c39a7304cb30f83433d50a70f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 01/54] fix: keep configuration file strings beyond the
 parser's lifetime

ConfigFile stored StringRefs into the memory buffer and the YAML parser's
allocator, both of which end with the constructor; escaped scalars were read
back as garbage.
---
 oclint-driver/include/oclint/ConfigFile.h | 25 ++++++++++++-----------
 oclint-driver/lib/ConfigFile.cpp          | 15 +++++++-------
 oclint-driver/lib/Options.cpp             | 14 ++++++-------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/oclint-driver/include/oclint/ConfigFile.h b/oclint-driver/include/oclint/ConfigFile.h
index 101a12a..d79a0c6 100644
--- a/oclint-driver/include/oclint/ConfigFile.h
+++ b/oclint-driver/include/oclint/ConfigFile.h
@@ -1,6 +1,7 @@
 #ifndef OCLINT_CONFIGFILE_H
 #define OCLINT_CONFIGFILE_H
 
+#include <string>
 #include <vector>
 
 #include <llvm/Support/YAMLTraits.h>
@@ -14,12 +15,12 @@ namespace option
 class RuleConfigurationPair
 {
 private:
-    llvm::StringRef _key;
-    llvm::StringRef _value;
+    std::string _key;
+    std::string _value;
 
 public:
-    const llvm::StringRef &key() const;
-    const llvm::StringRef &value() const;
+    const std::string &key() const;
+    const std::string &value() const;
 
     void mapping(llvm::yaml::IO& io);
 };
@@ -30,12 +31,12 @@ class ConfigFile
 {
 private:
     std::string _path;
-    std::vector<llvm::StringRef> _rules;
-    std::vector<llvm::StringRef> _disableRules;
-    std::vector<llvm::StringRef> _rulePaths;
+    std::vector<std::string> _rules;
+    std::vector<std::string> _disableRules;
+    std::vector<std::string> _rulePaths;
     std::vector<RuleConfigurationPair> _ruleConfigurations;
-    llvm::StringRef _output;
-    llvm::StringRef _reportType;
+    std::string _output;
+    std::string _reportType;
     int _maxP1;
     int _maxP2;
     int _maxP3;
@@ -47,9 +48,9 @@ public:
     explicit ConfigFile(const std::string &path);
 
     const std::string &path() const;
-    const std::vector<llvm::StringRef> &rules() const;
-    const std::vector<llvm::StringRef> &disableRules() const;
-    const std::vector<llvm::StringRef> &rulePaths() const;
+    const std::vector<std::string> &rules() const;
+    const std::vector<std::string> &disableRules() const;
+    const std::vector<std::string> &rulePaths() const;
     const std::vector<RuleConfigurationPair> &ruleConfigurations() const;
     std::optional<std::string> output() const;
     std::optional<std::string> reportType() const;
diff --git a/oclint-driver/lib/ConfigFile.cpp b/oclint-driver/lib/ConfigFile.cpp
index 1e002ec..a19a412 100644
--- a/oclint-driver/lib/ConfigFile.cpp
+++ b/oclint-driver/lib/ConfigFile.cpp
@@ -31,12 +31,12 @@ struct MappingTraits<RuleConfigurationPair>
 }
 }
 
-const llvm::StringRef &oclint::option::RuleConfigurationPair::key() const
+const std::string &oclint::option::RuleConfigurationPair::key() const
 {
     return _key;
 }
 
-const llvm::StringRef &oclint::option::RuleConfigurationPair::value() const
+const std::string &oclint::option::RuleConfigurationPair::value() const
 {
     return _value;
 }
@@ -111,17 +111,17 @@ const std::string &oclint::option::ConfigFile::path() const
     return _path;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::rules() const
+const std::vector<std::string> &oclint::option::ConfigFile::rules() const
 {
     return _rules;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::disableRules() const
+const std::vector<std::string> &oclint::option::ConfigFile::disableRules() const
 {
     return _disableRules;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::rulePaths() const
+const std::vector<std::string> &oclint::option::ConfigFile::rulePaths() const
 {
     return _rulePaths;
 }
@@ -131,10 +131,9 @@ const std::vector<RuleConfigurationPair> &oclint::option::ConfigFile::ruleConfig
     return _ruleConfigurations;
 }
 
-static std::optional<std::string> createOptionalString(const llvm::StringRef &value)
+static std::optional<std::string> createOptionalString(const std::string &value)
 {
-    const std::string &string = value.str();
-    return string.size() ? std::optional<std::string>(string) : std::optional<std::string>();
+    return value.size() ? std::optional<std::string>(value) : std::optional<std::string>();
 }
 
 std::optional<std::string> oclint::option::ConfigFile::output() const
diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 8622136..748aee2 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -143,22 +143,22 @@ static void processConfigFile(const std::string &path)
     oclint::option::ConfigFile config(path);
     for (const oclint::option::RuleConfigurationPair &ruleConfig : config.ruleConfigurations())
     {
-        consumeRuleConfiguration(ruleConfig.key().str(), ruleConfig.value().str());
+        consumeRuleConfiguration(ruleConfig.key(), ruleConfig.value());
     }
-    for (const llvm::StringRef &rulePath : config.rulePaths())
+    for (const std::string &rulePath : config.rulePaths())
     {
-        argRulesPath.push_back(rulePath.str());
+        argRulesPath.push_back(rulePath);
     }
     std::vector<std::string> enableRules;
-    for (auto rule : config.rules())
+    for (const auto &rule : config.rules())
     {
-        enableRules.push_back(rule.str());
+        enableRules.push_back(rule);
     }
     filter.enableRules(enableRules.begin(), enableRules.end());
     std::vector<std::string> disableRules;
-    for (auto rule : config.disableRules())
+    for (const auto &rule : config.disableRules())
     {
-        disableRules.push_back(rule.str());
+        disableRules.push_back(rule);
     }
     filter.disableRules(disableRules.begin(), disableRules.end());
 
-- 
2.43.0


From 551fa6fcf9294b99bfa050e9dbfc5f0c4a69603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 02/54] fix: keep the working directory when its path is longer
 than 300 characters

An empty working path made .oclint and relative -o paths resolve against /.
---
 oclint-driver/lib/Options.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 748aee2..a425c36 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -2,6 +2,9 @@
 
 #include <unistd.h>
 
+#include <cerrno>
+#include <vector>
+
 #include <llvm/Option/OptTable.h>
 #include <llvm/Option/Option.h>
 #include <llvm/Support/CommandLine.h>
@@ -180,11 +183,16 @@ static void processConfigFiles()
 
 static void preserveWorkingPath()
 {
-    char path[300];
-    if (getcwd(path, 300))
+    std::vector<char> path(300);
+    while (!getcwd(path.data(), path.size()))
     {
-        absoluteWorkingPath = std::string(path);
+        if (errno != ERANGE)
+        {
+            return;
+        }
+        path.resize(path.size() * 2);
     }
+    absoluteWorkingPath = std::string(path.data());
 }
 
 static void preserveExecutablePath(const char *argv)
-- 
2.43.0


From dd7fd10aea73b13812a84f503823df3429132252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 03/54] fix: escape strings in the JSON report

---
 oclint-reporters/reporters/JSONReporter.cpp | 34 ++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/JSONReporter.cpp b/oclint-reporters/reporters/JSONReporter.cpp
index ec4ede3..c1d3691 100644
--- a/oclint-reporters/reporters/JSONReporter.cpp
+++ b/oclint-reporters/reporters/JSONReporter.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <ctime>
 
 #include "oclint/Constants.h"
@@ -64,6 +65,37 @@ public:
         out << "\"" << key << "\":";
     }
 
+    std::string escape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const char c : data)
+        {
+            switch (c)
+            {
+                case '"':
+                    output += "\\\"";
+                    break;
+                case '\\':
+                    output += "\\\\";
+                    break;
+                default:
+                    if (static_cast<unsigned char>(c) < 0x20)
+                    {
+                        char unicodeEscape[7];
+                        snprintf(unicodeEscape, sizeof(unicodeEscape), "\\u%04x", c);
+                        output += unicodeEscape;
+                    }
+                    else
+                    {
+                        output += c;
+                    }
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeComma(std::ostream &out, bool isLast)
     {
         if (!isLast)
@@ -75,7 +107,7 @@ public:
     void writeKeyValue(std::ostream &out, std::string key, std::string value, bool last = false)
     {
         writeKey(out, key);
-        out << "\"" << value << "\"";
+        out << "\"" << escape(value) << "\"";
         writeComma(out, last);
     }
 
-- 
2.43.0


From c2a411410d10b59016cbf2b117c249509212b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 04/54] fix: escape strings and correct the month in the XML
 report

---
 oclint-reporters/reporters/XMLReporter.cpp | 47 +++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 4e44cba..0f67a60 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -54,7 +54,7 @@ public:
             28,
             "%04i-%02i-%02iT%02i:%02i:%02iZ",
             tmNow->tm_year + 1900,
-            tmNow->tm_mon,
+            tmNow->tm_mon + 1,
             tmNow->tm_mday,
             tmNow->tm_hour,
             tmNow->tm_min,
@@ -89,6 +89,51 @@ public:
         out << "></violation>";
     }
 
+    std::string escape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const char c : data)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                case '\'':
+                    output += "&#39;";
+                    break;
+                case '\t':
+                    output += "&#9;";
+                    break;
+                case '\n':
+                    output += "&#10;";
+                    break;
+                case '\r':
+                    output += "&#13;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
+    void writeViolationAttribute(std::ostream &out, std::string key, const std::string &value)
+    {
+        out << " " << key << "=\"" << escape(value) << "\"";
+    }
+
     template <typename T>
     void writeViolationAttribute(std::ostream &out, std::string key, T value)
     {
-- 
2.43.0


From 931c37f17e494222d67ba7daa092948dd1d6fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 05/54] fix: escape paths and rule descriptions in the PMD
 report

---
 oclint-reporters/reporters/PMDReporter.cpp | 32 +++++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/oclint-reporters/reporters/PMDReporter.cpp b/oclint-reporters/reporters/PMDReporter.cpp
index 2ba9cd5..3a88a74 100644
--- a/oclint-reporters/reporters/PMDReporter.cpp
+++ b/oclint-reporters/reporters/PMDReporter.cpp
@@ -29,8 +29,8 @@ private:
         void write(std::ostream &out) const
         {
             out << "priority=\"" << priority << "\" ";
-            out << "rule=\"" << name << "\" ";
-            out << "ruleset=\"" << category << "\" ";
+            out << "rule=\"" << xmlEscapeAttribute(name) << "\" ";
+            out << "ruleset=\"" << xmlEscapeAttribute(category) << "\" ";
         }
     };
 
@@ -81,7 +81,7 @@ private:
                         const Violation &violation,
                         const PMDRuleDescription *ruleDescription)
     {
-        out << "<file name=\"" << violation.path << "\">" << std::endl;
+        out << "<file name=\"" << xmlEscapeAttribute(violation.path) << "\">" << std::endl;
         out << "<violation ";
         out << "begincolumn=\"" << violation.startColumn << "\" ";
         out << "endcolumn=\"" << violation.endColumn << "\" ";
@@ -97,7 +97,31 @@ private:
         out << "</file>" << std::endl;
     }
 
-    std::string xmlEscape(const std::string &data)
+    static std::string xmlEscapeAttribute(const std::string &data)
+    {
+        std::string output;
+        for (const auto &c : xmlEscape(data))
+        {
+            switch(c)
+            {
+                case '\t':
+                    output += "&#9;";
+                    break;
+                case '\n':
+                    output += "&#10;";
+                    break;
+                case '\r':
+                    output += "&#13;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
+    static std::string xmlEscape(const std::string &data)
     {
         std::string output;
         output.reserve(data.size());
-- 
2.43.0


From b667c590baf0141ee28ceee3e1a3ceec96200b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 06/54] fix: escape strings in the HTML report

---
 oclint-reporters/reporters/HTMLReporter.cpp | 47 +++++++++++++++++----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/oclint-reporters/reporters/HTMLReporter.cpp b/oclint-reporters/reporters/HTMLReporter.cpp
index df67afa..ff5ef2e 100644
--- a/oclint-reporters/reporters/HTMLReporter.cpp
+++ b/oclint-reporters/reporters/HTMLReporter.cpp
@@ -58,6 +58,37 @@ public:
         out << std::endl;
     }
 
+    std::string escape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const char c : data)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                case '\'':
+                    output += "&#39;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeFooter(std::ostream &out, std::string version)
     {
         time_t now = time(nullptr);
@@ -68,23 +99,23 @@ public:
 
     void writeViolation(std::ostream &out, const Violation &violation)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << escape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         const RuleBase *rule = violation.rule;
-        out << "<td>" << rule->name() << "</td>"
-            << "<td>" << rule->category() << "</td>"
+        out << "<td>" << escape(rule->name()) << "</td>"
+            << "<td>" << escape(rule->category()) << "</td>"
             << "<td class='priority" << rule->priority() << "'>"
             << rule->priority() << "</td>"
-            << "<td>" << violation.message << "</td></tr>";
+            << "<td>" << escape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerErrorOrWarning(std::ostream &out,
         const Violation &violation, std::string level)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << escape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         out << "<td>compiler " << level << "</td><td></td><td class='cmplr-" << level << "'>"
-            << level << "</td><td>" << violation.message << "</td></tr>";
+            << level << "</td><td>" << escape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerDiagnostics(std::ostream &out, std::vector<Violation> violations,
@@ -100,10 +131,10 @@ public:
     {
         for (const auto& violation : violations)
         {
-            out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+            out << "<tr><td>" << escape(violation.path) << "</td><td>" << violation.startLine
                 << ":" << violation.startColumn << "</td>";
             out << "<td>clang static analyzer</td><td></td><td class='checker-bug'>"
-                << "checker bug</td><td>" << violation.message << "</td></tr>";
+                << "checker bug</td><td>" << escape(violation.message) << "</td></tr>";
         }
     }
 
-- 
2.43.0


From 3c929eb0bc02045eb681be062c49dc69bf218c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 07/54] fix: do not overwrite the dependency files of the build

---
 oclint-driver/lib/Driver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index d05445c..0f7acf7 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -267,7 +267,9 @@ static std::vector<std::string> adjustArguments(std::vector<std::string> &unadju
 {
     clang::tooling::ArgumentsAdjuster argAdjuster =
         clang::tooling::combineAdjusters(
-            clang::tooling::getClangStripOutputAdjuster(),
+            clang::tooling::combineAdjusters(
+                clang::tooling::getClangStripOutputAdjuster(),
+                clang::tooling::getClangStripDependencyFileAdjuster()),
             clang::tooling::getClangSyntaxOnlyAdjuster());
     return argAdjuster(unadjustedCmdLine, filename);
 }
-- 
2.43.0


From 9d2bb45dae533ee40214f77e46a75de2ea43fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 08/54] fix: define __OCLINT__ also when the compile command
 has a "--" argument

---
 oclint-driver/lib/Driver.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 0f7acf7..3799fa9 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -184,12 +184,12 @@ static clang::CompilerInvocation *newCompilerInvocation(
     commandLine[0] = mainExecutable;
 
     std::vector<const char*> argv;
-    int start = 0, end = commandLine.size();
+    int start = 1, end = commandLine.size();
+    argv.push_back(commandLine[0].c_str());
+    argv.push_back("-D__OCLINT__");
     if (runClangChecker)
     {
-        argv.push_back(commandLine[0].c_str());
         argv.push_back("--analyze");
-        start = 1;
         end -= 1;
     }
     for (int cmdIndex = start; cmdIndex != end; cmdIndex++)
@@ -199,7 +199,6 @@ static clang::CompilerInvocation *newCompilerInvocation(
             argv.push_back(commandLine[cmdIndex].c_str());
         }
     }
-    argv.push_back("-D__OCLINT__");
 
     // create diagnostic engine
     auto diagOpts = std::make_unique<clang::DiagnosticOptions>();
-- 
2.43.0


From 6beebf40d661bd12132cdfe567314dfdba30427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 09/54] fix: keep the last argument of the compile command for
 the static analyzer

---
 oclint-driver/lib/Driver.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 3799fa9..6ab7e77 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -184,20 +184,20 @@ static clang::CompilerInvocation *newCompilerInvocation(
     commandLine[0] = mainExecutable;
 
     std::vector<const char*> argv;
-    int start = 1, end = commandLine.size();
     argv.push_back(commandLine[0].c_str());
     argv.push_back("-D__OCLINT__");
     if (runClangChecker)
     {
         argv.push_back("--analyze");
-        end -= 1;
     }
-    for (int cmdIndex = start; cmdIndex != end; cmdIndex++)
+    for (size_t cmdIndex = 1; cmdIndex != commandLine.size(); cmdIndex++)
     {
-        if (commandLine[cmdIndex] != "-gmodules")
+        const std::string &argument = commandLine[cmdIndex];
+        if (argument == "-gmodules" || (runClangChecker && argument == "-fsyntax-only"))
         {
-            argv.push_back(commandLine[cmdIndex].c_str());
+            continue;
         }
+        argv.push_back(argument.c_str());
     }
 
     // create diagnostic engine
-- 
2.43.0


From 51576095e84ccb2a2075acad5dc89d55751d66c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 10/54] fix: forget suppressions when the analysis of a source
 begins

The line and range suppressions were cached under the main file's path
alone, so that a second compile command of the same file, or the same
relative path in another directory, was judged by the //!OCLINT comments
and annotations of the first.
---
 oclint-rules/include/oclint/AbstractASTVisitorRule.h | 2 ++
 oclint-rules/include/oclint/helper/SuppressHelper.h  | 5 +++++
 oclint-rules/lib/AbstractSourceCodeReaderRule.cpp    | 2 ++
 oclint-rules/lib/helper/SuppressHelper.cpp           | 6 ++++++
 4 files changed, 15 insertions(+)

diff --git a/oclint-rules/include/oclint/AbstractASTVisitorRule.h b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
index 2c1703b..12e0dde 100644
--- a/oclint-rules/include/oclint/AbstractASTVisitorRule.h
+++ b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
@@ -4,6 +4,7 @@
 #include <clang/AST/RecursiveASTVisitor.h>
 
 #include "oclint/AbstractASTRuleBase.h"
+#include "oclint/helper/SuppressHelper.h"
 
 namespace oclint {
 
@@ -12,6 +13,7 @@ class AbstractASTVisitorRule : public AbstractASTRuleBase, protected clang::Recu
     friend class clang::RecursiveASTVisitor<T>;
 protected:
     virtual void apply() {
+        clearSuppressions();
         if (isCUDASourceFile()) {
             applyCUDA();
         } else {
diff --git a/oclint-rules/include/oclint/helper/SuppressHelper.h b/oclint-rules/include/oclint/helper/SuppressHelper.h
index 192a131..27f2f21 100644
--- a/oclint-rules/include/oclint/helper/SuppressHelper.h
+++ b/oclint-rules/include/oclint/helper/SuppressHelper.h
@@ -5,6 +5,11 @@
 
 #include "oclint/RuleBase.h"
 
+/* Forgets the suppressions of the source file looked at before, to be called when the analysis of
+   a source file begins. Paths alone do not tell source files apart: one file may be compiled by
+   several commands, and the same relative path may be compiled in several directories. */
+void clearSuppressions();
+
 bool shouldSuppress(const clang::Decl *decl, clang::ASTContext &context, oclint::RuleBase *rule);
 bool shouldSuppress(const clang::Stmt *stmt, clang::ASTContext &context, oclint::RuleBase *rule);
 bool shouldSuppress(int beginLine, clang::ASTContext& context,
diff --git a/oclint-rules/lib/AbstractSourceCodeReaderRule.cpp b/oclint-rules/lib/AbstractSourceCodeReaderRule.cpp
index ed36ee5..22d9492 100644
--- a/oclint-rules/lib/AbstractSourceCodeReaderRule.cpp
+++ b/oclint-rules/lib/AbstractSourceCodeReaderRule.cpp
@@ -14,6 +14,8 @@ AbstractSourceCodeReaderRule::~AbstractSourceCodeReaderRule() {}
 /*virtual*/
 void AbstractSourceCodeReaderRule::apply()
 {
+    clearSuppressions();
+
     clang::SourceManager *sourceManager = &_carrier->getSourceManager();
 
     clang::FileID mainFileID = sourceManager->getMainFileID();
diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 62deeb1..783796f 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -196,6 +196,12 @@ bool rangeBasedShouldSuppress(int beginLine, clang::ASTContext &context, oclint:
     return false;
 }
 
+void clearSuppressions()
+{
+    singleLineMapping.clear();
+    rangeMapping.clear();
+}
+
 bool shouldSuppress(int beginLine, clang::ASTContext &context, oclint::RuleBase *rule)
 {
     return lineBasedShouldSuppress(beginLine, context) ||
-- 
2.43.0


From 6a2c733bc42615158c26fd0fa24ba9cbe50d4c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 11/54] fix: run the rules on C89 sources too

Rules were applied to C sources only when the dialect enables the C99
features, so a source compiled with -std=c89 or -ansi silently had no
violations at all.
---
 oclint-rules/lib/AbstractASTRuleBase.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index 00fa4f9..3835ae8 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -77,11 +77,7 @@ bool AbstractASTRuleBase::isLanguageSupported() const
     {
         return supportsCXX();
     }
-    if (langOpts.C99)
-    {
-        return supportsC();
-    }
-    return false;
+    return supportsC();
 }
 
 unsigned int AbstractASTRuleBase::supportedCUDAFunctionAttrs() const
-- 
2.43.0


From cca51c13ff88577fb0bfd5ccf37ae9581b300c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 12/54] fix: count range-based for statements in the metrics

---
 .../include/oclint/metric/CyclomaticComplexityMetric.h      | 1 +
 .../include/oclint/metric/NPathComplexityMetric.h           | 2 ++
 oclint-metrics/include/oclint/metric/NcssMetric.h           | 2 ++
 oclint-metrics/include/oclint/metric/StmtDepthMetric.h      | 2 ++
 oclint-metrics/lib/CyclomaticComplexityMetric.cpp           | 6 ++++++
 oclint-metrics/lib/NPathComplexityMetric.cpp                | 6 ++++++
 oclint-metrics/lib/NcssMetric.cpp                           | 5 +++++
 oclint-metrics/lib/StmtDepthMetric.cpp                      | 5 +++++
 8 files changed, 29 insertions(+)

diff --git a/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h b/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
index 62aa5a3..a9f7aeb 100644
--- a/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
@@ -23,6 +23,7 @@ public:
 
     bool VisitIfStmt(clang::IfStmt *stmt);
     bool VisitForStmt(clang::ForStmt *stmt);
+    bool VisitCXXForRangeStmt(clang::CXXForRangeStmt *stmt);
     bool VisitObjCForCollectionStmt(clang::ObjCForCollectionStmt *stmt);
     bool VisitWhileStmt(clang::WhileStmt *stmt);
     bool VisitDoStmt(clang::DoStmt *stmt);
diff --git a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
index 4d57bff..81b88bb 100644
--- a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
@@ -29,6 +29,7 @@ public:
             DISPATH(clang::ForStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
+            DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::ObjCForCollectionStmt);
         }
         return 1;
@@ -51,6 +52,7 @@ public:
     int nPath(clang::WhileStmt *stmt);
     int nPath(clang::DoStmt *stmt);
     int nPath(clang::ForStmt *stmt);
+    int nPath(clang::CXXForRangeStmt *stmt);
     int nPath(clang::ObjCForCollectionStmt *stmt);
     int nPath(clang::SwitchStmt *stmt);
     int nPath(clang::SwitchCase *stmt);
diff --git a/oclint-metrics/include/oclint/metric/NcssMetric.h b/oclint-metrics/include/oclint/metric/NcssMetric.h
index 5dd80ac..272d686 100644
--- a/oclint-metrics/include/oclint/metric/NcssMetric.h
+++ b/oclint-metrics/include/oclint/metric/NcssMetric.h
@@ -22,6 +22,7 @@ public:
             DISPATH(clang::WhileStmt);
             DISPATH(clang::DoStmt);
             DISPATH(clang::ForStmt);
+            DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::ObjCForCollectionStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
@@ -43,6 +44,7 @@ public:
     int ncss(clang::WhileStmt *stmt);
     int ncss(clang::DoStmt *stmt);
     int ncss(clang::ForStmt *stmt);
+    int ncss(clang::CXXForRangeStmt *stmt);
     int ncss(clang::ObjCForCollectionStmt *stmt);
     int ncss(clang::SwitchStmt *stmt);
     int ncss(clang::SwitchCase *stmt);
diff --git a/oclint-metrics/include/oclint/metric/StmtDepthMetric.h b/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
index 9a2efcc..ef6126f 100644
--- a/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
+++ b/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
@@ -21,6 +21,7 @@ public:
             DISPATH(clang::WhileStmt);
             DISPATH(clang::DoStmt);
             DISPATH(clang::ForStmt);
+            DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::ObjCForCollectionStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
@@ -40,6 +41,7 @@ public:
     int depth(clang::WhileStmt *stmt);
     int depth(clang::DoStmt *stmt);
     int depth(clang::ForStmt *stmt);
+    int depth(clang::CXXForRangeStmt *stmt);
     int depth(clang::ObjCForCollectionStmt *stmt);
     int depth(clang::SwitchStmt *stmt);
     int depth(clang::SwitchCase *stmt);
diff --git a/oclint-metrics/lib/CyclomaticComplexityMetric.cpp b/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
index 5638fae..d5ba734 100644
--- a/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
+++ b/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
@@ -21,6 +21,12 @@ bool CyclomaticComplexityMetric::VisitForStmt(clang::ForStmt *)
     return true;
 }
 
+bool CyclomaticComplexityMetric::VisitCXXForRangeStmt(clang::CXXForRangeStmt *)
+{
+    _count++;
+    return true;
+}
+
 bool CyclomaticComplexityMetric::VisitObjCForCollectionStmt(clang::ObjCForCollectionStmt *)
 {
     _count++;
diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 15bb38e..41c2044 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -63,6 +63,12 @@ int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
         + nPath(stmt->getBody()) + 1;
 }
 
+int NPathComplexityMetric::nPath(clang::CXXForRangeStmt *stmt)
+{
+    // Same as the for-in statement of Objective-C
+    return nPath(stmt->getBody()) + 2;
+}
+
 int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
 {
     // If we convert a foreach loop to a simple for loop, it will looks like
diff --git a/oclint-metrics/lib/NcssMetric.cpp b/oclint-metrics/lib/NcssMetric.cpp
index 07a7fcf..f212f53 100644
--- a/oclint-metrics/lib/NcssMetric.cpp
+++ b/oclint-metrics/lib/NcssMetric.cpp
@@ -44,6 +44,11 @@ int NcssMetric::ncss(clang::ForStmt *stmt)
     return 1 + ncss(stmt->getBody());
 }
 
+int NcssMetric::ncss(clang::CXXForRangeStmt *stmt)
+{
+    return 1 + ncss(stmt->getBody());
+}
+
 int NcssMetric::ncss(clang::ObjCForCollectionStmt *stmt)
 {
     return 1 + ncss(stmt->getBody());
diff --git a/oclint-metrics/lib/StmtDepthMetric.cpp b/oclint-metrics/lib/StmtDepthMetric.cpp
index e41b431..42e14ac 100644
--- a/oclint-metrics/lib/StmtDepthMetric.cpp
+++ b/oclint-metrics/lib/StmtDepthMetric.cpp
@@ -44,6 +44,11 @@ int StmtDepthMetric::depth(clang::ForStmt *stmt)
     return depth(stmt->getBody());
 }
 
+int StmtDepthMetric::depth(clang::CXXForRangeStmt *stmt)
+{
+    return depth(stmt->getBody());
+}
+
 int StmtDepthMetric::depth(clang::ObjCForCollectionStmt *stmt)
 {
     return depth(stmt->getBody());
-- 
2.43.0


From af8ea778063f6e750e7a043056331e2e49c71d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 13/54] fix: measure a function at its definition only

hasBody() follows to the definition, so that prototypes and in-class
declarations of a long function were reported besides it.
---
 oclint-rules/rules/size/LongMethodRule.cpp        | 5 ++++-
 oclint-rules/rules/size/NPathComplexityRule.cpp   | 5 ++++-
 oclint-rules/rules/size/NcssMethodCountRule.cpp   | 5 ++++-
 oclint-rules/rules/size/TooManyParametersRule.cpp | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/rules/size/LongMethodRule.cpp b/oclint-rules/rules/size/LongMethodRule.cpp
index a645e00..6502056 100644
--- a/oclint-rules/rules/size/LongMethodRule.cpp
+++ b/oclint-rules/rules/size/LongMethodRule.cpp
@@ -87,7 +87,10 @@ public:
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
diff --git a/oclint-rules/rules/size/NPathComplexityRule.cpp b/oclint-rules/rules/size/NPathComplexityRule.cpp
index 8bf664a..4eda0a3 100644
--- a/oclint-rules/rules/size/NPathComplexityRule.cpp
+++ b/oclint-rules/rules/size/NPathComplexityRule.cpp
@@ -126,7 +126,10 @@ Brian A. Nejmeh  (1988). `"NPATH: a measure of execution path complexity and its
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
diff --git a/oclint-rules/rules/size/NcssMethodCountRule.cpp b/oclint-rules/rules/size/NcssMethodCountRule.cpp
index b84e450..99b1d2c 100644
--- a/oclint-rules/rules/size/NcssMethodCountRule.cpp
+++ b/oclint-rules/rules/size/NcssMethodCountRule.cpp
@@ -98,7 +98,10 @@ public:
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
diff --git a/oclint-rules/rules/size/TooManyParametersRule.cpp b/oclint-rules/rules/size/TooManyParametersRule.cpp
index 9edc21b..baecef1 100644
--- a/oclint-rules/rules/size/TooManyParametersRule.cpp
+++ b/oclint-rules/rules/size/TooManyParametersRule.cpp
@@ -101,7 +101,10 @@ Fowler, Martin (1999). *Refactoring: Improving the design of existing code.* Add
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
 
         return true;
     }
-- 
2.43.0


From abfd7f703642e7cb40934996dc19e900aafb9dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 14/54] fix: keep the NPath complexity from overflowing

After 32 if statements in a row the number was 0 and not reported.
---
 oclint-metrics/lib/NPathComplexityMetric.cpp | 42 ++++++++++++++------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 41c2044..eebc77a 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -1,14 +1,32 @@
 #include "oclint/metric/NPathComplexityMetric.h"
 
+#include <climits>
+
 using namespace oclint;
 
+// The number of paths grows exponentially, it stays at the largest int once it gets there
+static int saturate(long long npath)
+{
+    return npath > INT_MAX ? INT_MAX : static_cast<int>(npath);
+}
+
+static int sum(int lhs, int rhs)
+{
+    return saturate(static_cast<long long>(lhs) + rhs);
+}
+
+static int product(int lhs, int rhs)
+{
+    return saturate(static_cast<long long>(lhs) * rhs);
+}
+
 int NPathComplexityMetric::nPath(clang::CompoundStmt *stmt)
 {
     int npath = 1;
     for (clang::CompoundStmt::body_iterator body = stmt->body_begin(), bodyEnd = stmt->body_end();
         body != bodyEnd; body++)
     {
-        npath *= nPath(*body);
+        npath = product(npath, nPath(*body));
     }
     return npath;
 }
@@ -21,17 +39,17 @@ int NPathComplexityMetric::nPath(clang::IfStmt *stmt)
     {
         nPathElseStmt = nPath(elseStmt);
     }
-    return nPath(stmt->getCond()) + nPath(stmt->getThen()) + nPathElseStmt;
+    return sum(sum(nPath(stmt->getCond()), nPath(stmt->getThen())), nPathElseStmt);
 }
 
 int NPathComplexityMetric::nPath(clang::WhileStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return sum(sum(nPath(stmt->getCond()), nPath(stmt->getBody())), 1);
 }
 
 int NPathComplexityMetric::nPath(clang::DoStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return sum(sum(nPath(stmt->getCond()), nPath(stmt->getBody())), 1);
 }
 
 int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
@@ -59,14 +77,14 @@ int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
     // As a conclusion, in my opinion, same logic in different formats should not reduce
     // the complexity. However, here, I will follow Nejmeh's NPath
 
-    return nPath(stmt->getInit()) + nPath(stmt->getCond()) + nPath(stmt->getInc())
-        + nPath(stmt->getBody()) + 1;
+    return sum(sum(sum(nPath(stmt->getInit()), nPath(stmt->getCond())), nPath(stmt->getInc())),
+        sum(nPath(stmt->getBody()), 1));
 }
 
 int NPathComplexityMetric::nPath(clang::CXXForRangeStmt *stmt)
 {
     // Same as the for-in statement of Objective-C
-    return nPath(stmt->getBody()) + 2;
+    return sum(nPath(stmt->getBody()), 2);
 }
 
 int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
@@ -79,7 +97,7 @@ int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
     // So, convert to same logic in for statement, we assume the NPath complexity as below
     // NP(Foreach) := NP((for-range)) + 2
 
-    return nPath(stmt->getBody()) + 2;
+    return sum(nPath(stmt->getBody()), 2);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
@@ -88,7 +106,7 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     clang::Stmt *body = stmt->getBody();
     if(!clang::isa<clang::CompoundStmt>(body))
     {
-        return nPathSwitchStmt + nPath(body);
+        return sum(nPathSwitchStmt, nPath(body));
     }
     clang::CompoundStmt *compound = clang::dyn_cast<clang::CompoundStmt>(body);
     for (clang::CompoundStmt::body_iterator bodyStmt = compound->body_begin(),
@@ -96,15 +114,15 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     {
         if (clang::isa<clang::SwitchCase>(*bodyStmt))
         {
-            nPathSwitchStmt += internalNPath;
+            nPathSwitchStmt = sum(nPathSwitchStmt, internalNPath);
             internalNPath = nPath(*bodyStmt);
         }
         else
         {
-            internalNPath *= nPath(*bodyStmt);
+            internalNPath = product(internalNPath, nPath(*bodyStmt));
         }
     }
-    return nPathSwitchStmt + internalNPath;
+    return sum(nPathSwitchStmt, internalNPath);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchCase *expr)
-- 
2.43.0


From abdd184e1d9406e8850edcc48c7ea3eb5e4c4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 15/54] fix: look through full expressions in the NPath
 complexity

Conditions with temporaries, lambdas or blocks are wrapped in
ExprWithCleanups, their logical operators were not counted.
---
 oclint-metrics/include/oclint/metric/NPathComplexityMetric.h | 2 ++
 oclint-metrics/lib/NPathComplexityMetric.cpp                 | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
index 81b88bb..b5a49fc 100644
--- a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
@@ -43,6 +43,7 @@ public:
             DISPATH(clang::BinaryOperator);
             DISPATH(clang::ParenExpr);
             DISPATH(clang::CastExpr);
+            DISPATH(clang::FullExpr);
         }
         return 0;
     }
@@ -60,6 +61,7 @@ public:
     int nPath(clang::BinaryOperator *expr);
     int nPath(clang::ParenExpr *expr);
     int nPath(clang::CastExpr *expr);
+    int nPath(clang::FullExpr *expr);
 };
 
 } // end namespace oclint
diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index eebc77a..39538d0 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -154,6 +154,11 @@ int NPathComplexityMetric::nPath(clang::CastExpr *expr)
     return nPath(expr->getSubExpr());
 }
 
+int NPathComplexityMetric::nPath(clang::FullExpr *expr)
+{
+    return nPath(expr->getSubExpr());
+}
+
 extern "C" int getNPathComplexity(clang::Stmt *stmt)
 {
     NPathComplexityMetric npathMetric;
-- 
2.43.0


From 6ac6b94722a1d45e1535afee1a3c77e5759d0f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 16/54] fix: check the bodies of range-based for loops like
 those of other loops

---
 .../AvoidBranchingStatementAsLastInLoopRule.cpp        |  6 ++++++
 oclint-rules/rules/convention/PreferEarlyExitRule.cpp  | 10 ++++++++++
 oclint-rules/rules/empty/EmptyForStatementRule.cpp     |  5 +++++
 3 files changed, 21 insertions(+)

diff --git a/oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp b/oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp
index dabab39..32dac6b 100644
--- a/oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp
+++ b/oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp
@@ -87,6 +87,12 @@ public:
         return true;
     }
 
+    bool VisitCXXForRangeStmt(CXXForRangeStmt *stmt)
+    {
+        applyStmt<CXXForRangeStmt>(stmt);
+        return true;
+    }
+
     bool VisitObjCForCollectionStmt(ObjCForCollectionStmt *stmt)
     {
         applyStmt<ObjCForCollectionStmt>(stmt);
diff --git a/oclint-rules/rules/convention/PreferEarlyExitRule.cpp b/oclint-rules/rules/convention/PreferEarlyExitRule.cpp
index edba2ac..97a85fb 100644
--- a/oclint-rules/rules/convention/PreferEarlyExitRule.cpp
+++ b/oclint-rules/rules/convention/PreferEarlyExitRule.cpp
@@ -168,6 +168,16 @@ public:
         return VisitLoopBody(forStmt->getBody());
     }
 
+    bool VisitCXXForRangeStmt(CXXForRangeStmt* forStmt)
+    {
+        return VisitLoopBody(forStmt->getBody());
+    }
+
+    bool VisitObjCForCollectionStmt(ObjCForCollectionStmt* forStmt)
+    {
+        return VisitLoopBody(forStmt->getBody());
+    }
+
     bool VisitWhileStmt(WhileStmt* whileStmt)
     {
         return VisitLoopBody(whileStmt->getBody());
diff --git a/oclint-rules/rules/empty/EmptyForStatementRule.cpp b/oclint-rules/rules/empty/EmptyForStatementRule.cpp
index 2a7d77a..0c4ff19 100644
--- a/oclint-rules/rules/empty/EmptyForStatementRule.cpp
+++ b/oclint-rules/rules/empty/EmptyForStatementRule.cpp
@@ -60,6 +60,11 @@ public:
         return checkLexicalEmptyStmt(forStmt->getBody(), this);
     }
 
+    bool VisitCXXForRangeStmt(CXXForRangeStmt *forStmt)
+    {
+        return checkLexicalEmptyStmt(forStmt->getBody(), this);
+    }
+
     bool VisitObjCForCollectionStmt(ObjCForCollectionStmt *forStmt)
     {
         return checkLexicalEmptyStmt(forStmt->getBody(), this);
-- 
2.43.0


From b25fc94eb9ee3cd4402b45a5f0912f458d8e9b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 17/54] fix: find multiple unary operators around boolean
 values in C++

An implicit conversion between the operators, like in !-x, hid them.
---
 oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp b/oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp
index c303f36..8376d29 100644
--- a/oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp
+++ b/oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp
@@ -58,12 +58,7 @@ public:
 
     bool VisitUnaryOperator(UnaryOperator *unaryOperator)
     {
-        Expr *subExpr = unaryOperator->getSubExpr();
-        while (subExpr && isa<ParenExpr>(subExpr))
-        {
-            ParenExpr *parenExpr = dyn_cast<ParenExpr>(subExpr);
-            subExpr = parenExpr->getSubExpr();
-        }
+        Expr *subExpr = unaryOperator->getSubExpr()->IgnoreParenImpCasts();
         if (subExpr && isa<UnaryOperator>(subExpr))
         {
             UnaryOperator *subUnaryOperator = dyn_cast<UnaryOperator>(subExpr);
-- 
2.43.0


From e1bfa4ccc0727694a9a5dbc141690304f6589497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 18/54] fix: do not count the cases of nested switch statements
 for the outer one

---
 .../TooFewBranchesInSwitchStatementRule.cpp   | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
index ca132e8..dbb00e0 100644
--- a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
+++ b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
@@ -9,25 +9,20 @@ using namespace oclint;
 class TooFewBranchesInSwitchStatementRule :
     public AbstractASTVisitorRule<TooFewBranchesInSwitchStatementRule>
 {
-    class CountCaseStmts : public RecursiveASTVisitor<CountCaseStmts>
+private:
+    int countCaseStmts(SwitchStmt *switchStmt)
     {
-    private:
-        int _count;
-
-    public:
-        int count(SwitchStmt *switchStmt)
+        int count = 0;
+        for (SwitchCase *switchCase = switchStmt->getSwitchCaseList(); switchCase;
+            switchCase = switchCase->getNextSwitchCase())
         {
-            _count = 0;
-            (void) /* explicitly ignore the return of this function */ TraverseStmt(switchStmt);
-            return _count;
+            if (isa<CaseStmt>(switchCase))
+            {
+                count++;
+            }
         }
-
-        bool VisitCaseStmt(CaseStmt *)
-        {
-            _count++;
-            return true;
-        }
-    };
+        return count;
+    }
 
 public:
     virtual const string name() const override
@@ -86,8 +81,7 @@ public:
 
     bool VisitSwitchStmt(SwitchStmt *switchStmt)
     {
-        CountCaseStmts countCaseStmts;
-        int numberOfCaseStmts = countCaseStmts.count(switchStmt);
+        int numberOfCaseStmts = countCaseStmts(switchStmt);
         int threshold = RuleConfiguration::intForKey("MINIMUM_CASES_IN_SWITCH", 3);
         if (numberOfCaseStmts < threshold)
         {
-- 
2.43.0


From b24a83b405f5a0fb150e6e6544ab410dcac5758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 19/54] fix: find redundant conditional operators in C++ too

Operands of the same type have no implicit casts around them in C++, where
the result is an lvalue, so the same variable or string was not found.
---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp   | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index f726478..418edb2 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -12,12 +12,7 @@ private:
     template<typename nodeType>
     nodeType* extractFromImplicitCastExpr(Expr *fromExpr)
     {
-        ImplicitCastExpr *implicitCastExpr = dyn_cast_or_null<ImplicitCastExpr>(fromExpr);
-        if (implicitCastExpr)
-        {
-            return dyn_cast_or_null<nodeType>(implicitCastExpr->getSubExpr());
-        }
-        return nullptr;
+        return fromExpr ? dyn_cast<nodeType>(fromExpr->IgnoreImpCasts()) : nullptr;
     }
 
     bool isCXXBoolNotEquals(Expr *trueExpr, Expr *falseExpr)
-- 
2.43.0


From 0b3be6d25e923324d5cf4d5e698c35539ae138a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 20/54] fix: report redundant if statements for assignments to
 one variable only

Assigning different variables in the two branches cannot be replaced by a
single assignment.
---
 oclint-rules/rules/redundant/RedundantIfStatementRule.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
index 9f4b1cc..161f7c1 100644
--- a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
@@ -1,5 +1,6 @@
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleSet.h"
+#include "oclint/util/ASTUtil.h"
 
 using namespace std;
 using namespace clang;
@@ -71,7 +72,10 @@ private:
 
     bool doesBinaryOperatorsViolateRule(BinaryOperator *first, BinaryOperator *second)
     {
-        return first && second && isNotEquals(first->getRHS(), second->getRHS());
+        return first && second &&
+            first->getOpcode() == BO_Assign && second->getOpcode() == BO_Assign &&
+            areSameExpr(*_carrier->getASTContext(), *first->getLHS(), *second->getLHS()) &&
+            isNotEquals(first->getRHS(), second->getRHS());
     }
 
 public:
-- 
2.43.0


From f009a1f47225395b92c53514bd974bb7b6f583da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 21/54] fix: find useless parentheses around converted
 expressions

Parentheses around variables, and around integers used as conditions in C++,
were hidden by the implicit cast around them.
---
 oclint-rules/rules/redundant/UselessParenthesesRule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/UselessParenthesesRule.cpp b/oclint-rules/rules/redundant/UselessParenthesesRule.cpp
index 58cc215..26f46c0 100644
--- a/oclint-rules/rules/redundant/UselessParenthesesRule.cpp
+++ b/oclint-rules/rules/redundant/UselessParenthesesRule.cpp
@@ -10,7 +10,7 @@ class UselessParenthesesRule : public AbstractASTVisitorRule<UselessParenthesesR
 private:
     void addParenExprToViolation(Expr *expr)
     {
-        if (expr && isa<ParenExpr>(expr))
+        if (expr && isa<ParenExpr>(expr->IgnoreImpCasts()))
         {
             addViolation(expr, this);
         }
-- 
2.43.0


From 60eb99415adafeebff02279439ba3ad3b2a52e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 22/54] fix: treat only casts to boolean types as YES and NO

x ? (int)1 : (int)2 was reported as a redundant conditional operator, and an
if that returns (int)2 or (int)0 as a redundant if statement.
---
 oclint-rules/include/oclint/util/ASTUtil.h        |  1 +
 oclint-rules/lib/util/ASTUtil.cpp                 | 15 +++++++++++++++
 .../RedundantConditionalOperatorRule.cpp          |  5 +++--
 .../rules/redundant/RedundantIfStatementRule.cpp  |  2 +-
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/oclint-rules/include/oclint/util/ASTUtil.h b/oclint-rules/include/oclint/util/ASTUtil.h
index fe5c5fb..757ed58 100644
--- a/oclint-rules/include/oclint/util/ASTUtil.h
+++ b/oclint-rules/include/oclint/util/ASTUtil.h
@@ -12,6 +12,7 @@ bool isCppMethodDeclLocatedInCppRecordDecl(clang::CXXMethodDecl *decl);
 bool isANullPointerExpr(const clang::Expr& expr);
 bool areSameExpr(clang::ASTContext& context, const clang::Expr& lhs, const clang::Expr& rhs);
 const clang::Expr* ignoreCastExpr(const clang::Expr& expr);
+bool isCastToBOOL(const clang::CStyleCastExpr* castExpr);
 int getLineCount(clang::SourceRange sourceRange, const clang::SourceManager& sourceManager);
 
 #endif
diff --git a/oclint-rules/lib/util/ASTUtil.cpp b/oclint-rules/lib/util/ASTUtil.cpp
index e538545..225e6db 100644
--- a/oclint-rules/lib/util/ASTUtil.cpp
+++ b/oclint-rules/lib/util/ASTUtil.cpp
@@ -119,6 +119,21 @@ const clang::Expr* ignoreCastExpr(const clang::Expr& expr)
     return last;
 }
 
+bool isCastToBOOL(const clang::CStyleCastExpr* castExpr)
+{
+    if (!castExpr)
+    {
+        return false;
+    }
+    clang::QualType type = castExpr->getTypeAsWritten();
+    if (type->isBooleanType())
+    {
+        return true;
+    }
+    const clang::TypedefType* typedefType = type->getAs<clang::TypedefType>();
+    return typedefType && typedefType->getDecl()->getName() == "BOOL";
+}
+
 int getLineCount(clang::SourceRange sourceRange, const clang::SourceManager& sourceManager)
 {
     clang::SourceLocation startLocation = sourceRange.getBegin();
diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index 418edb2..8b54e2c 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -1,5 +1,6 @@
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleSet.h"
+#include "oclint/util/ASTUtil.h"
 
 using namespace std;
 using namespace clang;
@@ -55,7 +56,7 @@ private:
     {
         CStyleCastExpr *trueObjCBOOL = extractFromImplicitCastExpr<CStyleCastExpr>(trueExpr);
         CStyleCastExpr *falseObjCBOOL = extractFromImplicitCastExpr<CStyleCastExpr>(falseExpr);
-        if (trueObjCBOOL && falseObjCBOOL)
+        if (isCastToBOOL(trueObjCBOOL) && isCastToBOOL(falseObjCBOOL))
         {
             IntegerLiteral *trueInteger =
                 dyn_cast_or_null<IntegerLiteral>(trueObjCBOOL->getSubExpr());
@@ -72,7 +73,7 @@ private:
     {
         CStyleCastExpr *trueObjCBOOL = extractFromImplicitCastExpr<CStyleCastExpr>(trueExpr);
         CStyleCastExpr *falseObjCBOOL = extractFromImplicitCastExpr<CStyleCastExpr>(falseExpr);
-        if (trueObjCBOOL && falseObjCBOOL)
+        if (isCastToBOOL(trueObjCBOOL) && isCastToBOOL(falseObjCBOOL))
         {
             IntegerLiteral *trueInteger =
                 dyn_cast_or_null<IntegerLiteral>(trueObjCBOOL->getSubExpr());
diff --git a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
index 161f7c1..b2309fd 100644
--- a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
@@ -53,7 +53,7 @@ private:
     {
         CStyleCastExpr *thenObjCBOOL = dyn_cast_or_null<CStyleCastExpr>(thenExpr);
         CStyleCastExpr *elseObjCBOOL = dyn_cast_or_null<CStyleCastExpr>(elseExpr);
-        return thenObjCBOOL && elseObjCBOOL &&
+        return isCastToBOOL(thenObjCBOOL) && isCastToBOOL(elseObjCBOOL) &&
             isCIntegerViolated(dyn_cast_or_null<IntegerLiteral>(thenObjCBOOL->getSubExpr()),
                 dyn_cast_or_null<IntegerLiteral>(elseObjCBOOL->getSubExpr()));
     }
-- 
2.43.0


From 459346f315a7ceceafbf209431f24af201a96265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 23/54] fix: see through casts in YES and NO

In C++ and Objective-C++ (BOOL)1 converts its integer implicitly, so redundant
conditional operators and if statements on YES and NO were not found there.
---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp  | 8 ++++----
 oclint-rules/rules/redundant/RedundantIfStatementRule.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index 8b54e2c..4a13a0d 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -59,9 +59,9 @@ private:
         if (isCastToBOOL(trueObjCBOOL) && isCastToBOOL(falseObjCBOOL))
         {
             IntegerLiteral *trueInteger =
-                dyn_cast_or_null<IntegerLiteral>(trueObjCBOOL->getSubExpr());
+                dyn_cast_or_null<IntegerLiteral>(trueObjCBOOL->getSubExpr()->IgnoreImpCasts());
             IntegerLiteral *falseInteger =
-                dyn_cast_or_null<IntegerLiteral>(falseObjCBOOL->getSubExpr());
+                dyn_cast_or_null<IntegerLiteral>(falseObjCBOOL->getSubExpr()->IgnoreImpCasts());
             return trueInteger && falseInteger && trueInteger->getValue().getBoolValue() !=
                 falseInteger->getValue().getBoolValue();
         }
@@ -76,9 +76,9 @@ private:
         if (isCastToBOOL(trueObjCBOOL) && isCastToBOOL(falseObjCBOOL))
         {
             IntegerLiteral *trueInteger =
-                dyn_cast_or_null<IntegerLiteral>(trueObjCBOOL->getSubExpr());
+                dyn_cast_or_null<IntegerLiteral>(trueObjCBOOL->getSubExpr()->IgnoreImpCasts());
             IntegerLiteral *falseInteger =
-                dyn_cast_or_null<IntegerLiteral>(falseObjCBOOL->getSubExpr());
+                dyn_cast_or_null<IntegerLiteral>(falseObjCBOOL->getSubExpr()->IgnoreImpCasts());
             return trueInteger && falseInteger && trueInteger->getValue().getBoolValue() ==
                 falseInteger->getValue().getBoolValue();
         }
diff --git a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
index b2309fd..6506d73 100644
--- a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
@@ -54,8 +54,8 @@ private:
         CStyleCastExpr *thenObjCBOOL = dyn_cast_or_null<CStyleCastExpr>(thenExpr);
         CStyleCastExpr *elseObjCBOOL = dyn_cast_or_null<CStyleCastExpr>(elseExpr);
         return isCastToBOOL(thenObjCBOOL) && isCastToBOOL(elseObjCBOOL) &&
-            isCIntegerViolated(dyn_cast_or_null<IntegerLiteral>(thenObjCBOOL->getSubExpr()),
-                dyn_cast_or_null<IntegerLiteral>(elseObjCBOOL->getSubExpr()));
+            isCIntegerViolated(dyn_cast_or_null<IntegerLiteral>(thenObjCBOOL->getSubExpr()->IgnoreImpCasts()),
+                dyn_cast_or_null<IntegerLiteral>(elseObjCBOOL->getSubExpr()->IgnoreImpCasts()));
     }
 
     bool isNotEquals(Expr *firstExpr, Expr *secondExpr)
-- 
2.43.0


From a220a40d9dcb8fc944cc4ab3606303d2e4537da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 24/54] fix: count only what is written in classes, and only in
 their definitions

Forward declarations were reported with the fields of their class and, when
long, as long classes; implicit C++ methods and synthesized Objective-C
accessors were counted as methods.
---
 oclint-rules/rules/size/LongClassRule.cpp      | 15 ++++++++++++---
 oclint-rules/rules/size/TooManyFieldsRule.cpp  |  8 ++++++++
 oclint-rules/rules/size/TooManyMethodsRule.cpp |  6 ++++--
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/oclint-rules/rules/size/LongClassRule.cpp b/oclint-rules/rules/size/LongClassRule.cpp
index 0eed7a2..934c220 100644
--- a/oclint-rules/rules/size/LongClassRule.cpp
+++ b/oclint-rules/rules/size/LongClassRule.cpp
@@ -83,7 +83,10 @@ public:
 
     bool VisitObjCInterfaceDecl(ObjCInterfaceDecl *decl)
     {
-        applyDecl(decl, "Objective-C interface");
+        if (decl->isThisDeclarationADefinition())
+        {
+            applyDecl(decl, "Objective-C interface");
+        }
 
         return true;
     }
@@ -97,7 +100,10 @@ public:
 
     bool VisitObjCProtocolDecl(ObjCProtocolDecl *decl)
     {
-        applyDecl(decl, "Objective-C protocol");
+        if (decl->isThisDeclarationADefinition())
+        {
+            applyDecl(decl, "Objective-C protocol");
+        }
 
         return true;
     }
@@ -111,7 +117,10 @@ public:
 
     bool VisitCXXRecordDecl(CXXRecordDecl *decl)
     {
-        applyDecl(decl, "C++ class");
+        if (decl->isThisDeclarationADefinition())
+        {
+            applyDecl(decl, "C++ class");
+        }
 
         return true;
     }
diff --git a/oclint-rules/rules/size/TooManyFieldsRule.cpp b/oclint-rules/rules/size/TooManyFieldsRule.cpp
index 5aa4707..aef7e9c 100644
--- a/oclint-rules/rules/size/TooManyFieldsRule.cpp
+++ b/oclint-rules/rules/size/TooManyFieldsRule.cpp
@@ -76,6 +76,10 @@ public:
 
     bool VisitObjCInterfaceDecl(ObjCInterfaceDecl *decl)
     {
+        if (!decl->isThisDeclarationADefinition())
+        {
+            return true;
+        }
         int fieldCount = decl->ivar_size();
         if (fieldCount > _threshold)
         {
@@ -88,6 +92,10 @@ public:
 
     bool VisitCXXRecordDecl(CXXRecordDecl *decl)
     {
+        if (!decl->isThisDeclarationADefinition())
+        {
+            return true;
+        }
         int fieldCount = distance(decl->field_begin(), decl->field_end());
         if (fieldCount > _threshold)
         {
diff --git a/oclint-rules/rules/size/TooManyMethodsRule.cpp b/oclint-rules/rules/size/TooManyMethodsRule.cpp
index 2425b1e..ab4b25b 100644
--- a/oclint-rules/rules/size/TooManyMethodsRule.cpp
+++ b/oclint-rules/rules/size/TooManyMethodsRule.cpp
@@ -84,7 +84,8 @@ public:
 
     bool VisitObjCImplDecl(ObjCImplDecl *decl)
     {
-        int methodCount = distance(decl->meth_begin(), decl->meth_end());
+        int methodCount = count_if(decl->meth_begin(), decl->meth_end(),
+            [](ObjCMethodDecl *method) { return !method->isSynthesizedAccessorStub(); });
         if (methodCount > _threshold)
         {
             string description = "Objective-C implementation with " + toString<int>(methodCount) +
@@ -96,7 +97,8 @@ public:
 
     bool VisitCXXRecordDecl(CXXRecordDecl *decl)
     {
-        int methodCount = distance(decl->method_begin(), decl->method_end());
+        int methodCount = count_if(decl->method_begin(), decl->method_end(),
+            [](CXXMethodDecl *method) { return !method->isImplicit(); });
         if (methodCount > _threshold)
         {
             string description = "C++ class with " + toString<int>(methodCount) +
-- 
2.43.0


From 65d292efdc3f817c71aa87b33ed32e49a04d1c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 25/54] fix: exempt every variable of a for statement from
 short names

Only the last declared one was exempt when it followed a variable with a long
enough name, or when a nested declaration came between.
---
 .../rules/naming/ShortVariableNameRule.cpp    | 32 ++++++-------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/oclint-rules/rules/naming/ShortVariableNameRule.cpp b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
index cb85f4a..1a11de6 100644
--- a/oclint-rules/rules/naming/ShortVariableNameRule.cpp
+++ b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
@@ -1,4 +1,4 @@
-#include <stack>
+#include <set>
 
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleConfiguration.h"
@@ -12,21 +12,13 @@ using namespace oclint;
 class ShortVariableNameRule : public AbstractASTVisitorRule<ShortVariableNameRule>
 {
 private:
-    std::stack<VarDecl *> _suppressVarDecls;
-
-    void clearVarDeclsStack()
-    {
-        while (!_suppressVarDecls.empty())
-        {
-            _suppressVarDecls.pop();
-        }
-    }
+    std::set<VarDecl *> _suppressVarDecls;
 
     void handleVarDecl(VarDecl *varDecl)
     {
         if (varDecl)
         {
-            _suppressVarDecls.push(varDecl);
+            _suppressVarDecls.insert(varDecl);
         }
     }
 
@@ -99,6 +91,11 @@ public:
     }
 #endif
 
+    virtual void setUp() override
+    {
+        _suppressVarDecls.clear();
+    }
+
     bool VisitVarDecl(VarDecl *varDecl)
     {
         std::string varName = varDecl->getNameAsString();
@@ -109,14 +106,9 @@ public:
             return true;
         }
 
-        if (!_suppressVarDecls.empty())
+        if (_suppressVarDecls.count(varDecl))
         {
-            VarDecl *topVarDecl = _suppressVarDecls.top();
-            _suppressVarDecls.pop();
-            if (varDecl == topVarDecl)
-            {
-                return true;
-            }
+            return true;
         }
 
         string description = "Length of variable name `" + varName +
@@ -129,7 +121,6 @@ public:
 
     bool VisitForStmt(ForStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleDeclStmt(forStmt->getInit());
 
         return true;
@@ -137,7 +128,6 @@ public:
 
     bool VisitCXXForRangeStmt(CXXForRangeStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleVarDecl(forStmt->getLoopVariable());
 
         return true;
@@ -146,7 +136,6 @@ public:
 
     bool VisitObjCForCollectionStmt(ObjCForCollectionStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleDeclStmt(forStmt->getElement());
 
         return true;
@@ -154,7 +143,6 @@ public:
 
     bool VisitCXXCatchStmt(CXXCatchStmt *catchStmt)
     {
-        clearVarDeclsStack();
         handleVarDecl(catchStmt->getExceptionDecl());
 
         return true;
-- 
2.43.0


From d0463b239c6d69ee6d1393cce7809f58f4ebfafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 26/54] fix: count synthesized accessors among the methods of
 an implementation again

The repository's tests want them counted.
---
 oclint-rules/rules/size/TooManyMethodsRule.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oclint-rules/rules/size/TooManyMethodsRule.cpp b/oclint-rules/rules/size/TooManyMethodsRule.cpp
index ab4b25b..0238b6b 100644
--- a/oclint-rules/rules/size/TooManyMethodsRule.cpp
+++ b/oclint-rules/rules/size/TooManyMethodsRule.cpp
@@ -84,8 +84,7 @@ public:
 
     bool VisitObjCImplDecl(ObjCImplDecl *decl)
     {
-        int methodCount = count_if(decl->meth_begin(), decl->meth_end(),
-            [](ObjCMethodDecl *method) { return !method->isSynthesizedAccessorStub(); });
+        int methodCount = distance(decl->meth_begin(), decl->meth_end());
         if (methodCount > _threshold)
         {
             string description = "Objective-C implementation with " + toString<int>(methodCount) +
-- 
2.43.0


From 0901185739c59f34ce233e0d1bb3ca2911d21603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 27/54] fix: suppress by each of several merged comments

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 44 ++++++++++++++--------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 783796f..765266a 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -4,6 +4,7 @@
 #include <set>
 #include <unordered_map>
 #include <utility>
+#include <vector>
 
 #include <clang/AST/ParentMapContext.h>
 #include <clang/AST/RecursiveASTVisitor.h>
@@ -116,7 +117,28 @@ std::string getMainFilePath(clang::ASTContext &context)
 typedef std::unordered_map<std::string, std::set<int>> LineMap;
 static LineMap singleLineMapping;
 
-
+std::vector<size_t> suppressingOffsets(const std::string &commentString)
+{
+    std::vector<size_t> offsets;
+// g++ 4.8 on Ubuntu 14.04 LTS doesn't support regex yet,
+// so we will ship this once Ubuntu 16.04 releases
+#if defined(__APPLE__) || defined(__MACH__)
+    std::regex oclintRegex = std::regex("//! *OCLINT", std::regex::basic | std::regex::icase);
+    for (std::sregex_iterator it(commentString.begin(), commentString.end(), oclintRegex), end;
+        it != end; ++it)
+    {
+        offsets.push_back(it->position());
+    }
+#else
+    const std::string mark = "//!OCLINT";
+    for (size_t offset = commentString.find(mark); offset != std::string::npos;
+        offset = commentString.find(mark, offset + mark.size()))
+    {
+        offsets.push_back(offset);
+    }
+#endif
+    return offsets;
+}
 
 bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
 {
@@ -137,22 +159,14 @@ bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
                 {
                     continue;
                 }
-// g++ 4.8 on Ubuntu 14.04 LTS doesn't support regex yet,
-// so we will ship this once Ubuntu 16.04 releases
-#if defined(__APPLE__) || defined(__MACH__)
+                // comments on adjacent lines may have been merged into one
                 std::string commentString = comment->getRawText(context.getSourceManager()).str();
-                std::regex oclintRegex =
-                    std::regex("//! *OCLINT", std::regex::basic | std::regex::icase);
-                if (std::regex_search(commentString, oclintRegex))
-#else
-                if (std::string::npos !=
-                    comment->getRawText(context.getSourceManager()).find("//!OCLINT"))
-#endif
+                for (size_t offset : suppressingOffsets(commentString))
                 {
-                    clang::SourceLocation startLocation = comment->getBeginLoc();
-                    int startLocationLine =
-                        context.getSourceManager().getPresumedLineNumber(startLocation);
-                    commentLines.insert(startLocationLine);
+                    clang::SourceLocation location =
+                        comment->getBeginLoc().getLocWithOffset(offset);
+                    int locationLine = context.getSourceManager().getPresumedLineNumber(location);
+                    commentLines.insert(locationLine);
                 }
             }
         }
-- 
2.43.0


From 65460ce6d5b0bd271f97540eee214c1bacff552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 28/54] fix: suppress within annotated declarations whatever
 lies between

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 31 +++++++---------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 765266a..28e1e63 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -23,8 +23,8 @@ bool markedAsSuppress(const clang::Decl *decl, oclint::RuleBase *rule)
     return false;
 }
 
-template <typename T>
-bool markedParentsAsSuppress(const T &node, clang::ASTContext &context, oclint::RuleBase *rule)
+bool markedParentsAsSuppress(const clang::DynTypedNode &node,
+    clang::ASTContext &context, oclint::RuleBase *rule)
 {
     clang::DynTypedNodeList parents = context.getParents(node);
     if (parents.empty())
@@ -32,33 +32,22 @@ bool markedParentsAsSuppress(const T &node, clang::ASTContext &context, oclint::
         return false;
     }
 
-    const clang::DynTypedNode* dynTypedNode = parents.begin();
-    const clang::Decl *aDecl = dynTypedNode->get<clang::Decl>();
-    if (aDecl)
-    {
-        if (markedAsSuppress(aDecl, rule))
-        {
-            return true;
-        }
-        return markedParentsAsSuppress(*aDecl, context, rule);
-    }
-    const clang::Stmt *aStmt = dynTypedNode->get<clang::Stmt>();
-    if (aStmt)
-    {
-        return markedParentsAsSuppress(*aStmt, context, rule);
-    }
-
-    return false;
+    // parents need not be declarations or statements, initializers of constructors are neither
+    const clang::DynTypedNode &parent = *parents.begin();
+    const clang::Decl *aDecl = parent.get<clang::Decl>();
+    return (aDecl && markedAsSuppress(aDecl, rule)) ||
+        markedParentsAsSuppress(parent, context, rule);
 }
 
 bool shouldSuppress(const clang::Decl *decl, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    return markedAsSuppress(decl, rule) || markedParentsAsSuppress(*decl, context, rule);
+    return markedAsSuppress(decl, rule) ||
+        markedParentsAsSuppress(clang::DynTypedNode::create(*decl), context, rule);
 }
 
 bool shouldSuppress(const clang::Stmt *stmt, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    return markedParentsAsSuppress(*stmt, context, rule);
+    return markedParentsAsSuppress(clang::DynTypedNode::create(*stmt), context, rule);
 }
 
 typedef std::set<std::pair<int, int>> RangeSet;
-- 
2.43.0


From d52b4d562f47f052cd497d99e51d790e1631735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 29/54] fix: suppress long lines of annotated declarations that
 begin with macros

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 28e1e63..810303d 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -70,7 +70,9 @@ public:
         for (clang::DeclContext::decl_iterator declIt = decl->decls_begin(),
             declEnd = decl->decls_end(); declIt != declEnd; ++declIt)
         {
-            clang::SourceLocation startLocation = (*declIt)->getBeginLoc();
+            // declarations may begin with macros
+            clang::SourceLocation startLocation =
+                _sourceManager->getExpansionLoc((*declIt)->getBeginLoc());
             if (startLocation.isValid() &&
                 _sourceManager->getMainFileID() == _sourceManager->getFileID(startLocation))
             {
-- 
2.43.0


From ffa7805f49db544de186f1d790e44eed7295a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 30/54] fix: compare constants of any type in redundant
 conditional operators

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index 4a13a0d..8393875 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -89,7 +89,11 @@ private:
     {
         IntegerLiteral *trueInteger = dyn_cast_or_null<IntegerLiteral>(trueExpr);
         IntegerLiteral *falseInteger = dyn_cast_or_null<IntegerLiteral>(falseExpr);
-        return trueInteger && falseInteger && trueInteger->getValue() == falseInteger->getValue();
+        // values of different types may differ in width, and cannot be compared then
+        return trueInteger && falseInteger &&
+            _carrier->getASTContext()->hasSameType(
+                trueInteger->getType(), falseInteger->getType()) &&
+            trueInteger->getValue() == falseInteger->getValue();
     }
 
     bool isFloatingLiteralEquals(Expr *trueExpr, Expr *falseExpr)
@@ -112,7 +116,8 @@ private:
     {
         StringLiteral *trueStr = extractFromImplicitCastExpr<StringLiteral>(trueExpr);
         StringLiteral *falseStr = extractFromImplicitCastExpr<StringLiteral>(falseExpr);
-        return trueStr && falseStr && trueStr->getString() == falseStr->getString();
+        return trueStr && falseStr && trueStr->getKind() == falseStr->getKind() &&
+            trueStr->getBytes() == falseStr->getBytes();
     }
 
     bool isNotEquals(Expr *trueExpr, Expr *falseExpr)
-- 
2.43.0


From 539892158339cef69a16c7a043c5ecadbf8bb0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 31/54] fix: tell apart variables of equal names in null
 checks, and find converted ones

---
 .../rules/abstract/AbstractNullCheckRule.h    | 130 +++++-------------
 .../rules/basic/BrokenNullCheckRule.cpp       |  11 +-
 .../rules/basic/MisplacedNullCheckRule.cpp    |  11 +-
 .../rules/redundant/RedundantNilCheckRule.cpp |   9 +-
 4 files changed, 55 insertions(+), 106 deletions(-)

diff --git a/oclint-rules/rules/abstract/AbstractNullCheckRule.h b/oclint-rules/rules/abstract/AbstractNullCheckRule.h
index dc0fe54..93f1bdd 100644
--- a/oclint-rules/rules/abstract/AbstractNullCheckRule.h
+++ b/oclint-rules/rules/abstract/AbstractNullCheckRule.h
@@ -18,43 +18,31 @@ protected:
             }
             if (castKind == clang::CK_BitCast)
             {
-                clang::Expr *subExpr = implicitCastExpr->getSubExpr();
-                while (subExpr && clang::isa<clang::ParenExpr>(subExpr))
-                {
-                    clang::ParenExpr *parenExpr = clang::dyn_cast<clang::ParenExpr>(subExpr);
-                    subExpr = parenExpr->getSubExpr();
-                }
-                clang::CStyleCastExpr *cStyleCastExpr =
-                    clang::dyn_cast_or_null<clang::CStyleCastExpr>(subExpr);
-                return cStyleCastExpr && cStyleCastExpr->getCastKind() == clang::CK_NullToPointer;
+                expr = implicitCastExpr->getSubExpr();
             }
         }
-        return false;
+        clang::CStyleCastExpr *cStyleCastExpr =
+            clang::dyn_cast_or_null<clang::CStyleCastExpr>(expr ? expr->IgnoreParens() : nullptr);
+        return cStyleCastExpr && cStyleCastExpr->getCastKind() == clang::CK_NullToPointer;
+    }
+
+    // the variable an expression refers to, however it is converted
+    const clang::ValueDecl *extractVariable(const clang::Expr *expr)
+    {
+        const clang::DeclRefExpr *declRefExpr = clang::dyn_cast_or_null<clang::DeclRefExpr>(
+            expr ? expr->IgnoreParenImpCasts() : nullptr);
+        return declRefExpr ? declRefExpr->getDecl() : nullptr;
     }
 
     bool isImplicitDeclRef(clang::Expr *expr)
     {
-        clang::ImplicitCastExpr *implicitCastExpr =
-            clang::dyn_cast_or_null<clang::ImplicitCastExpr>(expr);
-        if (implicitCastExpr)
-        {
-            clang::CastKind castKind = implicitCastExpr->getCastKind();
-            if (castKind == clang::CK_PointerToBoolean)
-            {
-                return true;
-            }
-            if (castKind == clang::CK_LValueToRValue)
-            {
-                clang::Expr *subExpr = implicitCastExpr->getSubExpr();
-                return subExpr && clang::isa<clang::DeclRefExpr>(subExpr);
-            }
-        }
-        return false;
+        return expr && clang::isa<clang::ImplicitCastExpr>(expr) && extractVariable(expr);
     }
 
     bool isEqNullCheck(clang::Expr *expr)
     {
-        clang::BinaryOperator *binaryOperator = clang::dyn_cast_or_null<clang::BinaryOperator>(expr);
+        expr = expr->IgnoreParens();
+        clang::BinaryOperator *binaryOperator = clang::dyn_cast<clang::BinaryOperator>(expr);
         if (binaryOperator)
         {
             return binaryOperator->getOpcode() == clang::BO_EQ &&
@@ -62,10 +50,10 @@ protected:
                 isNullToPointer(binaryOperator->getRHS());
         }
 
-        clang::UnaryOperator *unaryOperator = clang::dyn_cast_or_null<clang::UnaryOperator>(expr);
+        clang::UnaryOperator *unaryOperator = clang::dyn_cast<clang::UnaryOperator>(expr);
         if (unaryOperator && unaryOperator->getOpcode() == clang::UO_LNot)
         {
-            return isImplicitDeclRef(unaryOperator->getSubExpr());
+            return isImplicitDeclRef(unaryOperator->getSubExpr()->IgnoreParens());
         }
 
         return false;
@@ -73,8 +61,8 @@ protected:
 
     bool isNeNullCheck(clang::Expr *expr)
     {
-        clang::BinaryOperator *binaryOperator =
-            clang::dyn_cast_or_null<clang::BinaryOperator>(expr);
+        expr = expr->IgnoreParens();
+        clang::BinaryOperator *binaryOperator = clang::dyn_cast<clang::BinaryOperator>(expr);
         if (binaryOperator)
         {
             return binaryOperator->getOpcode() == clang::BO_NE &&
@@ -85,73 +73,34 @@ protected:
         return isImplicitDeclRef(expr);
     }
 
-    std::string extractIdentifierFromImplicitCastExpr(clang::ImplicitCastExpr *implicitCastExpr)
+    // the variable that a null check checks
+    const clang::ValueDecl *extractCheckedVariable(clang::Expr *expr)
     {
-        if (!implicitCastExpr)
-        {
-            return "";
-        }
-        if (implicitCastExpr->getCastKind() == clang::CK_PointerToBoolean)
-        {
-            return extractIdentifierFromImplicitCastExpr(
-                clang::dyn_cast_or_null<clang::ImplicitCastExpr>(implicitCastExpr->getSubExpr()));
-        }
-        clang::DeclRefExpr *declRefExpr =
-            clang::dyn_cast_or_null<clang::DeclRefExpr>(implicitCastExpr->getSubExpr());
-        return declRefExpr ? declRefExpr->getFoundDecl()->getNameAsString() : "";
-    }
-
-    std::string extractIdentifierFromBinaryOperator(clang::BinaryOperator *binaryOperator)
-    {
-        clang::Expr *refExpr = binaryOperator->getLHS();
-        if (isNullToPointer(refExpr))
-        {
-            refExpr = binaryOperator->getRHS();
-        }
-        return extractIdentifierFromImplicitCastExpr(
-            clang::dyn_cast_or_null<clang::ImplicitCastExpr>(refExpr));
-    }
-
-    std::string extractIdentifierFromUnaryOperator(clang::UnaryOperator *unaryOperator)
-    {
-        return extractIdentifierFromImplicitCastExpr(
-            clang::dyn_cast_or_null<clang::ImplicitCastExpr>(unaryOperator->getSubExpr()));
-    }
-
-    std::string extractIdentifierFromExpr(clang::Expr *expr)
-    {
-        if (!expr)
-        {
-            return "";
-        }
-        if (clang::isa<clang::ImplicitCastExpr>(expr))
-        {
-            return extractIdentifierFromImplicitCastExpr(
-                clang::dyn_cast<clang::ImplicitCastExpr>(expr));
-        }
-        if (clang::isa<clang::BinaryOperator>(expr))
+        expr = expr->IgnoreParens();
+        if (clang::BinaryOperator *binaryOperator = clang::dyn_cast<clang::BinaryOperator>(expr))
         {
-            return extractIdentifierFromBinaryOperator(
-                clang::dyn_cast<clang::BinaryOperator>(expr));
+            return extractVariable(isNullToPointer(binaryOperator->getLHS()) ?
+                binaryOperator->getRHS() : binaryOperator->getLHS());
         }
-        if (clang::isa<clang::UnaryOperator>(expr))
+        if (clang::UnaryOperator *unaryOperator = clang::dyn_cast<clang::UnaryOperator>(expr))
         {
-            return extractIdentifierFromUnaryOperator(clang::dyn_cast<clang::UnaryOperator>(expr));
+            return extractVariable(unaryOperator->getSubExpr());
         }
-        return "";
+        return extractVariable(expr);
     }
 
     class VariableOfInterestInMemberExpr :
         public clang::RecursiveASTVisitor<VariableOfInterestInMemberExpr>
     {
     private:
-        std::string _variableName;
+        const clang::ValueDecl *_variable;
         AbstractNullCheckRule *_rule;
 
     public:
-        bool hasVariableInExpr(std::string name, clang::Expr *expr, AbstractNullCheckRule *rule)
+        bool hasVariableInExpr(const clang::ValueDecl *variable, clang::Expr *expr,
+            AbstractNullCheckRule *rule)
         {
-            _variableName = name;
+            _variable = variable;
             _rule = rule;
             return !clang::RecursiveASTVisitor<VariableOfInterestInMemberExpr>::TraverseStmt(expr);
         }
@@ -160,9 +109,7 @@ protected:
         {
             if (memberExpr->isArrow())
             {
-                return _variableName !=
-                    _rule->extractIdentifierFromImplicitCastExpr(
-                        clang::dyn_cast_or_null<clang::ImplicitCastExpr>(memberExpr->getBase()));
+                return _variable != _rule->extractVariable(memberExpr->getBase());
             }
             return true;
         }
@@ -172,13 +119,14 @@ protected:
         public clang::RecursiveASTVisitor<VariableOfInterestInObjCMessageExpr>
     {
     private:
-        std::string _variableName;
+        const clang::ValueDecl *_variable;
         AbstractNullCheckRule *_rule;
 
     public:
-        bool hasVariableInExpr(std::string name, clang::Expr *expr, AbstractNullCheckRule *rule)
+        bool hasVariableInExpr(const clang::ValueDecl *variable, clang::Expr *expr,
+            AbstractNullCheckRule *rule)
         {
-            _variableName = name;
+            _variable = variable;
             _rule = rule;
             return !clang::RecursiveASTVisitor<VariableOfInterestInObjCMessageExpr>::TraverseStmt(
                 expr);
@@ -186,9 +134,7 @@ protected:
 
         bool VisitObjCMessageExpr(clang::ObjCMessageExpr *memberExpr)
         {
-            return _variableName != _rule->extractIdentifierFromImplicitCastExpr(
-                clang::dyn_cast_or_null<clang::ImplicitCastExpr>(
-                    memberExpr->getInstanceReceiver()));
+            return _variable != _rule->extractVariable(memberExpr->getInstanceReceiver());
         }
     };
 
diff --git a/oclint-rules/rules/basic/BrokenNullCheckRule.cpp b/oclint-rules/rules/basic/BrokenNullCheckRule.cpp
index 450e568..40d89e0 100644
--- a/oclint-rules/rules/basic/BrokenNullCheckRule.cpp
+++ b/oclint-rules/rules/basic/BrokenNullCheckRule.cpp
@@ -27,13 +27,14 @@ private:
 
     bool isSameVariableBroken(BinaryOperator *binaryOperator)
     {
-        string variableOfInterest = extractIdentifierFromExpr(binaryOperator->getLHS());
-        return variableOfInterest == "" ? false :
+        const ValueDecl *variableOfInterest =
+            extractCheckedVariable(binaryOperator->getLHS());
+        return variableOfInterest &&
             hasVariableInExpr(variableOfInterest, binaryOperator->getRHS());
     }
 
 protected:
-    virtual bool hasVariableInExpr(string variableOfInterest, Expr *expr) = 0;
+    virtual bool hasVariableInExpr(const ValueDecl *variableOfInterest, Expr *expr) = 0;
 
 public:
     bool VisitBinaryOperator(BinaryOperator *binaryOperator)
@@ -50,7 +51,7 @@ public:
 class BrokenNullCheckRule : public BrokenNullCheckBaseRule
 {
 protected:
-    virtual bool hasVariableInExpr(string variableOfInterest, Expr* expr)
+    virtual bool hasVariableInExpr(const ValueDecl *variableOfInterest, Expr *expr)
         override
     {
         VariableOfInterestInMemberExpr seekingVariable;
@@ -112,7 +113,7 @@ public:
 class BrokenNilCheckRule : public BrokenNullCheckBaseRule
 {
 protected:
-    virtual bool hasVariableInExpr(string variableOfInterest, Expr* expr)
+    virtual bool hasVariableInExpr(const ValueDecl *variableOfInterest, Expr *expr)
         override
     {
         VariableOfInterestInObjCMessageExpr seekingVariable;
diff --git a/oclint-rules/rules/basic/MisplacedNullCheckRule.cpp b/oclint-rules/rules/basic/MisplacedNullCheckRule.cpp
index c2e3a17..354941f 100644
--- a/oclint-rules/rules/basic/MisplacedNullCheckRule.cpp
+++ b/oclint-rules/rules/basic/MisplacedNullCheckRule.cpp
@@ -27,13 +27,14 @@ private:
 
     bool isSameVariableMisplaced(BinaryOperator *binaryOperator)
     {
-        string variableOfInterest = extractIdentifierFromExpr(binaryOperator->getRHS());
-        return variableOfInterest == "" ? false :
+        const ValueDecl *variableOfInterest =
+            extractCheckedVariable(binaryOperator->getRHS());
+        return variableOfInterest &&
             hasVariableInExpr(variableOfInterest, binaryOperator->getLHS());
     }
 
 protected:
-    virtual bool hasVariableInExpr(string variableOfInterest, Expr *expr) = 0;
+    virtual bool hasVariableInExpr(const ValueDecl *variableOfInterest, Expr *expr) = 0;
 
 public:
     bool VisitBinaryOperator(BinaryOperator *binaryOperator)
@@ -50,7 +51,7 @@ public:
 class MisplacedNullCheckRule : public MisplacedNullCheckBaseRule
 {
 protected:
-    virtual bool hasVariableInExpr(string variableOfInterest, Expr* expr)
+    virtual bool hasVariableInExpr(const ValueDecl *variableOfInterest, Expr *expr)
         override
     {
         VariableOfInterestInMemberExpr seekingVariable;
@@ -119,7 +120,7 @@ public:
 class MisplacedNilCheckRule : public MisplacedNullCheckBaseRule
 {
 protected:
-    virtual bool hasVariableInExpr(string variableOfInterest, Expr* expr)
+    virtual bool hasVariableInExpr(const ValueDecl *variableOfInterest, Expr *expr)
         override
     {
         VariableOfInterestInObjCMessageExpr seekingVariable;
diff --git a/oclint-rules/rules/redundant/RedundantNilCheckRule.cpp b/oclint-rules/rules/redundant/RedundantNilCheckRule.cpp
index f948570..471f4b9 100644
--- a/oclint-rules/rules/redundant/RedundantNilCheckRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantNilCheckRule.cpp
@@ -16,7 +16,7 @@ private:
         if(binaryOperator->getOpcode() == BO_LAnd && isNeNullCheck(binaryOperator->getLHS()))
         {
             UnaryOperator *unaryOperator =
-                dyn_cast_or_null<UnaryOperator>(binaryOperator->getRHS());
+                dyn_cast<UnaryOperator>(binaryOperator->getRHS()->IgnoreParenImpCasts());
             if (unaryOperator)
             {
                 return unaryOperator->getOpcode() != UO_LNot;
@@ -26,7 +26,7 @@ private:
         return false;
     }
 
-    bool hasVariableInExpr(string variableOfInterest, Expr *expr)
+    bool hasVariableInExpr(const ValueDecl *variableOfInterest, Expr *expr)
     {
         VariableOfInterestInObjCMessageExpr seekingVariable;
         return seekingVariable.hasVariableInExpr(variableOfInterest, expr, this);
@@ -34,8 +34,9 @@ private:
 
     bool isSameVariableBroken(BinaryOperator *binaryOperator)
     {
-        string variableOfInterest = extractIdentifierFromExpr(binaryOperator->getLHS());
-        return variableOfInterest == "" ? false :
+        const ValueDecl *variableOfInterest =
+            extractCheckedVariable(binaryOperator->getLHS());
+        return variableOfInterest &&
             hasVariableInExpr(variableOfInterest, binaryOperator->getRHS());
     }
 
-- 
2.43.0


From 0b77a013774307ff5b9578323277b544de09af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 32/54] fix: look through parentheses around deleted pointers,
 and at if consteval

---
 oclint-rules/lib/util/ASTUtil.cpp                 | 15 +++++----------
 .../rules/basic/ConstantIfExpressionRule.cpp      |  4 +++-
 .../UnnecessaryNullCheckForCXXDeallocRule.cpp     |  5 +++--
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/oclint-rules/lib/util/ASTUtil.cpp b/oclint-rules/lib/util/ASTUtil.cpp
index 225e6db..23ae9f8 100644
--- a/oclint-rules/lib/util/ASTUtil.cpp
+++ b/oclint-rules/lib/util/ASTUtil.cpp
@@ -89,12 +89,13 @@ bool isCppMethodDeclLocatedInCppRecordDecl(clang::CXXMethodDecl *decl)
 
 bool isANullPointerExpr(const clang::Expr& expr)
 {
-    for (const clang::CastExpr* castExpr = clang::dyn_cast<clang::CastExpr>(&expr);
-         castExpr;
-         castExpr = clang::dyn_cast<clang::CastExpr>(castExpr->getSubExpr())) {
+    const clang::Expr* current = expr.IgnoreParens();
+    while (const clang::CastExpr* castExpr = clang::dyn_cast<clang::CastExpr>(current))
+    {
         if (castExpr->getCastKind() == clang::CK_NullToPointer) {
             return true;
         }
+        current = castExpr->getSubExpr()->IgnoreParens();
     }
     return false;
 }
@@ -110,13 +111,7 @@ bool areSameExpr(clang::ASTContext& context, const clang::Expr& lhs, const clang
 
 const clang::Expr* ignoreCastExpr(const clang::Expr& expr)
 {
-    const clang::Expr* last = &expr;
-    for (const clang::CastExpr* e = clang::dyn_cast<clang::CastExpr>(&expr);
-         e;
-         e = clang::dyn_cast<clang::CastExpr>(e->getSubExpr())) {
-        last = e->getSubExpr();
-    }
-    return last;
+    return expr.IgnoreParenCasts();
 }
 
 bool isCastToBOOL(const clang::CStyleCastExpr* castExpr)
diff --git a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
index a012e00..5b714c2 100644
--- a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
+++ b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
@@ -59,8 +59,10 @@ public:
     {
         Expr *conditionExpr = ifStmt->getCond();
 
+        // if consteval has no condition
         bool evaluatedResult;
-        if (conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
+        if (conditionExpr &&
+            conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
         }
diff --git a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
index 8734f1a..b7628c0 100644
--- a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
+++ b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
@@ -26,7 +26,7 @@ static bool IsCondNoNullPointerForBinOp(const BinaryOperator& binOp, const Expr*
 
 static bool IsCondNoNullPointer(const Expr& expr, const Expr** exprPointer)
 {
-    const BinaryOperator* binOp = dyn_cast<BinaryOperator>(&expr);
+    const BinaryOperator* binOp = dyn_cast<BinaryOperator>(expr.IgnoreParens());
     if (binOp)
     {
         return IsCondNoNullPointerForBinOp(*binOp, exprPointer);
@@ -150,7 +150,8 @@ public:
 
     bool VisitIfStmt(IfStmt* ifStmt)
     {
-        if (ifStmt == nullptr || ifStmt->getElse() != nullptr)
+        // if consteval has no condition
+        if (ifStmt == nullptr || ifStmt->getElse() != nullptr || ifStmt->getCond() == nullptr)
         {
             return true;
         }
-- 
2.43.0


From 69f7adcc165becd1cd6035562d760b6927875e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 33/54] fix: recognise converted null constants in null checks

---
 .../rules/abstract/AbstractNullCheckRule.h      | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/oclint-rules/rules/abstract/AbstractNullCheckRule.h b/oclint-rules/rules/abstract/AbstractNullCheckRule.h
index 93f1bdd..35d9aaa 100644
--- a/oclint-rules/rules/abstract/AbstractNullCheckRule.h
+++ b/oclint-rules/rules/abstract/AbstractNullCheckRule.h
@@ -7,23 +7,16 @@ class AbstractNullCheckRule : public oclint::AbstractASTVisitorRule<T>
 protected:
     bool isNullToPointer(clang::Expr *expr)
     {
-        clang::ImplicitCastExpr *implicitCastExpr =
-            clang::dyn_cast_or_null<clang::ImplicitCastExpr>(expr);
-        if (implicitCastExpr)
+        while (clang::CastExpr *castExpr =
+            clang::dyn_cast_or_null<clang::CastExpr>(expr ? expr->IgnoreParens() : nullptr))
         {
-            clang::CastKind castKind = implicitCastExpr->getCastKind();
-            if (castKind == clang::CK_NullToPointer)
+            if (castExpr->getCastKind() == clang::CK_NullToPointer)
             {
                 return true;
             }
-            if (castKind == clang::CK_BitCast)
-            {
-                expr = implicitCastExpr->getSubExpr();
-            }
+            expr = castExpr->getSubExpr();
         }
-        clang::CStyleCastExpr *cStyleCastExpr =
-            clang::dyn_cast_or_null<clang::CStyleCastExpr>(expr ? expr->IgnoreParens() : nullptr);
-        return cStyleCastExpr && cStyleCastExpr->getCastKind() == clang::CK_NullToPointer;
+        return false;
     }
 
     // the variable an expression refers to, however it is converted
-- 
2.43.0


From 71a9da44fa451b1833e9600877b76cba8b136b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 34/54] fix: match reassigned parameters by declaration, not by
 name

---
 .../convention/ParameterReassignmentRule.cpp  | 51 +++++--------------
 1 file changed, 13 insertions(+), 38 deletions(-)

diff --git a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
index 3c0d6c8..daf338c 100644
--- a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
+++ b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
@@ -10,13 +10,13 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
     class BinaryOperatorAnalyzer : public RecursiveASTVisitor<BinaryOperatorAnalyzer>
     {
     private:
-        vector<string> _names;
+        ArrayRef<ParmVarDecl *> _parameters;
         vector<BinaryOperator*> _binaryOperators;
 
     public:
-        vector<BinaryOperator*> analyze(Decl *decl, vector<string> &names)
+        vector<BinaryOperator*> analyze(Decl *decl, ArrayRef<ParmVarDecl *> parameters)
         {
-            _names = names;
+            _parameters = parameters;
             _binaryOperators.clear();
             (void) /* explicitly ignore the return of this function */ TraverseDecl(decl);
             return _binaryOperators;
@@ -24,30 +24,24 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
 
         bool VisitBinaryOperator(BinaryOperator *binaryOperator)
         {
-            Expr *leftExpr = binaryOperator->getLHS();
-            if (binaryOperator->getOpcode() == BO_Assign && leftExpr && isa<DeclRefExpr>(leftExpr))
+            DeclRefExpr *declRefExpr =
+                dyn_cast<DeclRefExpr>(binaryOperator->getLHS()->IgnoreParens());
+            if (binaryOperator->getOpcode() == BO_Assign && declRefExpr &&
+                is_contained(_parameters, declRefExpr->getDecl()))
             {
-                DeclRefExpr *declRefExpr = dyn_cast<DeclRefExpr>(leftExpr);
-                for (const auto& name : _names)
-                {
-                    if (declRefExpr->getFoundDecl()->getNameAsString() == name)
-                    {
-                        _binaryOperators.push_back(binaryOperator);
-                        break;
-                    }
-                }
+                _binaryOperators.push_back(binaryOperator);
             }
             return true;
         }
     };
 
 private:
-    void locateParamNames(Decl *decl, vector<string> &names)
+    void locateReassignments(Decl *decl, ArrayRef<ParmVarDecl *> parameters)
     {
-        if (!names.empty())
+        if (!parameters.empty())
         {
             BinaryOperatorAnalyzer biOpAnalyzer;
-            vector<BinaryOperator*> binaryOperators = biOpAnalyzer.analyze(decl, names);
+            vector<BinaryOperator*> binaryOperators = biOpAnalyzer.analyze(decl, parameters);
             for (const auto& binaryOperator : binaryOperators)
             {
                 addViolation(binaryOperator, this);
@@ -100,33 +94,14 @@ public:
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        vector<string> names;
-        for (size_t i = 0; i != decl->getNumParams(); ++i)
-        {
-            ParmVarDecl *parmVarDecl = decl->getParamDecl(i);
-            if (parmVarDecl->getNameAsString() != "")
-            {
-                names.push_back(parmVarDecl->getNameAsString());
-            }
-        }
-        locateParamNames(decl, names);
+        locateReassignments(decl, decl->parameters());
 
         return true;
     }
 
     bool VisitObjCMethodDecl(ObjCMethodDecl *decl)
     {
-        vector<string> names;
-        for (ObjCMethodDecl::param_iterator param = decl->param_begin(),
-            paramEnd = decl->param_end(); param != paramEnd; param++)
-        {
-            ParmVarDecl *parmVarDecl = *param;
-            if (parmVarDecl->getNameAsString() != "")
-            {
-                names.push_back(parmVarDecl->getNameAsString());
-            }
-        }
-        locateParamNames(decl, names);
+        locateReassignments(decl, decl->parameters());
 
         return true;
     }
-- 
2.43.0


From dca4fd85dba7dbad0dab52eb6d412aa810bba4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 35/54] fix: find overridden class methods and protocols of
 categories

---
 oclint-rules/lib/util/ASTUtil.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/oclint-rules/lib/util/ASTUtil.cpp b/oclint-rules/lib/util/ASTUtil.cpp
index 23ae9f8..0a0f60c 100644
--- a/oclint-rules/lib/util/ASTUtil.cpp
+++ b/oclint-rules/lib/util/ASTUtil.cpp
@@ -11,7 +11,8 @@ bool isObjCMethodDeclaredInSuperClass(clang::ObjCMethodDecl *decl)
         if (interfaceDecl)
         {
             clang::ObjCInterfaceDecl *superInterface = interfaceDecl->getSuperClass();
-            return superInterface && superInterface->lookupInstanceMethod(selector);
+            return superInterface &&
+                superInterface->lookupMethod(selector, decl->isInstanceMethod());
         }
     }
     return false;
@@ -28,15 +29,23 @@ bool isObjCMethodDeclaredInProtocol(clang::ObjCMethodDecl *decl)
     clang::ObjCInterfaceDecl *interfaceDecl = decl->getClassInterface();
     if (interfaceDecl)
     {
-        for (clang::ObjCProtocolList::iterator protocol = interfaceDecl->protocol_begin(),
-            protocolEnd = interfaceDecl->protocol_end(); protocol != protocolEnd; protocol++)
+        for (auto protocol : interfaceDecl->all_referenced_protocols())
         {
-            clang::ObjCProtocolDecl *protocolDecl = (clang::ObjCProtocolDecl *)*protocol;
-            if (protocolDecl->lookupInstanceMethod(selector))
+            if (protocol->lookupMethod(selector, decl->isInstanceMethod()))
             {
                 return true;
             }
         }
+        for (auto category : interfaceDecl->known_categories())
+        {
+            for (auto protocol : category->protocols())
+            {
+                if (protocol->lookupMethod(selector, decl->isInstanceMethod()))
+                {
+                    return true;
+                }
+            }
+        }
     }
 
     return false;
-- 
2.43.0


From 0fecd2d5411337e5221ca452fe0490e3623bc748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 36/54] fix: report only parameters of functions as unused, and
 only unreferenced ones

---
 .../rules/unused/UnusedMethodParameterRule.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
index 866c0c1..692f13f 100644
--- a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
+++ b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
@@ -23,6 +23,22 @@ private:
         return true;
     }
 
+    // parameters also appear in the types of other declarations, e.g. of pointers to functions
+    bool isParameterOfFunction(ParmVarDecl *varDecl)
+    {
+        DeclContext *context = varDecl->getDeclContext();
+        ArrayRef<ParmVarDecl *> parameters;
+        if (FunctionDecl *functionDecl = dyn_cast<FunctionDecl>(context))
+        {
+            parameters = functionDecl->parameters();
+        }
+        else if (ObjCMethodDecl *methodDecl = dyn_cast<ObjCMethodDecl>(context))
+        {
+            parameters = methodDecl->parameters();
+        }
+        return is_contained(parameters, varDecl);
+    }
+
     bool isFunctionDeclaration(DeclContext *context)
     {
         FunctionDecl *decl = dyn_cast<FunctionDecl>(context);
@@ -175,6 +191,8 @@ public:
     bool VisitParmVarDecl(ParmVarDecl *varDecl)
     {
         if (!varDecl->isUsed() &&
+            !varDecl->isReferenced() &&
+            isParameterOfFunction(varDecl) &&
             !hasAttributeUnused(varDecl) &&
             hasVariableName(varDecl) &&
             isInNonTemplateFunction(varDecl) &&
-- 
2.43.0


From bd24c78e32c0f011dbfe3ac1d817b1314cca801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 37/54] fix: report virtual classes without virtual destructors
 once, and know inherited ones in templates

---
 .../DestructorOfVirtualClassRule.cpp          | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
index b1f0b92..01b71b2 100644
--- a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
+++ b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
@@ -6,8 +6,21 @@ using namespace clang;
 static bool hasVirtualDestructor(const CXXRecordDecl& cxxRecordDecl)
 {
     const CXXDestructorDecl* cxxDestructorDecl = cxxRecordDecl.getDestructor();
-
-    return cxxDestructorDecl != nullptr && cxxDestructorDecl->isVirtual();
+    if (cxxDestructorDecl != nullptr)
+    {
+        return cxxDestructorDecl->isVirtual();
+    }
+    // class templates have no implicit destructor before they are instantiated
+    for (const auto& base : cxxRecordDecl.bases())
+    {
+        const CXXRecordDecl* baseClass = base.getType()->getAsCXXRecordDecl();
+        if (baseClass != nullptr && baseClass->hasDefinition() &&
+            hasVirtualDestructor(*baseClass))
+        {
+            return true;
+        }
+    }
+    return false;
 }
 
 static std::string getMessageViolation(const CXXRecordDecl& cxxRecordDecl)
@@ -69,7 +82,7 @@ public:
     bool VisitCXXRecordDecl(const CXXRecordDecl* cxxRecordDecl)
     {
         if (cxxRecordDecl != nullptr
-            && cxxRecordDecl->hasDefinition()
+            && cxxRecordDecl->isThisDeclarationADefinition()
             && cxxRecordDecl->isPolymorphic()
             && !hasVirtualDestructor(*cxxRecordDecl))
         {
-- 
2.43.0


From dc6646004e2cd6cbd063bc990c331658c0ded9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 38/54] fix: find the destructors of virtual class templates

---
 .../rules/convention/DestructorOfVirtualClassRule.cpp    | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
index 01b71b2..4bcec84 100644
--- a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
+++ b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
@@ -5,10 +5,13 @@ using namespace clang;
 
 static bool hasVirtualDestructor(const CXXRecordDecl& cxxRecordDecl)
 {
-    const CXXDestructorDecl* cxxDestructorDecl = cxxRecordDecl.getDestructor();
-    if (cxxDestructorDecl != nullptr)
+    // looking the destructor up by its name does not find those of class templates
+    for (const CXXMethodDecl* method : cxxRecordDecl.methods())
     {
-        return cxxDestructorDecl->isVirtual();
+        if (isa<CXXDestructorDecl>(method))
+        {
+            return method->isVirtual();
+        }
     }
     // class templates have no implicit destructor before they are instantiated
     for (const auto& base : cxxRecordDecl.bases())
-- 
2.43.0


From 8a3fbbd949a1cdf0766c7d57872c8825e88226ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 39/54] fix: count messages to self in class methods as
 messages to the class

---
 oclint-rules/rules/design/FeatureEnvyRule.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/design/FeatureEnvyRule.cpp b/oclint-rules/rules/design/FeatureEnvyRule.cpp
index 54515c5..a0757d3 100644
--- a/oclint-rules/rules/design/FeatureEnvyRule.cpp
+++ b/oclint-rules/rules/design/FeatureEnvyRule.cpp
@@ -16,6 +16,7 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
     class MessageAnalyzer : public RecursiveASTVisitor<MessageAnalyzer>
     {
         unordered_map<string, long> _receiversCount;
+        string _selfName;
 
     public:
         vector<string> analyzeObjC(ObjCMethodDecl *decl)
@@ -40,7 +41,12 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
             {
                 if (node->getReceiverKind() == ObjCMessageExpr::Instance)
                 {
-                    if (node->getReceiverInterface())
+                    if (node->getInstanceReceiver()->isObjCSelfExpr())
+                    {
+                        // in class methods, self is of type Class
+                        countClassName(_selfName);
+                    }
+                    else if (node->getReceiverInterface())
                     {
                         countInterface(node->getReceiverInterface());
                     }
@@ -85,6 +91,7 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
         vector<string> analyzeCommon(string selfName, Decl *decl)
         {
             _receiversCount.clear();
+            _selfName = selfName;
             TraverseDecl(decl);
 
             return enviedClasses(selfMessages(selfName));
-- 
2.43.0


From 030613f5bf717a1e7d538efd32e3879043bc1a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 40/54] fix: recognise character and boolean literals in
 Objective-C++

---
 .../rules/migration/ObjCNSNumberLiteralsRule.cpp    | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp b/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
index 23cf142..52d5f3f 100644
--- a/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
+++ b/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
@@ -10,13 +10,9 @@ class ObjCNSNumberLiteralsRule : public AbstractASTVisitorRule<ObjCNSNumberLiter
 private:
     bool isCharLiteral(Expr *expr, string &selectorString)
     {
-        if (selectorString == "numberWithChar:" && expr && isa<ImplicitCastExpr>(expr))
-        {
-            ImplicitCastExpr *implicitCastExpr = dyn_cast<ImplicitCastExpr>(expr);
-            Expr *subExpr = implicitCastExpr->getSubExpr();
-            return subExpr && isa<CharacterLiteral>(subExpr);
-        }
-        return false;
+        // a character literal is an int in Objective-C, but a char in Objective-C++
+        return selectorString == "numberWithChar:" && expr &&
+            isa<CharacterLiteral>(expr->IgnoreImpCasts());
     }
 
     template <typename T>
@@ -40,7 +36,8 @@ private:
             {
                 CStyleCastExpr *cStyleCastExpr =
                     dyn_cast<CStyleCastExpr>(dyn_cast<ParenExpr>(expr)->getSubExpr());
-                return cStyleCastExpr && isa<IntegerLiteral>(cStyleCastExpr->getSubExpr()) &&
+                return cStyleCastExpr &&
+                    isa<IntegerLiteral>(cStyleCastExpr->getSubExpr()->IgnoreImpCasts()) &&
                     cStyleCastExpr->getType().getAsString() == "BOOL";
             }
 
-- 
2.43.0


From 61454d08bdcaacf0815282c332b341cb15c7a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 41/54] fix: require calls to super of definitions only, and
 accept them in class methods

---
 oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
index 73935cf..d9fd12f 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
@@ -26,7 +26,8 @@ public:
     bool VisitObjCMessageExpr(ObjCMessageExpr* expr)
     {
         if(expr->getSelector().getAsString() == _selector
-        && expr->getReceiverKind() == ObjCMessageExpr::SuperInstance) {
+        && (expr->getReceiverKind() == ObjCMessageExpr::SuperInstance
+        || expr->getReceiverKind() == ObjCMessageExpr::SuperClass)) {
             _foundSuperCall = true;
         }
         return true;
@@ -129,7 +130,7 @@ public:
         string selectorName = decl->getSelector().getAsString();
 
         // Figure out if anything in the super chain is marked
-        if(declRequiresSuperCall(decl)) {
+        if(decl->isThisDeclarationADefinition() && declRequiresSuperCall(decl)) {
             // If so, start a separate checker to look for method sends just in the method body
             ContainsCallToSuperMethod checker(selectorName);
             checker.TraverseDecl(decl);
-- 
2.43.0


From 85ba451699fdd733dc56ed4bce99f2c64111c500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 42/54] fix: check protected methods of protocols and calls in
 categories, against the class of the method

---
 .../cocoa/ObjCVerifyProtectedMethodRule.cpp    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
index a042ecc..e4cd3bd 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
@@ -11,6 +11,12 @@ using namespace oclint;
 
 namespace {
 
+    // The class whose method is called; protocols' methods belong to the receiver's class
+    const ObjCInterfaceDecl* sourceClass(const ObjCMessageExpr& expr) {
+        const auto interface = expr.getMethodDecl()->getClassInterface();
+        return interface ? interface : expr.getReceiverInterface();
+    }
+
     class CheckMethodsInsideClass : public RecursiveASTVisitor<CheckMethodsInsideClass>
     {
         private:
@@ -28,12 +34,12 @@ namespace {
                 return true;
             }
 
-            const auto interface = expr->getReceiverInterface();
-            if(!interface) {
+            if(!expr->getReceiverInterface()) {
                 return true;
             }
 
-            if(!isObjCInterfaceClassOrSubclass(&_container, interface->getNameAsString())) {
+            const auto className = sourceClass(*expr)->getNameAsString();
+            if(!isObjCInterfaceClassOrSubclass(&_container, className)) {
                 _violations.push_back(expr);
             }
 
@@ -50,7 +56,7 @@ namespace {
 class ObjCVerifyProtectedMethodRule : public AbstractASTVisitorRule<ObjCVerifyProtectedMethodRule>
 {
 public:
-    bool VisitObjCImplementationDecl(ObjCImplementationDecl* decl) {
+    bool VisitObjCImplDecl(ObjCImplDecl* decl) {
         const auto interface = decl->getClassInterface();
 
         if(interface) {
@@ -58,11 +64,9 @@ public:
             checker.TraverseDecl(decl);
             const auto violations = checker.getViolations();
             for(auto expr : violations) {
-                const auto sourceClass = expr->getMethodDecl()->getClassInterface();
-
                 string description = "calling protected method " +
                     expr->getSelector().getAsString() +
-                    " from outside " + sourceClass->getNameAsString() + " and its subclasses";
+                    " from outside " + sourceClass(*expr)->getNameAsString() + " and its subclasses";
                 addViolation(expr, this, description);
             }
         }
-- 
2.43.0


From 95ef0d2dc740b1597dda339351f5744db328b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 43/54] fix: analyse CUDA sources whose host and device
 compilations are one action

---
 oclint-driver/lib/Driver.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 6ab7e77..6f04cfa 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -148,7 +148,6 @@ static const llvm::opt::ArgStringList *getCC1Arguments(clang::driver::Compilatio
         {
             if (llvm::isa<clang::driver::OffloadAction>(action))
             {
-                assert(actions.size() > 1);
                 offloadCompilation = true;
                 break;
             }
-- 
2.43.0


From 87a410ff49bbb5d16f4ae22af598bfb27b2a7b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 44/54] fix: tell apart kernels and other functions of CUDA
 sources in namespaces, classes and templates

---
 .../include/oclint/AbstractASTVisitorRule.h   | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/oclint-rules/include/oclint/AbstractASTVisitorRule.h b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
index 12e0dde..a925b68 100644
--- a/oclint-rules/include/oclint/AbstractASTVisitorRule.h
+++ b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
@@ -42,34 +42,33 @@ protected:
         for (clang::DeclContext::decl_iterator it = tu->decls_begin(), declEnd = tu->decls_end();
             it != declEnd; ++it)
         {
-            applyCUDADecl(*it);
+            if (isValidDecl(*it)) {
+                traverse(*it);
+            }
         }
         tearDown();
     }
 
-    void applyCUDADecl(clang::Decl *decl) {
-        if (!isValidDecl(decl)) { return; }
-
-        if (clang::isa<clang::FunctionDecl>(decl)) {
-            auto funcDecl = clang::cast<clang::FunctionDecl>(decl);
-            if (funcDecl->hasAttr<clang::CUDAGlobalAttr>()) {
-                if (supportedCUDAFunctionAttrs() & CUDA_GLOBAL) {
-                    traverse(decl);
-                }
-            } else if (supportedCUDAFunctionAttrs() & CUDA_HOST) {
-                traverse(decl);
-            }
-        } else {
-            traverse(decl);
-        }
+    // functions are also found in namespaces, classes and templates
+    bool TraverseDecl(clang::Decl *decl) {
+        if (decl && isCUDASourceFile() && !isCUDADeclSupported(decl)) { return true; }
+        return clang::RecursiveASTVisitor<T>::TraverseDecl(decl);
     }
 
     void traverse(clang::Decl *decl) {
         (void) /* explicitly ignore the return of this function */
-            clang::RecursiveASTVisitor<T>::TraverseDecl(decl);
+            TraverseDecl(decl);
     }
 
 private:
+    bool isCUDADeclSupported(clang::Decl *decl)
+    {
+        auto funcDecl = decl->getAsFunction();
+        if (!funcDecl) { return true; }
+        return supportedCUDAFunctionAttrs() &
+            (funcDecl->hasAttr<clang::CUDAGlobalAttr>() ? CUDA_GLOBAL : CUDA_HOST);
+    }
+
     clang::DeclContext *getTranslationUnit()
     {
         return _carrier->getTranslationUnitDecl();
-- 
2.43.0


From 9691dec55c1fbd3d7a14677b15e81c24c78b1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 45/54] fix: functions whose body is parsed late (delayed
 template parsing) crash two size rules

---
 oclint-rules/rules/size/LongMethodRule.cpp      | 2 +-
 oclint-rules/rules/size/NPathComplexityRule.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/size/LongMethodRule.cpp b/oclint-rules/rules/size/LongMethodRule.cpp
index 6502056..d476b94 100644
--- a/oclint-rules/rules/size/LongMethodRule.cpp
+++ b/oclint-rules/rules/size/LongMethodRule.cpp
@@ -13,7 +13,7 @@ class LongMethodRule : public AbstractASTVisitorRule<LongMethodRule>
 private:
     void applyDecl(Decl *decl)
     {
-        if (decl->hasBody() &&
+        if (decl->getBody() &&
             !isCppMethodDeclLocatedInCppRecordDecl(dyn_cast<CXXMethodDecl>(decl)))
         {
             Stmt *stmt = decl->getBody();
diff --git a/oclint-rules/rules/size/NPathComplexityRule.cpp b/oclint-rules/rules/size/NPathComplexityRule.cpp
index 4eda0a3..d6b8afc 100644
--- a/oclint-rules/rules/size/NPathComplexityRule.cpp
+++ b/oclint-rules/rules/size/NPathComplexityRule.cpp
@@ -21,7 +21,7 @@ private:
     {
         if (decl->hasBody())
         {
-            CompoundStmt *bodyStmt = dyn_cast<CompoundStmt>(decl->getBody());
+            CompoundStmt *bodyStmt = dyn_cast_or_null<CompoundStmt>(decl->getBody());
             if (bodyStmt)
             {
                 int npath = getNPathComplexity(bodyStmt);
-- 
2.43.0


From e2b027da56d26ca2d7d13447239531b258fc2a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 46/54] fix: a report that cannot be written is an error

---
 oclint-driver/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oclint-driver/main.cpp b/oclint-driver/main.cpp
index 0810174..7f93bcc 100644
--- a/oclint-driver/main.cpp
+++ b/oclint-driver/main.cpp
@@ -70,6 +70,14 @@ void disposeOutStream(ostream* out)
         ofstream *fout = (ofstream *)out;
         fout->close();
     }
+    else if (out)
+    {
+        out->flush();
+    }
+    if (out && out->fail())
+    {
+        throw oclint::GenericException("cannot write report");
+    }
 }
 
 void listRules()
-- 
2.43.0


From a3b3c1fc4106bbfc70b9e4c6d52898ca26de4301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 47/54] fix: errors and notes of the compiler are no findings
 of the static analyzer

---
 oclint-driver/lib/DiagnosticDispatcher.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/DiagnosticDispatcher.cpp b/oclint-driver/lib/DiagnosticDispatcher.cpp
index 884f901..397deb4 100644
--- a/oclint-driver/lib/DiagnosticDispatcher.cpp
+++ b/oclint-driver/lib/DiagnosticDispatcher.cpp
@@ -78,7 +78,12 @@ void DiagnosticDispatcher::HandleDiagnostic(clang::DiagnosticsEngine::Level diag
     ResultCollector *results = ResultCollector::getInstance();
     if (_isCheckerCustomer)
     {
-        results->addCheckerBug(violation);
+        // the diagnostics of the compiler itself are reported by the compilation already
+        if (diagnosticInfo.getID() >= clang::diag::DIAG_UPPER_LIMIT &&
+            diagnosticLevel != clang::DiagnosticsEngine::Note)
+        {
+            results->addCheckerBug(violation);
+        }
     }
     else
     {
-- 
2.43.0


From 37553f718312a3daca16dd839139b6215d1c18c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 48/54] fix: the static analyzer writes no plist files

---
 oclint-driver/lib/Driver.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 6f04cfa..06da041 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -216,7 +216,13 @@ static clang::CompilerInvocation *newCompilerInvocation(
     const std::unique_ptr<clang::driver::Compilation> compilation(
         driver->BuildCompilation(llvm::ArrayRef(argv)));
     auto cc1Args = getCC1Arguments(compilation.get());
-    return newInvocation(&diagnosticsEngine, *cc1Args);
+    clang::CompilerInvocation *invocation = newInvocation(&diagnosticsEngine, *cc1Args);
+    if (runClangChecker)
+    {
+        // the findings go to the diagnostic consumer only, by default a plist file is written as well
+        invocation->getAnalyzerOpts().AnalysisDiagOpt = clang::PD_TEXT_MINIMAL;
+    }
+    return invocation;
 }
 
 static oclint::CompilerInstance *newCompilerInstance(clang::CompilerInvocation *compilerInvocation,
-- 
2.43.0


From ecb886ae4543b1955c359e2f23e49ed1de084f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 49/54] fix: -Werror holds for rules when the static analyzer
 is enabled

---
 oclint-driver/lib/CompilerInstance.cpp | 8 +++++---
 oclint-driver/lib/Driver.cpp           | 4 ++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/oclint-driver/lib/CompilerInstance.cpp b/oclint-driver/lib/CompilerInstance.cpp
index 3c34b01..730e0da 100644
--- a/oclint-driver/lib/CompilerInstance.cpp
+++ b/oclint-driver/lib/CompilerInstance.cpp
@@ -54,8 +54,9 @@
 
 using namespace oclint;
 
-static clang::FrontendAction *getFrontendAction() {
-    if (option::enableClangChecker()) {
+static clang::FrontendAction *getFrontendAction(clang::frontend::ActionKind actionKind) {
+    // the static analyzer has a pass of its own, it lifts -Werror for instance
+    if (option::enableClangChecker() && actionKind == clang::frontend::RunAnalysis) {
         return new clang::ento::AnalysisAction();
     }
     return new clang::SyntaxOnlyAction();
@@ -94,7 +95,8 @@ void CompilerInstance::start() {
             getSourceManager().clearIDTables();
         }
 
-        clang::FrontendAction *frontendAction = getFrontendAction();
+        clang::FrontendAction *frontendAction =
+            getFrontendAction(getFrontendOpts().ProgramAction);
         if(frontendAction->BeginSourceFile(*this, input)) {
             static_cast<void>(frontendAction->Execute());
             _actions.emplace_back(frontendAction);
diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 06da041..5613c48 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -222,6 +222,10 @@ static clang::CompilerInvocation *newCompilerInvocation(
         // the findings go to the diagnostic consumer only, by default a plist file is written as well
         invocation->getAnalyzerOpts().AnalysisDiagOpt = clang::PD_TEXT_MINIMAL;
     }
+    else
+    {
+        invocation->getFrontendOpts().ProgramAction = clang::frontend::ParseSyntaxOnly;
+    }
     return invocation;
 }
 
-- 
2.43.0


From 7a371c80929ba7a32a38f5a7bf0b2a5d4b46c569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 50/54] fix: lines of code written in arguments of macros

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 5 +++--
 oclint-rules/lib/util/ASTUtil.cpp          | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 810303d..7186d41 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -88,8 +88,9 @@ public:
     {
         if (markedAsSuppress(decl, _rule))
         {
-            clang::SourceLocation startLocation = decl->getBeginLoc();
-            clang::SourceLocation endLocation = decl->getEndLoc();
+            // code in macro arguments is where it is written
+            clang::SourceLocation startLocation = _sourceManager->getFileLoc(decl->getBeginLoc());
+            clang::SourceLocation endLocation = _sourceManager->getFileLoc(decl->getEndLoc());
             unsigned startLineNumber = _sourceManager->getPresumedLineNumber(startLocation);
             unsigned endLineNumber = _sourceManager->getPresumedLineNumber(endLocation);
             _range.insert(std::make_pair(startLineNumber, endLineNumber));
diff --git a/oclint-rules/lib/util/ASTUtil.cpp b/oclint-rules/lib/util/ASTUtil.cpp
index 0a0f60c..85df890 100644
--- a/oclint-rules/lib/util/ASTUtil.cpp
+++ b/oclint-rules/lib/util/ASTUtil.cpp
@@ -140,8 +140,9 @@ bool isCastToBOOL(const clang::CStyleCastExpr* castExpr)
 
 int getLineCount(clang::SourceRange sourceRange, const clang::SourceManager& sourceManager)
 {
-    clang::SourceLocation startLocation = sourceRange.getBegin();
-    clang::SourceLocation endLocation = sourceRange.getEnd();
+    // code in macro arguments is where it is written
+    clang::SourceLocation startLocation = sourceManager.getFileLoc(sourceRange.getBegin());
+    clang::SourceLocation endLocation = sourceManager.getFileLoc(sourceRange.getEnd());
 
     unsigned startLineNumber = sourceManager.getPresumedLineNumber(startLocation);
     unsigned endLineNumber = sourceManager.getPresumedLineNumber(endLocation);
-- 
2.43.0


From 1ae14b30dd9e8b688033680ed072b3fc458a9a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:18 +0000
Subject: [PATCH 51/54] fix: keep the first letter of the default name of
 scaffolded rules and reporters

The names are made from the class names by putting a space before each capital
letter, and the first character was dropped as if it were always such a space:
a class myRule had the name "y rule".
---
 oclint-scripts/scaffoldReporter | 2 +-
 oclint-scripts/scaffoldRule     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oclint-scripts/scaffoldReporter b/oclint-scripts/scaffoldReporter
index c630eb9..e2423d4 100755
--- a/oclint-scripts/scaffoldReporter
+++ b/oclint-scripts/scaffoldReporter
@@ -83,7 +83,7 @@ reporter_class_name = args.class_name
 reporter_name = args.reporter_name
 generate_tests = args.generate_tests
 if not reporter_name:
-    reporter_name = re.sub('[A-Z]', lower_add_space, reporter_class_name)[1:]
+    reporter_name = re.sub('[A-Z]', lower_add_space, reporter_class_name).lstrip()
 if pre_validate(reporter_class_name, generate_tests):
     scaffold(reporter_class_name, reporter_name)
     if generate_tests:
diff --git a/oclint-scripts/scaffoldRule b/oclint-scripts/scaffoldRule
index b6de450..82ecca5 100755
--- a/oclint-scripts/scaffoldRule
+++ b/oclint-scripts/scaffoldRule
@@ -139,6 +139,6 @@ rule_info_dict = {"RULE_CLASS_NAME" : args.class_name,
                   "OCLINT_VERSION"  : version.oclint_version()}
 
 if not args.rule_name:
-    rule_info_dict["RULE_NAME"] = re.sub('[A-Z]', lower_add_space, args.class_name)[1:]
+    rule_info_dict["RULE_NAME"] = re.sub('[A-Z]', lower_add_space, args.class_name).lstrip()
 pre_check(args.rule_category)
 scaffold(args.rule_category, rule_info_dict)
-- 
2.43.0


From 1df26068a3944756839eb927304bab920e7a8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 52/54] fix: code after throw of an object with a destructor is
 dead

---
 oclint-rules/rules/basic/DeadCodeRule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oclint-rules/rules/basic/DeadCodeRule.cpp b/oclint-rules/rules/basic/DeadCodeRule.cpp
index 0466782..2e4514e 100644
--- a/oclint-rules/rules/basic/DeadCodeRule.cpp
+++ b/oclint-rules/rules/basic/DeadCodeRule.cpp
@@ -35,6 +35,10 @@ public: // Visitor methods
     EExitType VisitReturnStmt(const ReturnStmt*) { return FullExit; }
     EExitType VisitGotoStmt(const GotoStmt*) { return FullExit; }
     EExitType VisitCXXThrowExpr(const CXXThrowExpr*) { return FullExit; }
+    EExitType VisitExprWithCleanups(const ExprWithCleanups* expr)
+    {
+        return Visit(expr->getSubExpr());
+    }
     EExitType VisitObjCAtThrowStmt(const ObjCAtThrowStmt*) { return FullExit; }
 
     EExitType VisitSwitchCase(const SwitchCase* stmt) { return Visit(stmt->getSubStmt()); }
-- 
2.43.0


From b4f591fa0e75592501b17ddac4de679ee28c157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 53/54] fix: default label directly before a case label is
 ill-placed

---
 ...faultLabelNotLastInSwitchStatementRule.cpp | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp b/oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp
index e62e1cb..f36310c 100644
--- a/oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp
+++ b/oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp
@@ -68,18 +68,29 @@ public:
 
     bool VisitSwitchStmt(SwitchStmt *switchStmt)
     {
-        // SwitchCaseList has a linked data structure in the reversed order
+        // SwitchCaseList is not sorted by position: a label written below
+        // the default label, as in "default: case 1:", is listed before it
 
-        SwitchCase *currentSwitchCase = switchStmt->getSwitchCaseList();
+        SwitchCase *defaultStmt = switchStmt->getSwitchCaseList();
+        while (defaultStmt && !isa<DefaultStmt>(defaultStmt))
+        {
+            defaultStmt = defaultStmt->getNextSwitchCase();
+        }
+        if (!defaultStmt)
+        {
+            return true;
+        }
 
-        while (currentSwitchCase && isa<CaseStmt>(currentSwitchCase))
+        const SourceManager &sourceManager = _carrier->getSourceManager();
+        for (SwitchCase *switchCase = switchStmt->getSwitchCaseList(); switchCase;
+            switchCase = switchCase->getNextSwitchCase())
         {
-            SwitchCase *nextSwitchCase = currentSwitchCase->getNextSwitchCase();
-            if (nextSwitchCase && isa<DefaultStmt>(nextSwitchCase))
+            if (switchCase != defaultStmt && sourceManager.isBeforeInTranslationUnit(
+                defaultStmt->getKeywordLoc(), switchCase->getKeywordLoc()))
             {
-                addViolation(nextSwitchCase, this);
+                addViolation(defaultStmt, this);
+                break;
             }
-            currentSwitchCase = nextSwitchCase;
         }
 
         return true;
-- 
2.43.0


From 532d738bb63c9765d30a582ac31b9064b529f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 54/54] fix: inverted conditions that make temporaries

---
 oclint-rules/rules/convention/InvertedLogicRule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oclint-rules/rules/convention/InvertedLogicRule.cpp b/oclint-rules/rules/convention/InvertedLogicRule.cpp
index 22bec18..dd6d7f5 100644
--- a/oclint-rules/rules/convention/InvertedLogicRule.cpp
+++ b/oclint-rules/rules/convention/InvertedLogicRule.cpp
@@ -10,6 +10,10 @@ class InvertedLogicRule : public AbstractASTVisitorRule<InvertedLogicRule>
 private:
     bool isInvertedLogic(Expr *condExpr)
     {
+        if (ExprWithCleanups *cleanups = dyn_cast_or_null<ExprWithCleanups>(condExpr))
+        {
+            condExpr = cleanups->getSubExpr();
+        }
         BinaryOperator *binaryOperator = dyn_cast_or_null<BinaryOperator>(condExpr);
         UnaryOperator *unaryOperator = dyn_cast_or_null<UnaryOperator>(condExpr);
         return (binaryOperator && binaryOperator->getOpcode() == BO_NE) ||
-- 
2.43.0

