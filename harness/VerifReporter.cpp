// A report type "verif" for the checks: every field of the result set,
// length-prefixed, so that reading it back needs no escaping rules.
#include <ostream>
#include <string>

#include "oclint/Reporter.h"
#include "oclint/Results.h"
#include "oclint/RuleBase.h"
#include "oclint/Violation.h"

using namespace oclint;

static void str(std::ostream &o, const std::string &s) { o << s.size() << ':' << s; }
static void num(std::ostream &o, long n) { str(o, std::to_string(n)); }

static void violations(std::ostream &o, const std::vector<Violation> &vs)
{
    num(o, (long)vs.size());
    for (const auto &v : vs)
    {
        str(o, v.rule ? v.rule->name() : std::string());
        str(o, v.rule ? v.rule->category() : std::string());
        num(o, v.rule ? v.rule->priority() : 0);
        str(o, v.path);
        num(o, v.startLine);
        num(o, v.startColumn);
        num(o, v.endLine);
        num(o, v.endColumn);
        str(o, v.message);
    }
}

class VerifReporter : public Reporter
{
public:
    virtual const std::string name() const override { return "verif"; }
    virtual void report(Results *r, std::ostream &o) override
    {
        o << "@VERIF@";
        violations(o, r->allViolations());
        violations(o, r->allErrors());
        violations(o, r->allWarnings());
        violations(o, r->allCheckerBugs());
        num(o, r->numberOfViolations());
        num(o, r->numberOfViolationsWithPriority(1));
        num(o, r->numberOfViolationsWithPriority(2));
        num(o, r->numberOfViolationsWithPriority(3));
        num(o, r->numberOfFiles());
        num(o, r->numberOfFilesWithViolations());
        num(o, r->numberOfErrors());
        num(o, r->numberOfWarnings());
        num(o, r->numberOfCheckerBugs());
        o << "@END@";
        o.flush();
    }
};

extern "C" Reporter *create() { return new VerifReporter(); }
