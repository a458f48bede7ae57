// Entry points that drive oclint's core API directly (run in a forked child of
// the zygote, so that every case starts from a fresh process state).
//   @results SCRIPT            result collection, raw and unique results
//   @report SO SCRIPT          one reporter on an arbitrary result set
//   @names SCRIPT              rule identifiers and the ruleset filter
//   @config SCRIPT             rule configuration
#include <dlfcn.h>
#include <stdio.h>

#include <fstream>
#include <iostream>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include "oclint/RawResults.h"
#include "oclint/Reporter.h"
#include "oclint/ResultCollector.h"
#include "oclint/Results.h"
#include "oclint/RuleBase.h"
#include "oclint/RuleConfiguration.h"
#include "oclint/RuleSet.h"
#include "oclint/RulesetFilter.h"
#include "oclint/UniqueResults.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"

using namespace oclint;

namespace
{

class FakeRule : public RuleBase
{
    std::string _n, _c;
    int _p;

public:
    FakeRule(std::string n, std::string c, int p) : _n(n), _c(c), _p(p) {}
    void apply() override {}
    const std::string name() const override { return _n; }
    const std::string category() const override { return _c; }
    int priority() const override { return _p; }
};

struct Reader
{
    std::string s;
    size_t pos = 0;
    explicit Reader(const char *path)
    {
        std::ifstream f(path, std::ios::binary);
        s.assign(std::istreambuf_iterator<char>(f), {});
    }
    std::string str()
    {
        size_t c = s.find(':', pos);
        if (c == std::string::npos) { throw std::runtime_error("script"); }
        size_t n = std::stoul(s.substr(pos, c - pos));
        std::string r = s.substr(c + 1, n);
        pos = c + 1 + n;
        return r;
    }
    long num() { return std::stol(str()); }
    bool end() const { return pos >= s.size(); }
};

void put(const std::string &x) { std::cout << x.size() << ':' << x; }
void put(long x) { put(std::to_string(x)); }

std::vector<RuleBase *> readRules(Reader &r)
{
    std::vector<RuleBase *> rules;
    for (long n = r.num(); n > 0; n--)
    {
        std::string a = r.str(), b = r.str();
        rules.push_back(new FakeRule(a, b, r.num()));
    }
    return rules;
}

Violation readViolation(Reader &r, const std::vector<RuleBase *> &rules)
{
    long rule = r.num();
    std::string path = r.str();
    long a = r.num(), b = r.num(), c = r.num(), d = r.num();
    return Violation(rule < 0 ? nullptr : rules.at(rule), path, a, b, c, d, r.str());
}

void putViolations(const std::vector<Violation> &vs, const std::vector<RuleBase *> &rules)
{
    put((long)vs.size());
    for (auto &v : vs)
    {
        long idx = -1;
        for (size_t i = 0; i < rules.size(); i++)
        {
            if (rules[i] == v.rule) { idx = i; }
        }
        put(idx);
        put(v.path);
        put((long)v.startLine);
        put((long)v.startColumn);
        put((long)v.endLine);
        put((long)v.endColumn);
        put(v.message);
    }
}

int results(const char *script)
{
    Reader r(script);
    auto rules = readRules(r);
    ResultCollector *rc = ResultCollector::getInstance();
    for (long n = r.num(); n > 0; n--)
    {
        std::string op = r.str();
        if (op == "set")
        {
            auto set = new ViolationSet();
            for (long k = r.num(); k > 0; k--) { set->addViolation(readViolation(r, rules)); }
            rc->add(set);
        }
        else if (op == "e") { rc->addError(readViolation(r, rules)); }
        else if (op == "w") { rc->addWarning(readViolation(r, rules)); }
        else if (op == "b") { rc->addCheckerBug(readViolation(r, rules)); }
    }
    std::unique_ptr<Results> raw(new RawResults(*rc)), uniq(new UniqueResults(*rc));
    std::cout << "@R@";
    for (long n = r.num(); n > 0; n--)
    {
        std::string which = r.str(), q = r.str();
        Results &x = which == "raw" ? *raw : *uniq;
        if (q == "all") { putViolations(x.allViolations(), rules); }
        else if (q == "errors") { putViolations(x.allErrors(), rules); }
        else if (q == "warnings") { putViolations(x.allWarnings(), rules); }
        else if (q == "bugs") { putViolations(x.allCheckerBugs(), rules); }
        else if (q == "n") { put((long)x.numberOfViolations()); }
        else if (q[0] == 'p') { put((long)x.numberOfViolationsWithPriority(std::stoi(q.substr(1)))); }
        else if (q == "files") { put((long)x.numberOfFiles()); }
        else if (q == "fileswith") { put((long)x.numberOfFilesWithViolations()); }
        else if (q == "nerr") { put((long)x.numberOfErrors()); }
        else if (q == "haserr") { put((long)x.hasErrors()); }
        else if (q == "nwarn") { put((long)x.numberOfWarnings()); }
        else if (q == "haswarn") { put((long)x.hasWarnings()); }
        else if (q == "nbug") { put((long)x.numberOfCheckerBugs()); }
        else if (q == "hasbug") { put((long)x.hasCheckerBugs()); }
    }
    return 0;
}

class FakeResults : public Results
{
public:
    std::vector<Violation> v, e, w, b;
    long files = 0, fileswith = 0;
    std::vector<Violation> allViolations() const override { return v; }
    int numberOfViolations() const override { return v.size(); }
    int numberOfViolationsWithPriority(int p) const override
    {
        int n = 0;
        for (auto &x : v) { n += x.rule->priority() == p; }
        return n;
    }
    int numberOfFiles() const override { return files; }
    int numberOfFilesWithViolations() const override { return fileswith; }
    int numberOfErrors() const override { return e.size(); }
    bool hasErrors() const override { return !e.empty(); }
    const std::vector<Violation> &allErrors() const override { return e; }
    int numberOfWarnings() const override { return w.size(); }
    bool hasWarnings() const override { return !w.empty(); }
    const std::vector<Violation> &allWarnings() const override { return w; }
    int numberOfCheckerBugs() const override { return b.size(); }
    bool hasCheckerBugs() const override { return !b.empty(); }
    const std::vector<Violation> &allCheckerBugs() const override { return b; }
};

int report(const char *so, const char *script)
{
    Reader r(script);
    auto rules = readRules(r);
    FakeResults x;
    x.files = r.num();
    x.fileswith = r.num();
    std::vector<Violation> *lists[] = {&x.v, &x.e, &x.w, &x.b};
    for (auto *l : lists)
    {
        for (long n = r.num(); n > 0; n--) { l->push_back(readViolation(r, rules)); }
    }
    void *h = dlopen(so, RTLD_LAZY);
    if (h == nullptr)
    {
        std::cerr << dlerror() << std::endl;
        return 97;
    }
    auto create = (Reporter * (*)()) dlsym(h, "create");
    Reporter *rep = create();
    rep->report(&x, std::cout);
    std::cout.flush();
    return 0;
}

int names(const char *script)
{
    Reader r(script);
    auto rules = readRules(r);
    std::cout << "@R@";
    for (auto *x : rules)
    {
        put(x->identifier());
        new RuleSet(x);
    }
    RulesetFilter f;
    for (long n = r.num(); n > 0; n--)
    {
        std::string op = r.str();
        if (op == "query")
        {
            auto ns = f.filteredRuleNames();
            put((long)ns.size());
            for (auto &x : ns) { put(x); }
            auto rs = f.filteredRules();
            put((long)rs.size());
            for (auto *x : rs)
            {
                long idx = -1;
                for (size_t i = 0; i < rules.size(); i++)
                {
                    if (rules[i] == x) { idx = i; }
                }
                put(idx);
            }
            continue;
        }
        std::vector<std::string> args;
        for (long k = r.num(); k > 0; k--) { args.push_back(r.str()); }
        if (op == "enable") { f.enableRules(args.begin(), args.end()); }
        else { f.disableRules(args.begin(), args.end()); }
    }
    return 0;
}

int config(const char *script)
{
    Reader r(script);
    std::cout << "@R@";
    for (long n = r.num(); n > 0; n--)
    {
        std::string op = r.str();
        std::string k = r.str();
        if (op == "add") { RuleConfiguration::addConfiguration(k, r.str()); }
        else if (op == "has") { put((long)RuleConfiguration::hasKey(k)); }
        else if (op == "str") { put(RuleConfiguration::stringForKey(k, r.str())); }
        else if (op == "int") { put((long)RuleConfiguration::intForKey(k, r.num())); }
        else if (op == "dbl")
        {
            char buf[64];
            snprintf(buf, sizeof buf, "%.17g", RuleConfiguration::doubleForKey(k, std::stod(r.str())));
            put(std::string(buf));
        }
        else if (op == "clear") { RuleConfiguration::removeAll(); }
    }
    return 0;
}

} // namespace

int api_main(int argc, const char **argv)
{
    std::string what = argv[0];
    if (what == "@results") { return results(argv[1]); }
    if (what == "@report") { return report(argv[1], argv[2]); }
    if (what == "@names") { return names(argv[1]); }
    if (what == "@config") { return config(argv[1]); }
    return 96;
}
