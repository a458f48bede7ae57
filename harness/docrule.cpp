// Rules with generated properties for the documentation generator (built with DOCGEN); the file named by VERIF_DOCRULES holds
// netstrings: count, then per rule name, attribute name ("" for the default), category, priority, since, description, example,
// file name ("" for the default), whether it can be suppressed, additional document, number of thresholds, keys and descriptions.
#include <cstdlib>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "oclint/RuleBase.h"
#include "oclint/RuleSet.h"

struct DocRule : public oclint::RuleBase
{
    std::string n, a, c, s, d, e, f, more;
    int p;
    bool sup;
    std::map<std::string, std::string> t;
    void apply() override {}
    const std::string name() const override { return n; }
    const std::string attributeName() const override { return a.empty() ? RuleBase::attributeName() : a; }
    const std::string category() const override { return c; }
    int priority() const override { return p; }
    const std::string since() const override { return s; }
    const std::string description() const override { return d; }
    const std::string example() const override { return e; }
    const std::string fileName() const override { return f.empty() ? RuleBase::fileName() : f; }
    bool enableSuppress() const override { return sup; }
    const std::map<std::string, std::string> thresholds() const override { return t; }
    const std::string additionalDocument() const override { return more; }
};

static bool load()
{
    const char *path = getenv("VERIF_DOCRULES");
    if (!path)
    {
        return false;
    }
    std::ifstream in(path, std::ios::binary);
    std::stringstream buffer;
    buffer << in.rdbuf();
    std::string all = buffer.str();
    size_t pos = 0;
    auto item = [&]() {
        size_t colon = all.find(':', pos);
        size_t n = strtoul(all.c_str() + pos, nullptr, 10);
        pos = colon + 1 + n;
        return all.substr(colon + 1, n);
    };
    for (int count = atoi(item().c_str()); count > 0; --count)
    {
        DocRule *r = new DocRule();
        r->n = item();
        r->a = item();
        r->c = item();
        r->p = atoi(item().c_str());
        r->s = item();
        r->d = item();
        r->e = item();
        r->f = item();
        r->sup = item() == "1";
        r->more = item();
        for (int k = atoi(item().c_str()); k > 0; --k)
        {
            std::string key = item();
            r->t[key] = item();
        }
        oclint::RuleSet set(r);
    }
    return true;
}

static bool loaded = load();
