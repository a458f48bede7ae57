// Prints what the linked rules and reporters say of themselves, then runs the generated PropertyTests.
#include <cstdio>
#include <gtest/gtest.h>
#include "oclint/RuleBase.h"
#include "oclint/RuleSet.h"
#include "oclint/Reporter.h"

extern "C" oclint::Reporter *(*scaffolded[])();

int main(int argc, char **argv)
{
    for (int i = 0; i < oclint::RuleSet::numberOfRules(); i++)
    {
        oclint::RuleBase *r = oclint::RuleSet::getRuleAtIndex(i);
        printf("rule\t%s\t%s\t%s\t%d\t%s\n", r->identifier().c_str(), r->name().c_str(), r->category().c_str(), r->priority(), r->since().c_str());
    }
    for (int i = 0; scaffolded[i]; i++)
    {
        printf("reporter\t%s\n", scaffolded[i]()->name().c_str());
    }
    printf("tests\n");
    ::testing::InitGoogleTest(&argc, argv);
    return RUN_ALL_TESTS();
}
