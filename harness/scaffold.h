// What scaffolded code includes; precompiled.
#include <gtest/gtest.h>
#include <gmock/gmock.h>
#include "oclint/AbstractASTVisitorRule.h"
#include "oclint/AbstractSourceCodeReaderRule.h"
#include "oclint/AbstractASTMatcherRule.h"
#include "oclint/RuleBase.h"
#include "oclint/RuleSet.h"
#include "oclint/Reporter.h"
