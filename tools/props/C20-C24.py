from common import p

R = "oclint-rules/rules/"
WHY = "The tests try single hand-written statements; the verdict and the position must be right for every nesting of statements, in every language, layout and context."
TECH = "generated programs with known trees and token positions in generated layouts, full violation lists against models of the rules evaluated on the tree"
OVER = ["inputs", "configurations"]
TXT = "all compositions of the generated statements and expressions in functions, methods, constructors, templates and Objective-C methods, all layouts"


def anchors(d, names):
    return [f"{R}{d}/{n}Rule.cpp" for n in names]


def mech(d, names):
    return [(n + "Rule", f"{R}{d}/{n}Rule.cpp") for n in names]


EMPTY = ["EmptyIfStatement", "EmptyElseBlock", "EmptyForStatement", "EmptyWhileStatement", "EmptyDoWhileStatement", "EmptySwitchStatement", "EmptyTryStatement",
         "EmptyCatchStatement", "EmptyFinallyStatement"]
COND = ["BitwiseOperatorInConditional", "BrokenOddnessCheck", "ConstantConditionalOperator", "ConstantIfExpression", "DoubleNegative", "MultipleUnaryOperator"]
FLOW = ["CollapsibleIfStatements", "DeadCode", "ForLoopShouldBeWhileLoop", "GotoStatement", "JumbledIncrementer", "ReturnFromFinallyBlock", "ThrowExceptionFromFinallyBlock"]
SW = ["CoveredSwitchStatementsDontNeedDefault", "DefaultLabelNotLastInSwitchStatement", "MissingBreakInSwitchStatement", "NonCaseLabelInSwitchStatement",
      "SwitchStatementsShouldHaveDefault", "TooFewBranchesInSwitchStatement"]
RED = ["RedundantConditionalOperator", "RedundantIfStatement", "RedundantLocalVariable", "UnnecessaryElseStatement", "UselessParentheses"]

P = [
 p("C20", "The empty statement rules report exactly the empty bodies",
   "A body is empty when it is a null statement or a block without statements (comments do not count). Empty if statement, empty else block, empty for statement (for, range-based for and for-in), empty while statement, empty do/while statement, empty switch statement, "
   "empty try statement, empty catch statement and empty finally statement (C++ try and catch, Objective-C @try, @catch and @finally) each report every empty body of their kind of statement, once, from its first to its last token, and nothing else.",
   OVER, TXT, WHY, anchors("empty", EMPTY) + [R + "abstract/AbstractEmptyBlockStmtRule.h"], mech("empty", EMPTY), TECH),
 p("C21", "The rules about conditions and operators report exactly what they describe",
   "Bitwise operator in conditional reports the condition of every if, while, do and ?: that has &, | or ^ anywhere in it. Broken oddness check reports every x % 2 == 1 and 1 == x % 2. Double negative reports every !!x and ~~x, multiple unary operator every one of ! ~ + - "
   "applied to another of them, parentheses between or not. Constant if expression and constant conditional operator report the conditions of if and ?: that have a constant integer value (as C folds literals, enumerators, constants where the language allows, operators with short circuits, casts, sizeof). "
   "Inverted logic reports the conditions of ?: and of if statements with else that are x != y or !x. Each is reported once at the extent of the expression, and nothing else.",
   OVER, TXT, WHY, anchors("basic", COND) + anchors("convention", ["InvertedLogic"]), mech("basic", COND) + mech("convention", ["InvertedLogic"]), TECH,
   "Not generated: conditions with lambdas, blocks, statement expressions or temporaries, and conditions that depend on template parameters. "),
 p("C22", "The rules about the flow of control report exactly the statements they describe",
   "Collapsible if statements: an if without else whose then part is, alone in a block or not, an if without else. Dead code: the first statement after break, continue, return, goto or throw in the same block (the statement before may also be a block that contains such a statement, a case with it, or an if whose two branches have it), labels excepted. "
   "For loop should be while loop: a for with a condition and neither initialization nor increment. Goto statement: every goto. Jumbled incrementer: a for whose body is, alone in a block or not, a for that increments or decrements (++ or --) the one variable the outer for declares; the increment is reported. "
   "Avoid branching statement as last in loop: break, continue or return as the last statement of the block of any kind of loop. Return from finally block and throw exception from finally block: every return, respectively @throw and NSException raise, in @finally. "
   "Prefer early exits and continue: an if without else of more than MAXIMUM_IF_LENGTH (default 15) lines that ends the block of a loop, or is the body of one, or comes right before a break, continue, return or goto that ends its block. Each is reported once at its extent, and nothing else.",
   OVER, TXT, WHY, anchors("basic", FLOW) + anchors("convention", ["AvoidBranchingStatementAsLastInLoop", "PreferEarlyExit"]),
   mech("basic", FLOW) + mech("convention", ["AvoidBranchingStatementAsLastInLoop", "PreferEarlyExit"]), TECH),
 p("C23", "The rules about switch statements report exactly the statements they describe",
   "A switch's labels are those of its body, however deep, but not of switch statements inside it. Unnecessary default statement in covered switch statement: a switch over an enumeration that has all its enumerators as cases, and a default. Missing default in switch statements: a switch without default that does not cover an enumeration. "
   "Ill-placed default label: a default label that a case follows. Missing break in switch statement: a switch one of whose groups (a labelled statement of its body and the statements up to the next labelled one or the end) has no break, return, continue or throw anywhere in the labelled statement, as one of the other statements, or anywhere in a block among them. "
   "Non case label in switch statement: every ordinary label inside a switch. Too few branches in switch statement: a switch with fewer cases than MINIMUM_CASES_IN_SWITCH (default 3). Each is reported once, at the extent of the switch or label, and nothing else.",
   OVER, TXT, WHY, anchors("convention", SW), mech("convention", SW), TECH, "The default label is only generated innermost of a group of labels. "),
 p("C24", "The rules about redundant code report exactly the code they describe",
   "Unnecessary else statement: the else of an if, or the last else of an else-if chain, when each branch before it always returns (it is a return, a block with such a statement, or an if whose two branches always return). Useless parentheses: parentheses around the whole condition of an if, the operand of return or the initializer of a variable. "
   "Redundant conditional operator: a ?: whose two results are boolean literals (true, false, YES, NO, that is (BOOL)1 or __objc_yes), the same literal of another kind (equal value), or the same variable. Redundant if statement: an if whose two branches, each alone in blocks or not, return, or assign with = to the same variable or element, opposite boolean literals. "
   "Redundant local variable: a variable declared alone in the statement right before a return, last in its block, of just that variable. Each is reported once at its extent, and nothing else.",
   OVER, TXT, WHY, anchors("redundant", RED), mech("redundant", RED), TECH,
   "Not generated: variables returned as another type than their own, literals compared across types in templates. "),
]
