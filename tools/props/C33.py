from common import p

R = "oclint-rules/rules/cocoa/"
NAMES = ["IsEqualHash", "MustCallSuper", "ProhibitedCall", "ProtectedMethod", "SubclassMustImplement"]

P = [
 p("C33", "Contracts in oclint:enforce annotations are enforced exactly",
   "Contracts are annotations \"oclint:enforce[X method]\", with or without a [comment] behind, on methods, on properties (for both accessors) and on functions; redeclarations in categories can add them, and declarations that override others of super classes or protocols inherit them. "
   "Prohibited: each call of such a function and each message whose method is one, uses of properties included, is reported, with the comment as what to use instead. "
   "Protected: each message to an instance or class in an implementation, of a class or a category, is reported unless the class implemented is the method's class or a subclass of it. "
   "Base: each definition of a method that overrides one, in an implementation or a category's, and nowhere sends the same message to super, is reported; declarations are not. "
   "Abstract: for each such method of a class, each @implementation of a direct subclass that defines neither the method nor its property is reported. "
   "Missing hash method reports each @implementation with an instance method isEqual: and no instance method hash. Other annotations have no effect; each is reported once, at its extent, with the names in the message.",
   ["inputs"], "all generated hierarchies of protocols, classes, categories and properties, annotations and look-alikes, methods and messages",
   "The tests try one class and one subclass; which declaration a message refers to, and what contracts it has, depends on all protocols, super classes, categories and properties.",
   [f"{R}ObjCVerify{n}Rule.cpp" for n in NAMES], [(f"ObjCVerify{n}Rule", f"{R}ObjCVerify{n}Rule.cpp") for n in NAMES],
   "generated hierarchies with contracts, full violation lists with messages and positions against look-ups in the generated declarations",
   "Left open: which class the method of a protocol belongs to between a class and its super classes, protected methods called by functions, redeclared abstract methods, contracts added by categories to methods that subclasses redeclare. "),
]
