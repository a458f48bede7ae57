from common import p

R = "oclint-rules/rules/"
OVER = ["inputs"]
MECH = lambda names: [(n.split("/")[1] + "Rule", f"{R}{n}Rule.cpp") for n in names]
FILES = lambda names: [f"{R}{n}Rule.cpp" for n in names]
NULLS = ["basic/BrokenNullCheck", "basic/MisplacedNullCheck", "redundant/RedundantNilCheck", "redundant/UnnecessaryNullCheckForCXXDealloc"]
UNUSED = ["unused/UnusedLocalVariable", "unused/UnusedMethodParameter", "convention/ParameterReassignment"]
DESIGN = ["design/AvoidDefaultArgumentsOnVirtualMethods", "design/AvoidPrivateStaticMembers", "convention/BaseClassDestructorShouldBeVirtualOrProtected", "convention/DestructorOfVirtualClass"]
OBJC = ["migration/ObjCBoxedExpressions", "migration/ObjCContainerLiterals", "migration/ObjCNSNumberLiterals", "migration/ObjCObjectSubscripting", "design/FeatureEnvy",
        "convention/ObjCAssignIvarOutsideAccessors"]

P = [
 p("C29", "Null checks that break, come too late or are not needed are found exactly",
   "For a pointer variable p, a null check is p, p != NULL or NULL != p (not null), !p, p == NULL or NULL == p (null). Broken null check reports exactly each && whose left side checks that p is null and each || whose left side checks that it is not, if the right side dereferences that same variable (p->x; in Objective-C a message to it) anywhere; "
   "misplaced null check each && whose right side checks that p is not null and each || whose right side checks that it is null, if the left side dereferences it; redundant nil check (Objective-C) each && whose left side checks that p is not nil and whose right side, unless it is a negation, sends it a message. "
   "Unnecessary null check for dealloc reports exactly each C++ if without else that checks that a pointer is not null and whose body is a delete of that same pointer, alone or followed by an assignment of null to it. Parentheses and implicit conversions make no difference; different variables of one name are different. Each is reported once, at its extent.",
   OVER, "all compositions of the generated expressions and statements, variables, spellings of null and layouts",
   "The tests try single expressions; which variable is checked and which is used, behind parentheses, conversions and other operands, can only be decided over many combinations.",
   FILES(NULLS), MECH(NULLS),
   "generated trees rich in null checks, uses and deletions, full violation lists with positions against models evaluated on the tree"),
 p("C30", "Unused variables and parameters and reassigned parameters are reported exactly",
   "Unused local variable reports exactly the named local variables (static ones, conditions' and loops' included) that nothing refers to, except those of a type listed in RAII_DEFAULT_CLASSES (std::lock_guard, std::unique_lock) or RAII_CUSTOM_CLASSES, "
   "whatever qualifiers, template arguments and typedefs it is written with, and those in templates. Unused method parameter reports exactly the named parameters of the definitions of functions, constructors and Objective-C methods that nothing refers to, except those of virtual functions, methods that override a method of a super class or implement one of a protocol, closures, "
   "templates, and those with an unused or IBAction attribute. Parameter reassignment reports exactly each assignment (=, not the compound ones) to a parameter of the enclosing function or method, not to a variable that shadows it. Each is reported once, at its extent, with the variable's name.",
   OVER, "all compositions of the generated functions, methods, scopes and uses, with many variables of equal names",
   "The tests try one variable per case; use and shadowing depend on every scope, closure and kind of reference between declaration and use.",
   FILES(UNUSED), MECH(UNUSED),
   "generated functions, methods, closures and classes with few names in nested scopes, full violation lists with messages and positions against the uses recorded while the text was written",
   "Left open: pointers to listed RAII types, assignments in closures to parameters of the function around. "),
 p("C31", "Rules about the design of C++ classes see the whole hierarchy",
   "Avoid default arguments on virtual methods reports exactly each declaration of a method that is virtual, declared so or by overriding, and has parameters with default arguments. Avoid private static members reports exactly each private static method and static data member, its definition outside the class included. "
   "Destructor of virtual class reports exactly each definition of a class that has virtual methods, its own or inherited, and no virtual destructor, its own or inherited. Base class destructor should be virtual or protected reports, for each class with virtual methods and each public base of it reached over public bases, not past a base with virtual methods, whose destructor is neither virtual nor protected, that base's definition, with the names of both. "
   "Classes may be nested, local, in namespaces, forward declared, final, virtual bases or templates. Each is reported once, with the extent and the names.",
   OVER, "all generated hierarchies of classes and class templates",
   "The tests try two or three classes; what a class inherits depends on the whole hierarchy above it.",
   FILES(DESIGN), MECH(DESIGN),
   "generated hierarchies of classes and class templates, full violation lists with messages and positions against virtuality and access computed from the hierarchy"),
 p("C32", "Objective-C literals, subscripts, feature envy, ivars: the rules are exact",
   "Use container literal reports exactly each message array, arrayWithObject:, arrayWithObjects:, arrayWithObjects:count: to NSArray and dictionary, dictionaryWithObject:forKey:, dictionaryWithObjects:forKeys:, dictionaryWithObjects:forKeys:count:, dictionaryWithObjectsAndKeys: to NSDictionary. "
   "Use number literal reports messages numberWith<Type>: to NSNumber with a literal of exactly that type (character, integer, floating, YES and NO); use boxed expression those with a parenthesized expression of that type or an enum constant, and stringWithUTF8String: to NSString with a parenthesized expression or call of type char *. "
   "Use object subscripting reports objectAtIndex: and objectAtIndexedSubscript: to variables of type NSArray *, replaceObjectAtIndex:withObject: and setObject:atIndexedSubscript: to NSMutableArray *, objectForKey: and objectForKeyedSubscript: to NSDictionary *, setObject:forKey: and setObject:forKeyedSubscript: to NSMutableDictionary *. "
   "Feature envy reports exactly, for a method of a class, each other class to which the method sends more messages (uses of properties and instance variables counted) than to its own. "
   "Ivar assignment outside accessors or init reports each instance variable assigned in a method other than its getter, its setter (underscores at its ends left out) and methods whose name begins with init. Each is reported once, at its extent.",
   OVER, "all compositions of the generated methods and functions, receivers, selectors and arguments",
   "The tests try each selector once; the rules must distinguish receivers, types and counts in any context.",
   FILES(OBJC), MECH(OBJC),
   "generated Objective-C methods and functions, full violation lists with messages and positions against what was recorded while the text was written",
   "Left open: inherited instance variables and properties in feature envy. "),
]
