import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
I=["inputs"]; IC=["inputs","configurations"]
p("C01","Parsing never panics, whatever the input",
 "Parsing any string, with any context, returns either an expression or a parse error: it never panics (no overflow, no out-of-range index, no unreachable branch, no unwrap of nothing). Stack exhaustion on extremely deep nesting is not covered.",
 IC,"every UTF-8 input string (empty, whitespace only, truncated, non-ASCII included), every context, all eight build configurations",
 "Tests try a few dozen well-formed strings and nine malformed ones; a panic hides behind one unusual byte sequence.",
 ["src/parser.rs","src/token/operator.rs","src/utils/precedence.rs"],
 [("Parser::parse","src/parser.rs"),("ParserImpl (cursor arithmetic, slicing, error constructors)","src/parser.rs")],["Parser::parse","Xprs::try_from"],
 [("cursor","current byte offset in the input","src/parser.rs")])
p("C02","Evaluation computes the documented arithmetic",
 "Evaluating an expression gives exactly the floating-point value obtained by applying, bottom-up, the IEEE operation each node stands for (+ - * / % ^, unary + and -, factorial, and the called function on its arguments in order) to the values of its operands. Literals evaluate to themselves and variables to the provided value.",
 IC,"every expression tree, every variable assignment",
 "Tests evaluate about twenty expressions; a wrong operand order or a special case for one value is not sampled.",
 ["src/xprs.rs","src/element/function_call.rs"],[("Xprs::eval","src/xprs.rs"),("FunctionCall::call","src/element/function_call.rs")],["Xprs::eval","Xprs::eval_no_vars"])
p("C03","Checked and unchecked evaluation agree",
 "Whenever evaluation succeeds, the unchecked evaluation of the same expression with the same variables returns the identical value. The no-variable forms are the same as evaluating with an empty set of variables.",
 I,"every expression tree and every assignment on which checked evaluation succeeds",
 "Two separate recursive implementations; tests compare them on a handful of expressions.",
 ["src/xprs.rs"],[("eval_element / eval_element_unchecked","src/xprs.rs")],["Xprs::eval_unchecked","Xprs::eval_no_vars_unchecked","Xprs::eval_no_vars"])
p("C04","A missing variable is reported, and only a missing variable",
 "Checked evaluation fails exactly when a variable occurring in the expression has no provided value, and the error names a variable that occurs in the expression and was not provided. Extra provided variables never matter.",
 I,"every expression tree, every (partial) assignment",
 "Tests check one or two missing variables at the root; errors swallowed below functions or operators are not sampled.",
 ["src/xprs.rs"],[("eval_element, variable lookup and error propagation","src/xprs.rs")],["Xprs::eval","EvalError"])
p("C05","Simplification preserves the value of the expression",
 "Simplifying an expression never changes the real number it denotes: wherever the original expression and all its sub-expressions are defined and finite, the simplified one evaluates to the same real number. Every operation and argument order that simplification keeps is the original one.",
 IC,"every expression tree and every variable assignment for which all intermediate values are defined and finite (signed zeros identified), on stable and nightly rule sets",
 "About twenty-five rewrite rules, some only on nightly; tests exercise a few of them on one instance each, and a wrong rule shows only for some values.",
 ["src/element/simplify.rs"],[("Simplify::simplify rewrite rules","src/element/simplify.rs")],["Xprs::simplify_for","Parser::parse with compile-time-optimizations"])
p("C06","The optimisation feature changes neither acceptance nor meaning",
 "With and without compile-time-optimizations the parser accepts the same inputs, rejects the others with the same error, and, for accepted inputs, the optimised expression is the simplification of the unoptimised one. An expression without variables evaluates to the identical value in both builds.",
 IC,"every input string and context, features on versus off",
 "Each build is tested on its own expectations; no test compares the two builds.",
 ["src/parser.rs","src/element/simplify.rs"],[("ParserImpl::parse, cfg(feature = compile-time-optimizations)","src/parser.rs")],["Parser::parse"])
p("C07","Operator precedence and left associativity",
 "^ binds tighter than unary minus, which binds tighter than * / %, which bind tighter than + and -; operators of equal precedence group to the left, ^ included. With pejmdas, implicit multiplication binds tighter than explicit * / % (and looser than ^); with pemdas it has their precedence.",
 IC,"every pair of nested contexts and next operator, hence every token sequence, in both precedence modes",
 "Tests check some twenty operator combinations out of all contexts and successors, mostly in one mode.",
 ["src/parser.rs","src/utils/precedence.rs"],[("precedence climbing loop","src/parser.rs"),("precedence table","src/utils/precedence.rs")],["Parser::parse"])
p("C08","Implicit multiplication exactly where documented",
 "After a complete operand, a letter or an opening parenthesis is an implicit multiplication, and so is a digit unless the operand is a plain number; nothing else is. The result is the product of the left operand and the operand that follows, in that order.",
 IC,"every left operand kind and every next byte",
 "Tests list nine accepted and one rejected instance; letter case, function calls, factorials and groups on the left are not enumerated.",
 ["src/parser.rs","src/utils/precedence.rs"],[("get_operator_infos","src/parser.rs")],["Parser::parse"])
p("C09","Signs and factorial bind as documented",
 "A leading + or - applies to the operand that follows including its factorial and power but not beyond, signs nest, and ! applies to the operand immediately before it (so -4! is -(4!) and 2^3! is 2^(3!)). A sign or factorial without an operand is an error.",
 IC,"every operand kind, sign sequence and context",
 "Tests hold six sign cases and one factorial case.",
 ["src/parser.rs"],[("atom, element","src/parser.rs")],["Parser::parse"])
p("C10","The whole input is parsed, nothing is dropped or invented",
 "An expression is returned only if every non-blank byte of the input was consumed as part of exactly one token of it; brackets match, arguments appear in order, and anything left over is an error. Rejected inputs are exactly those outside the documented grammar.",
 IC,"every input string",
 "Tests check nine malformed inputs; silently ignored trailing or duplicated tokens need other inputs.",
 ["src/parser.rs"],[("ParserImpl::parse end-of-input check, parse_arguments, assert_eq_consume","src/parser.rs")],["Parser::parse"])
p("C11","Blanks between tokens never matter",
 "Inserting or removing ASCII blanks (space, tab, newline, form feed, carriage return) between two tokens, or at either end, changes neither acceptance nor the resulting expression, provided no two words or numbers get glued or split.",
 I,"every token boundary of every input, every blank run",
 "Tests contain single spaces in conventional places only.",
 ["src/parser.rs"],[("next_trim","src/parser.rs")],["Parser::parse"])
p("C12","Names resolve to context, then built-in, then variable",
 "A name is a maximal run of letters, digits, _ and ' starting with a letter; it means the context's symbol of exactly that name if there is one, else the built-in constant or function of that name, else a variable with that name. A function name not followed by ( is an error, and a variable or constant followed by ( is an implicit multiplication.",
 I,"every name and every context",
 "Tests define a few context symbols; shadowing of built-ins and near-miss names are not sampled.",
 ["src/parser.rs","src/token/identifier.rs","src/context.rs"],[("parse_identifier","src/parser.rs"),("Identifier::from_str","src/token/identifier.rs")],["Parser::parse"])
p("C13","Each built-in name denotes its documented function",
 "Every built-in name is bound to the mathematical function and number of arguments that the documentation gives it (for sum, mean, min, max any number), with arguments passed in order; pi and e are the mathematical constants.",
 IC,"every built-in name, every argument list",
 "Tests call three of the thirty-odd built-ins.",
 ["src/token/identifier.rs","src/utils/built_in_functions.rs","src/utils/factorial.rs"],[("built-in table","src/token/identifier.rs"),("function definitions","src/utils/built_in_functions.rs")],["Parser::parse + Xprs::eval"])
p("C14","A call has exactly the declared number of arguments",
 "A call to a function that declares n arguments is accepted only with exactly n; fewer or more is an error stating the expected and the given number. A function without declared number accepts any positive number, and the function always receives all the arguments in order.",
 I,"every declared number, every number of arguments written",
 "Tests do not check any arity error; the boundary at every n is not enumerated.",
 ["src/parser.rs"],[("parse_identifier arity check","src/parser.rs"),("parse_arguments","src/parser.rs")],["Parser::parse","ErrorKind::TooFewArguments","ErrorKind::TooManyArguments"])
p("C15","vars is exactly the set of variables of the expression",
 "After parsing and after every kind of simplification, the reported set of variables contains exactly the variables that occur in the expression.",
 ["inputs","histories"],"every expression and every sequence of simplifications",
 "Tests compare the set on a few expressions, never where simplification removes an unrelated variable.",
 ["src/parser.rs","src/xprs.rs","src/element/mod.rs"],[("find_variables","src/element/mod.rs"),("simplify_for*","src/xprs.rs")],["Xprs::vars"],[("vars","variables of the expression","src/xprs.rs")])
p("C16","Only expected variables are accepted when a list is given",
 "When the context restricts variables, parsing succeeds only if every variable of the resulting expression is in the list, and otherwise reports one that is not, together with the list; without restriction no input is rejected for its variables. Constants and functions are never restricted.",
 I,"every list and every expression",
 "One example shows one accepted and one rejected name.",
 ["src/parser.rs"],[("Parser::parse","src/parser.rs")],["Parser::parse","ErrorKind::VariableNotDeclared"])
p("C17","The context keeps the last definition of each name",
 "Defining a constant or function replaces exactly the previous definition of that name and leaves all others; the chaining and in-place forms have the same effect, a lookup returns what was last defined, and setting the symbol table or the expected variables leaves the other part untouched.",
 ["histories"],"every sequence of context operations",
 "Tests build one context in one order.",
 ["src/context.rs","src/parser.rs"],[("Context setters and getters","src/context.rs")],["Context::get","Context::get_expected_vars","Parser::ctx"],[("symbols","name to symbol map","src/context.rs"),("expected_vars","allowed variables","src/context.rs")])
p("C18","Binding checks the variables and passes values by position",
 "Binding variables succeeds exactly when every variable of the expression is among the bound names, and otherwise the error lists all the missing ones (singular for one, plural for more); the resulting function evaluates the expression with the i-th argument as the value of the i-th name. The run-time form reports a missing value if too few values are given.",
 I,"all eleven binding functions, every expression, any number of missing variables",
 "Ten near-identical hand-written functions, most without test; more than a few missing variables is never tried.",
 ["src/xprs.rs"],[("bind .. bind9, bind_n, bind_n_runtime","src/xprs.rs"),("BindError::from_diff","src/xprs.rs")],["Xprs::bind*","BindError"])
p("C19","simplify_for substitutes the given values everywhere",
 "After simplifying for given variables, none of them occurs in the expression any more, other variables are untouched, and evaluating the rest equals evaluating the original with those values (where defined and finite). The by-value, in-place and multiple forms agree with applying the single form in order.",
 I,"every expression, every list of variable values",
 "Tests simplify three small expressions.",
 ["src/xprs.rs","src/element/simplify.rs"],[("Simplify::simplify_for","src/element/simplify.rs"),("Xprs::simplify_for*","src/xprs.rs")],["Xprs::simplify_for","Xprs::simplify_for_multiple"])
p("C20","Unsafe code never meets its preconditions unfulfilled",
 "No public operation causes undefined behaviour: every unsafe conversion is reached only with values that satisfy its safety contract (valid UTF-8 on character boundaries, floats within integer range, pointers owned exactly once).",
 IC,"every input string and value reaching an unsafe operation",
 "Undefined behaviour is not observable by a passing test; inputs at the boundary are not sampled.",
 ["src/parser.rs","src/xprs.rs","src/utils/factorial.rs"],[("unsafe blocks (trust_me!)","src/parser.rs"),("factorial","src/utils/factorial.rs")],["all public functions"])
p("C21","A panicking user function cannot corrupt an expression",
 "If a user-supplied function panics while an expression is simplified in place, unwinding and later use or drop of the expression is memory-safe: no part of the tree is dropped twice or left dangling.",
 ["fault_sequences"],"a panic in any user function call during any simplification",
 "No test uses a panicking function.",
 ["src/xprs.rs","src/element/simplify.rs"],[("simplify_for_in_place, simplify_for_multiple_in_place","src/xprs.rs")],["Xprs::simplify_for_in_place"])
p("C22","Parsing and evaluation are pure and thread-safe",
 "Parsing, simplification, evaluation and bound functions depend only on their arguments and change nothing but the value they are called on: no global or hidden mutable state, no I/O, clock or randomness. The order in which an error that lists several names lists them is not specified. All public types can be shared and sent between threads.",
 ["schedules","histories"],"any interleaving and any history of calls on shared parsers and expressions",
 "A type-level test covers Send and Sync only; a cache or counter would be seen only by some history or schedule.",
 ["src/parser.rs","src/xprs.rs","src/element/simplify.rs","src/token/function.rs"],[("&self signatures without interior mutability","src/xprs.rs")],["all public library functions"])
p("C23","Parse errors point into the input and show what is there",
 "Every parse error carries the original input and a span inside it; a character reported as unexpected or illegal is the character at the reported position, a malformed number's span covers exactly the reported text, and argument-count errors span the call from its name.",
 I,"every rejected input",
 "The repository's TODO says error contents are untested.",
 ["src/parser.rs"],[("ParseError constructors","src/parser.rs")],["ParseError (Diagnostic labels, source)","ErrorKind"])
p("C24","A displayed expression reads back as the same expression",
 "The text of an expression whose numbers are finite is accepted by the parser in the same context and denotes the same expression: every operation is shown in parentheses with its own operator, operands and arguments in order. Operators are shown with the symbol the parser reads for them.",
 IC,"every expression tree with finite numbers",
 "Doc examples display four expressions; no test re-parses.",
 ["src/element/mod.rs","src/element/binop.rs","src/element/unop.rs","src/element/function_call.rs","src/token/operator.rs"],[("Display implementations","src/element")],["Display for Xprs"])
p("C25","Equality of expressions is structural, up to commutativity",
 "Two expressions are equal exactly when they have the same shape, operators, numbers, names, functions and arguments in order, where the operands of + and * (and only those) may be swapped. Equality is symmetric, and a clone is the same expression.",
 I,"every pair of trees",
 "Tests compare a dozen pairs.",
 ["src/element/binop.rs","src/element/mod.rs","src/token/function.rs"],[("PartialEq for BinOp","src/element/binop.rs"),("PartialEq for FnPointer","src/token/function.rs")],["PartialEq for Xprs"])
p("C26","Factorial is right on its domain",
 "The factorial of a whole number n from 0 to 170 is the product 1*2*...*n computed in double arithmetic from left to right (at most a few ulp from n!), that of a larger number or +infinity is +infinity, and that of a negative or fractional number or NaN is NaN.",
 I,"every double",
 "Tests check five of the 171 table entries and a few out-of-domain values.",
 ["src/utils/factorial.rs"],[("factorial, FACTORIALS","src/utils/factorial.rs")],["factorial in expressions"])
p("C27","Every operation terminates",
 "Parsing, simplifying, evaluating, comparing and displaying always terminate: each step of every loop consumes input or an element of a finite collection, and each recursive call works on a strictly smaller part.",
 IC,"every input, every tree",
 "A hang appears only on an input that makes one loop or recursion step progress-free.",
 ["src/parser.rs","src/element/simplify.rs","src/xprs.rs"],[("parser loops and recursion","src/parser.rs")],["all public library functions"])
p("C28","Number literals have the documented syntax and value",
 "A number starts with a digit or a dot, extends over digits, dots and underscores and an optional exponent (e or E, optional sign, at least one digit), and denotes the value of its text without underscores; an e not followed by a complete exponent is not part of it. Text that is no number, such as two dots, is a malformed-number error.",
 I,"every byte sequence starting with a digit or dot",
 "Tests hold a few literals, none with sign-less or incomplete exponents.",
 ["src/parser.rs"],[("parse_number","src/parser.rs")],["Parser::parse","ErrorKind::MalformedNumber"])
p("C29","Wrapped user functions receive each argument once, in order",
 "A function made with the helper macro for n arguments declares n and, when called, passes argument i as the i-th parameter for every supported n (0 to 9), both for plain and capturing functions; without n it is passed the whole argument list and declares none. The stored name is the given one.",
 ["programs"],"all eight macro forms, all n from 0 to 9",
 "Tests use n = 1, 2 and variadic; the higher forms are written by hand and untested.",
 ["src/token/function.rs"],[("xprs_fn!","src/token/function.rs"),("Function::new_static / new_dyn","src/token/function.rs")],["xprs_fn!","Function"])
p("C30","Operations on parsed expressions never panic",
 "Evaluating, simplifying, binding, comparing, displaying and cloning any expression obtained from the parser never panics, for any variable values; the only exceptions are unchecked evaluation with a missing variable and panics of user-supplied functions.",
 IC,"every expression the parser can return, after any simplification, and every value",
 "Unreachable branches and overflowing counters need a tree or a count the tests do not build.",
 ["src/xprs.rs","src/element/simplify.rs","src/element/binop.rs","src/utils/factorial.rs"],[("unreachable!() arms rely on tree invariants","src/xprs.rs")],["Xprs::eval","Xprs::simplify_for","Xprs::bind*","Display, PartialEq for Xprs"])
p("C31","The interactive program ends with its input",
 "The interactive program stops at the line exit and at the end of its input, parses each line independently of the previous ones, and evaluates with a value for every variable of the expression.",
 ["inputs","histories"],"every input stream",
 "The binary has no tests.",
 ["src/bin/repl.rs"],[("main loop, ask_for_variables","src/bin/repl.rs")],["repl binary"])
p("C32","Numerical accuracy of the mathematical functions",
 "Built-in functions such as sin, exp or gamma return results within a small error of the exact mathematical value.",
 I,"every double","Accuracy depends on the platform's mathematical library.",
 ["src/utils/built_in_functions.rs"],[("calls into libm","src/utils/built_in_functions.rs")],["Xprs::eval"])
p("C33","Deeply nested expressions do not exhaust the stack",
 "Parsing, evaluating or dropping an expression of any nesting depth does not overflow the call stack.",
 I,"every nesting depth","Depends on stack size and frame sizes at run time.",
 ["src/parser.rs","src/element/mod.rs"],[("recursive descent without depth limit","src/parser.rs")],["Parser::parse"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
