"""Which engines decide which property, and how."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE = ['rustc nightly: type checking, MIR construction and monomorphisation of /repo/src, read through '
        'rustc_public by /verif/driver',
        'analyzer/absint.py: the semantics given to MIR statements, terminators and places',
        'analyzer/models.py: the contracts assumed for the std functions xprs calls']
TERMS = ['analyzer/terms.py: equality of floating-point terms']


def lib(cls, mod):
    def run(path, cname, tier, want):
        from ir import Prog
        import absint
        m = __import__(mod)
        led = absint.LEDGER[0] = absint.Ledger()
        reps = getattr(m, cls)(Prog(path), cname).run()
        return reps + ledger(led, cname)
    return run


def ledger(led, cname):
    """Undefined behaviour and endless loops, whichever engine came upon them."""
    from report import Report
    ub, hang = Report('C20', cname), Report('C27', cname)
    for s in sorted(led.safe):
        ub.ok(s)
    for k, t in sorted(led.ub.items()):
        ub.violation('ub:' + k, 'undefined behaviour: ' + t)
    for g, h in sorted(led.unchecked):
        ub.unknown('contract:%s:%s' % (g, h), '%s calls %s, whose safety contract is not modelled' % (g, h))
    for f, bb in sorted(led.loops):
        if f not in {k for k in led.hang}:
            hang.ok('%s: the loop at block %d changes its state on every turn' % (f, bb))
    for k, t in sorted(led.lost.items()):
        for r in (ub, hang):
            r.unknown('lost:' + k, t)
    for k, t in sorted(led.hang.items()):
        hang.violation('hang:' + k, t)
    return [ub, hang]


ENGINES = {}


def engine(name):
    return ENGINES[name]


def _reg(name, cls, mod, **kw):
    f = lib(cls, mod)
    for k, v in kw.items():
        setattr(f, k, v)
    ENGINES[name] = f


_reg('eval', 'EvalCheck', 'props_eval')
_reg('simplify', 'SimplifyCheck', 'props_simplify')
_reg('eq', 'EqCheck', 'props_eq')
_reg('vars', 'VarsCheck', 'props_vars')
_reg('disp', 'DispCheck', 'props_disp')
_reg('fact', 'FactCheck', 'props_fact')
_reg('parse', 'ParseCheck', 'props_parse')
_reg('names', 'NamesCheck', 'props_names')
_reg('ctx', 'CtxCheck', 'props_ctx')
_reg('bind', 'BindCheck', 'props_bind')
_reg('macro', 'MacroCheck', 'props_macro')
_reg('flow', 'FlowCheck', 'props_flow')
_reg('repl', 'ReplCheck', 'props_repl', dump='repl')

PROPS = {}


AI = 'static analysis: trace-partitioning abstract interpretation of MIR'


def prop(pid, engines, rule, explain, level='proof', floor=1, assume=(), trusted=(), dumps=('lib',), tech=AI):
    PROPS[pid] = dict(technique=tech, engines=engines, rule=rule, explain=explain, level=level, floor=floor,
                      assume=list(assume), trusted=BASE + list(trusted), dumps=list(dumps))


IND = 'The tree is finite and acyclic, so induction over it is well founded.'
FLOAT = ('f64 operations are the IEEE-754 ones of the target; user-supplied functions are deterministic '
         'functions of their arguments.')

prop('C02', ['eval'],
     'for every node kind, operator and argument count, the value every path of the evaluators returns is '
     'the IEEE-754 term the documentation gives for that node over the values of its children',
     'Abstract interpretation of the evaluators over one symbolic node with opaque children (structural '
     'induction); every path\'s result term is compared with the reference term.',
     assume=[IND, FLOAT], trusted=TERMS, floor=20)
prop('C03', ['eval'],
     'on every path where the checked evaluator succeeds, the unchecked one returns the same term',
     'Abstract interpretation of the checked and unchecked evaluators; both are compared with one '
     'reference term per node shape.', assume=[IND, FLOAT], trusted=TERMS, floor=20)
prop('C04', ['eval'],
     'every path of the checked evaluators that meets an unbound variable, or an error from a child, '
     'returns that error and no number; no other path returns an error',
     'Abstract interpretation of the evaluators with every combination of child outcomes.',
     assume=[IND], floor=20)
prop('C05', ['simplify', 'eq'],
     'for every constructor shape a rule distinguishes, the rewritten tree has the same real value as the '
     'original wherever the original is defined',
     'Abstract interpretation of the simplifier over symbolic nodes whose children are opaque or one '
     'level expanded as the code inspects them; recursive calls are replaced by their contract (structural '
     'induction); each path\'s result tree is compared with the argument tree by real-algebra '
     'normalisation.', assume=[IND, 'Real-number reading: 0^0, 0/0 and overflow count as undefined.'],
     trusted=TERMS, floor=100)
prop('C06', ['simplify', 'parse'],
     'on closed operands the simplifier returns the number the evaluator computes, and the parser with '
     'the feature on returns the simplification of what it returns with the feature off',
     'Abstract interpretation of the simplifier on nodes whose children simplify to numbers; IEEE term '
     'comparison (bit-exact, no algebra).', assume=[IND, FLOAT], trusted=TERMS, floor=50)
prop('C19', ['simplify'],
     'in every path of the substituting simplifiers a variable becomes exactly the number bound to its '
     'name and every other name is kept',
     'Abstract interpretation of the substituting simplifiers and their public wrappers against the '
     'substitution reference term.', assume=[IND, FLOAT], trusted=TERMS, floor=50)
prop('C15', ['vars', 'parse'],
     'on every path of the collector, and of every public rewriting method, the resulting set of names is exactly '
     'the set of names of the variable nodes of the tree it is stored with',
     'Abstract interpretation of find_variables on every node kind (structural induction) and of the public '
     'rewriting methods, whose stored set is compared with the collector\'s contract on the stored tree.',
     assume=[IND], floor=20)
prop('C24', ['disp', 'names'],
     'the token sequence each node kind prints, with its children printed as units, is read back by the '
     'documented grammar as that same node',
     'Abstract interpretation of the Display implementations into token templates (opaque children are '
     'holes), re-read by a reference grammar of the language; structural induction over the children.',
     assume=[IND], floor=20)
prop('C25', ['eq'],
     'equality answers true only for trees that are equal node by node, answers true for a clone, is symmetric, '
     'and a clone is the same tree',
     'Abstract interpretation of the equality and clone implementations on every pair of node kinds with '
     'opaque children (structural induction).', assume=[IND], floor=50)
prop('C26', ['fact'],
     'every path of the factorial built-in returns the product the definition gives on the integers it covers '
     'and the gamma-based value or a refusal on the others',
     'Abstract interpretation of factorial with its argument split by class; tables read from the constants of '
     'the program are compared with exact products in double arithmetic.', floor=5)

PARSE = ('Abstract interpretation of the parser: the input is an unknown byte string of unknown length (bytes '
         'are split into the classes the code distinguishes, positions are symbolic), every recursive call is '
         'replaced by its contract, and each abstract path is replayed against a reference grammar of the '
         'documented language (induction over the input; one proof per parsing function and precedence level, '
         'loops handled by one arbitrary iteration).')
INPUT = 'The input is a valid UTF-8 string shorter than isize::MAX bytes.'
GRAM = ['analyzer/grammar.py: the reference grammar of the documented language']


def pprop(pid, rule, floor=20, eng=(), **kw):
    prop(pid, ['parse'] + list(eng), rule, PARSE, assume=[INPUT], trusted=GRAM, floor=floor, **kw)


pprop('C01', 'no abstract path of the parser reaches a panic, an overflow check that can fail, an index out of '
      'bounds, or an unfulfilled precondition of an unsafe call', floor=1000)
pprop('C07', 'every binary node a parsing function builds has, for its operator character and level, the operands '
      'the precedence table gives it', floor=100)
pprop('C08', 'a product is inserted exactly where the reference grammar has an implicit multiplication, at its '
      'precedence in the build', floor=20)
pprop('C09', 'signs and factorials are read at the places and with the binding strength of the reference grammar',
      floor=20)
pprop('C10', 'each parsing function consumes exactly the tokens the reference grammar consumes and the entry '
      'points accept only when nothing but blanks is left', floor=100)
pprop('C11', 'every token is reached with the blanks before it skipped, and no path distinguishes whether blanks '
      'were there', floor=100)
pprop('C12', 'a name becomes what the context says, else the built-in, else a variable of that name',
      floor=20, eng=['names'])
pprop('C14', 'a call node is built only with the declared number of arguments, each separated by one comma, and '
      'any other number is refused', floor=100)
pprop('C16', 'with a list of expected variables a path returns a tree only when no other variable is in it, and '
      'refuses only then', floor=4)
pprop('C23', 'every error a parsing function returns carries the kind, the place and the payload the documented '
      'grammar gives it at that place, and the place lies in the input', floor=100)
pprop('C28', 'the literal read is the longest one of the documented syntax and its value is the number its text '
      'denotes', floor=20)

prop('C13', ['names'],
     'every documented name is mapped to a constant with the exact bits of the documented one, or to a function with '
     'the documented number of arguments whose result is the documented term over its arguments in order',
     'Abstract interpretation of the name table on every documented literal and of each function it yields on a list '
     'of opaque arguments; the result is compared, bit for bit, with the reference term.',
     assume=[FLOAT, 'Functions of any number of arguments are analysed for 1 to 6, 9 and 17 of them.'],
     trusted=TERMS + ['analyzer/props_names.py: the documented table'], floor=60)

prop('C17', ['ctx'],
     'after any operation on an arbitrary context, and after every history of up to two operations on an arbitrary one '
     'or three on an empty one, every name looked up has the meaning the definitions give it',
     'Abstract interpretation of the context operations on an opaque context with opaque names and values, followed by '
     'a lookup of an opaque name (equal to or different from each defined one); induction over the history.',
     assume=['Names are compared as strings.'], floor=200)

prop('C18', ['bind'],
     'binding fails exactly when a variable of the expression is not among the names, with the kind of error and the '
     'list of names of the variables that are missing; otherwise calling the result (any number of times) yields the '
     'value of the expression in which the i-th name has the i-th value',
     'Abstract interpretation of every binding method (one to nine names, arrays, slices) on expressions with up to '
     'three opaque variables and opaque names in every arrangement (equal to or different from each variable), '
     'followed by two calls of the closure on opaque values; the result is compared with the reference term, or the '
     'environment given to the evaluator with the reference one.',
     assume=[FLOAT, 'The bound names are pairwise distinct.',
             'Arrays of 0 to 5 names and slices of 0, 1, 2, 3 and 5 names stand for any length; error lists are '
             'analysed for up to 3 arbitrary and for 255, 256, 257 and 300 known names.'], trusted=TERMS, floor=200)

prop('C29', ['macro'],
     'a function made by a form of xprs_fn! for n arguments has the given name (the text of the function without one), '
     'declares n, and calling it calls the user\'s function once with argument i as the i-th parameter and returns '
     'its value; without n it declares none and passes the list',
     'Every form of the macro (named or not, plain, closure, constant, capturing, given or computed name; 0 to 9 '
     'arguments and variadic) is expanded in a witness module compiled with the crate; each resulting function is '
     'interpreted abstractly on opaque arguments with an opaque user function. A form that no longer compiles is a '
     'violation.', assume=['Variadic forms are analysed for 1, 2, 3 and 7 arguments.'], floor=90)

prop('C31', ['repl'],
     'on every abstract input stream the program reads no more after `exit` or the end of the input, gives the parser '
     'each line it read once (never a mixture with earlier ones) and an unchanged parser, evaluates with a value read '
     'for every variable, shows the result, and does not panic unless a number it asked for is none',
     'Abstract interpretation of main with a modelled terminal (a read yields the end, `exit`, or any other line) and a '
     'modelled library (a line parses to an expression with 0, 1 or 2 opaque variables, or not).',
     assume=['Input streams of up to three lines (and the answers to prompts) stand for any length.',
             'Reading and writing do not fail.', 'The library behaves as the other properties say.'],
     floor=50, dumps=('repl',))

FLOW = ('A may-analysis over the control-flow graph (unwinding edges included) of every function of the library, with '
        'summaries for helpers; places are seen through the pointers they are reached by.')

prop('C20', ['parse', 'fact', 'names', 'bind', 'ctx', 'macro', 'eval', 'simplify', 'disp', 'flow'],
     'on every abstract path, each call of a function with a safety contract meets it: text is cut only between characters, '
     'a float converted without a check is in range, an unchecked index is in bounds, an unchecked unwrap has a value; no '
     'value is owned twice',
     'Abstract interpretation of all parts of the library in which the models of the unsafe functions check their '
     'contracts, and a flow analysis of ownership. ' + FLOW,
     assume=[INPUT], trusted=['The list of unsafe functions and their contracts in analyzer/absint.py and models.py.'],
     floor=40, tech='static analysis: abstract interpretation of MIR and ownership dataflow')

prop('C21', ['flow'],
     'from a read of an owned value through a pointer to the write that makes the place whole again, no path makes a call '
     'that may run a user function (calls that leave a place in pieces are followed through helpers)',
     FLOW + ' A call may run a user function when the call graph reaches an indirect call or a call through `dyn Fn`.',
     assume=['Only raw-pointer operations can make a value owned twice; safe code cannot (the borrow checker).'],
     floor=20, tech='static analysis: typestate dataflow over MIR with unwind edges')

prop('C22', ['flow', 'bind'],
     'no function of the library reaches input, output, the clock, randomness, threads, thread-local or mutable global '
     'state; no type or closure of the crate carries state that changes behind a shared reference; every public type and '
     'bound function is Send and Sync; a second call of a bound function gives what the first gave',
     'An effect analysis over the calls, statics and types of every function of the library; a witness module that only '
     'compiles when the public types are Send and Sync; abstract interpretation of two calls of each bound function.',
     assume=['User-supplied functions are pure.', 'The order in which an error lists several names is unspecified.'],
     floor=200, tech='static analysis: effect analysis over the call graph, types and statics; type-level witness')

prop('C27', ['eval', 'simplify', 'eq', 'vars', 'disp', 'parse', 'bind', 'names'],
     'every recursive call is on a part of the argument (or on something with fewer nodes, by a size measure that results '
     'of simplification do not exceed); every turn of a loop consumes input or an element of a collection, and no loop '
     'comes round to the same state',
     'Abstract interpretation of every part of the library; the size of each recursive call\'s argument is compared, as a '
     'linear form, with that of the caller\'s; parsing calls at the same position must not form a cycle; the state at '
     'each loop head is compared with that of the turn before.',
     assume=[IND, INPUT], floor=2000)

prop('C30', ['eval', 'simplify', 'eq', 'vars', 'disp', 'fact', 'bind', 'names', 'macro'],
     'no abstract path of evaluation, simplification, binding, comparison, display, cloning or a built-in reaches a panic, '
     'a failed assertion or an overflow check that can fail, except unchecked evaluation of a missing variable',
     'Abstract interpretation of every operation on every node kind with opaque children (structural induction).',
     assume=[IND, 'Functions supplied by users do not panic.'], floor=1000)


NOT_APPLICABLE = {
    'C32': 'Accuracy of libm results (ulp error of sin, powf, tgamma ...) is a property of the platform\'s numerical '
           'code, not of the shape of this crate; which function is called is decided under C13.',
    'C33': 'Whether deep nesting exhausts the stack depends on frame sizes chosen by code generation and on the '
           'caller\'s stack; no static bound from source is in reach, and the recursion is unbounded by design.',
}
