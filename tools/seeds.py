#!/usr/bin/env python3
"""seeds.py [ID...]: (re)writes the planted bugs under /verif/seeded from the table below."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import make

SEEDS = []


def seed(sid, prop, edits, main, needs, breaks, **kw):
    SEEDS.append((sid, prop, edits, main, needs, breaks, kw))


PRE = 'use std::collections::HashMap;\nuse xprs::{Parser, Xprs};\n'

# ------------------------------------------------------------------ evaluation / simplification
seed('b01', 'C02', [('src/xprs.rs', '''                    Operator::Power => left.powf(right),
                    Operator::Modulo => left % right,
                    Operator::Factorial => unreachable!(),
                }
            },
            Element::Function(ref func) => {
                let args = func
                    .args
                    .iter()
                    .map(|arg| self.eval_element_unchecked(arg))''', '''                    Operator::Power => left.powf(right),
                    Operator::Modulo => left.rem_euclid(right),
                    Operator::Factorial => unreachable!(),
                }
            },
            Element::Function(ref func) => {
                let args = func
                    .args
                    .iter()
                    .map(|arg| self.eval_element_unchecked(arg))''')], PRE + '''
fn main() {
    let x = Xprs::try_from("a % 3").unwrap();
    assert_eq!(x.eval_unchecked(&HashMap::from([("a", -4.0)])), -1.0);
}''', 'a modulo with a negative left operand, through the unchecked evaluator or a bound function',
     'eval_unchecked computes the euclidean remainder while eval computes the truncated one')
seed('b02', 'C05', [('src/element/simplify.rs', '''            Operator::Minus => match self.operand {
                Element::Number(num) => Element::Number(-num),
                Element::UnOp(_)
                | Element::BinOp(_)
                | Element::Function(_)''', '''            Operator::Minus => match self.operand {
                Element::Number(num) => Element::Number(-num),
                // -(a op n) => a op (-n)
                Element::BinOp(inner)
                    if matches!(inner.rhs, Element::Number(_))
                        && matches!(
                            inner.op,
                            Operator::Times | Operator::Divide | Operator::Modulo
                        ) =>
                {
                    let BinOp { op, lhs, rhs } = *inner;
                    let neg = UnOp::new_element(Operator::Minus, rhs).simplify();
                    BinOp::new_element(op, lhs, neg)
                },
                Element::UnOp(_)
                | Element::BinOp(_)
                | Element::Function(_)''')], PRE + '''
fn main() {
    let x = Xprs::try_from("-(a % 3)").unwrap();
    assert_eq!(x.eval(&HashMap::from([("a", 5.0)])), Ok(-2.0));
    let y = Xprs::try_from("-(a * 3)").unwrap();
    assert_eq!(y.eval(&HashMap::from([("a", 5.0)])), Ok(-15.0));
}''', 'an expression negating a remainder by a constant, e.g. -(a % 3)',
     'the simplifier pushes the minus sign into the divisor of a remainder, which changes its sign')
seed('b03', 'C04', [('src/xprs.rs', '''                let left = self.eval_element(&binop.lhs)?;
                let right = self.eval_element(&binop.rhs)?;''', '''                let left = self.eval_element(&binop.lhs)?;
                // 1 ^ b is 1 whatever b is
                if binop.op == Operator::Power && left == 1.0 {
                    return Ok(left);
                }
                let right = self.eval_element(&binop.rhs)?;''')], PRE + '''
fn main() {
    let x = Xprs::try_from("a ^ b").unwrap();
    assert!(x.eval(&HashMap::from([("a", 1.0)])).is_err());
    assert!(x.eval(&HashMap::from([("a", 2.0)])).is_err());
}''', 'a power whose base evaluates to exactly 1 and whose exponent holds a variable that is not provided',
     'eval succeeds although a variable of the expression is missing')
seed('b04', 'C19', [('src/element/simplify.rs', 'Self::Variable(name) if name == var.0 => Self::Number(var.1),',
                     'Self::Variable(name) if name.eq_ignore_ascii_case(var.0) => Self::Number(var.1),')], PRE + '''
fn main() {
    let x = Xprs::try_from("a + A").unwrap().simplify_for(("a", 1.0));
    assert_eq!(x.eval(&HashMap::from([("A", 5.0)])), Ok(6.0));
}''', 'two variables whose names differ by case only', 'substituting one variable also replaces another')
seed('b06', 'C05', [('src/element/binop.rs', '''                Operator::Divide
                | Operator::Minus
                | Operator::Modulo
                | Operator::Power => {''', '''                Operator::Divide | Operator::Minus | Operator::Power => {'''),
                    ('src/element/binop.rs', '                Operator::Plus | Operator::Times => {',
                     '                Operator::Plus | Operator::Times | Operator::Modulo => {')], PRE + '''
fn main() {
    let x = Xprs::try_from("(a % b) - (b % a)").unwrap();
    assert_eq!(x.eval(&HashMap::from([("a", 7.0), ("b", 4.0)])), Ok(-1.0));
}''', 'subtracting two remainders whose operands are swapped, e.g. (a % b) - (b % a)',
     'equality treats % as commutative, so the difference is simplified to 0')

seed('b05', 'C06', [('src/element/simplify.rs', 'Element::Number(num) => Element::Number(-num),',
                     'Element::Number(num) => Element::Number(0.0 - num),')], PRE + '''
fn main() {
    let x = Xprs::try_from("1 / -a").unwrap();
    let y = Xprs::try_from("1 / sum(-0)").unwrap();
    let z = Xprs::try_from("atan2(-0, 0 - 1)").unwrap();
    assert_eq!(x.eval(&HashMap::from([("a", 0.0)])), Ok(f64::NEG_INFINITY));
    assert!(y.eval_no_vars().unwrap().is_infinite());
    assert_eq!(z.eval_no_vars(), Ok(-std::f64::consts::PI));
}''', 'an expression without variables in which zero is negated and the sign of zero shows, e.g. atan2(-0, 0 - 1)',
     'constant folding of -0 gives 0, evaluation gives -0')
# ------------------------------------------------------------------ parser
seed('b07', 'C11', [('src/parser.rs', 'self.skip_while(u8::is_ascii_whitespace);',
                     "self.skip_while(|ch| matches!(ch, b' ' | b'\\t' | b'\\r' | b'\\n'));")], PRE + '''
fn main() {
    assert_eq!(Xprs::try_from("1 +\\x0c2").unwrap().eval_no_vars(), Ok(3.0));
    assert_eq!(Xprs::try_from("1 +\\t\\r\\n 2").unwrap().eval_no_vars(), Ok(3.0));
}''', 'a form feed between two tokens', 'a form feed is no longer a blank')
seed('b08', 'C10', [('src/parser.rs', 'if let Some(&tok) = parser_impl.next_trim() {',
                     '// inputs coming from C may be NUL terminated\n        if let Some(&tok) = parser_impl.next_trim().filter(|tok| **tok != b\'\\0\') {')], PRE + '''
fn main() {
    assert!(Xprs::try_from("1 + 2 )").is_err());
    assert!(Xprs::try_from("1 + 2 \\0 * oops").is_err());
}''', 'an input holding a NUL byte after a complete expression', 'everything after a NUL byte is dropped silently')
seed('b09', 'C08', [('src/parser.rs', "b'0'..=b'9' if !matches!(*current_atom, Element::Number(_)) => {",
                     "b'0'..=b'9'\n                if !matches!(\n                    *current_atom,\n                    Element::Number(_) | Element::BinOp(_)\n                ) =>\n            {")], PRE + '''
fn main() {
    let v = HashMap::from([("a", 2.0), ("b", 3.0)]);
    assert_eq!(Xprs::try_from("a 2").unwrap().eval(&v), Ok(4.0));
    assert_eq!(Xprs::try_from("(a + b) 2").unwrap().eval(&v), Ok(10.0));
}''', 'a digit right after a bracketed sum or another binary operation',
     'a digit after a binary operation is no longer an implicit multiplication')
seed('b10', 'C07', [('src/parser.rs', 'let operand = self.element(precedence::UNOP_PRECEDENCE)?;',
                     'let operand = self.element(\n                    precedence::UNOP_PRECEDENCE\n                        + usize::from(self.input.get(self.cursor.wrapping_sub(2)) == Some(&b\'^\')),\n                )?;')], PRE + '''
fn main() {
    let v = HashMap::from([("a", 3.0)]);
    assert_eq!(Xprs::try_from("2^-a").unwrap().eval(&v), Ok(0.125));
    assert_eq!(Xprs::try_from("-a^2").unwrap().eval(&v), Ok(-9.0));
    // 2 ^ (-(1 ^ a))
    assert_eq!(Xprs::try_from("4^-1^a").unwrap().eval(&v), Ok(0.25));
    assert_eq!(Xprs::try_from("2^-2^a").unwrap().eval(&v), Ok(2f64.powf(-8.0)));
}''', 'a signed exponent that itself has an exponent, written without blanks: 2^-2^a',
     'the sign in an exponent binds tighter than ^, (2^-2)^a instead of 2^-(2^a)')
seed('b11', 'C09', [('src/parser.rs', '''        // Right-associative unary operators
        if self.consume_if_eq(b'!') {''', '''        // Right-associative unary operators
        if self.consume_if_eq(b'!') || self.consume_if_eq(b'!') {'''),
                    ('src/parser.rs', '''            el = BinOp::new_element(op, el, rhs);
        }

        Ok(el)''', '''            el = BinOp::new_element(op, el, rhs);
        }

        // a bracketed operand can carry a factorial of its own
        if matches!(el, Element::UnOp(ref unop) if unop.op == Operator::Factorial)
            && self.consume_if_eq(b'!')
        {
            el = UnOp::new_element(Operator::Factorial, el);
        }

        Ok(el)''')], PRE + '''
fn main() {
    assert!(Xprs::try_from("3!!").is_err());
    assert!(Xprs::try_from("(3!)!").is_ok());
}''', 'a doubled factorial', 'a second ! is accepted after a factorial although only one is allowed')
seed('b12', 'C12', [('src/parser.rs', '''            .ctx
            .get(name)
            .cloned()''', '''            .ctx
            .get(name)
            .or_else(|| self.ctx.get(name.trim_end_matches('\\'')))
            .cloned()''')], PRE + '''
fn main() {
    let p = Parser::new_with_ctx(xprs::Context::default().with_var("x", 1.0));
    let y = p.parse("x' + x").unwrap();
    assert_eq!(y.eval(&HashMap::from([("x'", 5.0)])), Ok(6.0));
}''', 'a primed name whose unprimed form is defined in the context', "x' means x when the context defines x")
seed('b13', 'C14', [('src/parser.rs', 'match args.len().cmp(&nb_args.into()) {',
                     'match (args.len() as u8).cmp(&nb_args) {')], PRE + '''
fn main() {
    let args = vec!["1"; 257].join(",");
    assert!(Xprs::try_from(format!("sin({args})").as_str()).is_err());
    assert!(Xprs::try_from("sin(1, 2)").is_err());
}''', 'a call with 256 more arguments than declared', 'the number of arguments is compared modulo 256')
seed('b14', 'C16', [('src/parser.rs', 'if let Some(expected) = self.ctx.get_expected_vars() {',
                     'if let Some(expected) =\n            self.ctx.get_expected_vars().filter(|expected| !expected.is_empty())\n        {')], PRE + '''
fn main() {
    let p = Parser::new_with_ctx(xprs::Context::default().with_expected_vars([].into()));
    assert!(p.parse("1 + pi").is_ok());
    assert!(p.parse("1 + x").is_err());
}''', 'an empty set of expected variables', 'an empty restriction is taken for no restriction')
seed('b15', 'C23', [('src/parser.rs', '''        let num = ident.replace('_', "").parse().map_err(
            #[cold]
            |_err| ParseError::new_malformed_number(self, ident),
        )?;''', '''        let clean = ident.replace('_', "");
        let num = clean.parse().map_err(
            #[cold]
            |_err| ParseError::new_malformed_number(self, &clean),
        )?;''')], PRE + '''
use miette::Diagnostic;
fn main() {
    let e = Parser::default().parse("1 + 1_0.0.2").unwrap_err();
    let s = e.labels().unwrap().next().unwrap();
    assert_eq!((s.offset(), s.len()), (4, 7));
    assert!(e.to_string().contains("1_0.0.2"));
}''', 'a malformed number that holds an underscore',
     'the span of the error starts too late and the reported text is not the text of the input')
seed('b16', 'C27', [('src/parser.rs', "        self.skip_while(|&ch| matches!(ch, b'0'..=b'9' | b'.' | b'_'));",
                     '''        self.skip_while(|&ch| matches!(ch, b'0'..=b'9' | b'.'));
        // digit groups
        while self.current() == Some(&b'_') {
            let group = self.next_at(1).is_some_and(|&ch| matches!(ch, b'_' | b'0'..=b'9' | b'.'));
            self.cursor += usize::from(group || self.next().is_none());
            self.skip_while(|&ch| matches!(ch, b'0'..=b'9' | b'.'));
        }''')], PRE + '''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(Xprs::try_from("1_000_ + 2").map(|x| x.eval_no_vars().unwrap())));
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(10)), Ok(Ok(1002.0)));
}''', 'a number that ends in an underscore and is followed by something else', 'parsing 1_000_ + 2 never ends')
seed('b17', 'C28', [('src/parser.rs', '        self.skip_while(u8::is_ascii_digit);\n        let end = self.cursor;',
                     "        self.skip_while(|&ch| matches!(ch, b'0'..=b'9' | b'_'));\n        let end = self.cursor;")], PRE + '''
fn main() {
    assert_eq!(Xprs::try_from("2e3").unwrap().eval_no_vars(), Ok(2000.0));
    assert!(Xprs::try_from("2e1_0").is_err());
}''', 'an underscore among the digits of an exponent', 'underscores are accepted in exponents')
seed('b18', 'C01', [('src/parser.rs', '''        let is_exponent_with_sign = might_be_exponent
            && matches!(self.next(), Some(&b'+' | &b'-'))
            && matches!(self.next_at(2), Some(&(b'0'..=b'9')));
''', '''        #[allow(clippy::indexing_slicing)]
        let is_exponent_with_sign = might_be_exponent
            && matches!(self.next(), Some(&b'+' | &b'-'))
            && self.input[self.cursor + 2].is_ascii_digit();
''')], PRE + '''
fn main() {
    assert!(Xprs::try_from("2e+").is_err());
    assert!(Xprs::try_from("2e+x").is_ok());
}''', 'an input that ends right after the sign of what looks like an exponent', 'parsing 2e+ panics')
seed('b19', 'C20', [('src/parser.rs', "|&ch| matches!(ch, b'_' | b'\\'' | b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9'),",
                     "|&ch| matches!(ch, b'_' | b'\\'' | b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | 0xC2 | 0xC3),")], PRE + '''
fn main() {
    if let Ok(x) = Xprs::try_from("caf\\u{c3}") {
        for v in &x.vars {
            assert!(std::str::from_utf8(v.as_bytes()).is_ok());
        }
    }
    if let Ok(x) = Xprs::try_from("x\\u{e9}") {
        for v in &x.vars {
            assert!(std::str::from_utf8(v.as_bytes()).is_ok());
        }
    }
    let e = Xprs::try_from("x\\u{e9} + 1").unwrap_err();
    assert!(e.to_string().contains('\\u{e9}'), "{e}");
}''', 'a name followed by an accented letter', 'a name is cut in the middle of a character: an invalid str is made')
# ------------------------------------------------------------------ tree
seed('b20', 'C03', [('src/xprs.rs', '''                let operand = self.eval_element_unchecked(&unop.operand);
                #[allow(clippy::unreachable)]
                match unop.op {
                    Operator::Plus => operand,
                    Operator::Minus => -operand,''', '''                let operand = self.eval_element_unchecked(&unop.operand);
                #[allow(clippy::unreachable)]
                match unop.op {
                    Operator::Plus => operand,
                    Operator::Minus => 0.0 - operand,''')], PRE + '''
fn main() {
    let x = Xprs::try_from("1 / -a").unwrap();
    let v = HashMap::from([("a", 0.0)]);
    assert_eq!(x.eval(&v).unwrap(), x.eval_unchecked(&v));
}''', 'negating a zero where the sign of zero shows', 'eval_unchecked gives 0 for -0, eval gives -0')
seed('b21', 'C15', [('src/element/mod.rs', '''                binop.lhs.find_variables(vars);
                binop.rhs.find_variables(vars);''', '''                binop.lhs.find_variables(vars);
                // the operands of a power are often the same variable
                if binop.op != Operator::Power || binop.lhs.is_number() == binop.rhs.is_number() {
                    binop.rhs.find_variables(vars);
                }'''), ('src/element/mod.rs', "impl<'a> Element<'a> {", '''impl Element<'_> {
    /// Whether the element is a literal.
    const fn is_number(&self) -> bool {
        matches!(*self, Self::Number(_))
    }
}

impl<'a> Element<'a> {'''), ('src/element/mod.rs', 'use std::collections::HashSet;', 'use crate::token::Operator;\nuse std::collections::HashSet;')], PRE + '''
fn main() {
    assert_eq!(Xprs::try_from("x ^ y").unwrap().vars, ["x", "y"].into());
    assert_eq!(Xprs::try_from("2 ^ y").unwrap().vars, ["y"].into());
}''', 'a power with a literal base and a variable exponent', 'the variables of the exponent of a literal are not collected')
seed('b22', 'C17', [('src/context.rs', '''        mut self,
        symbols: HashMap<&'names str, Symbol>,
    ) -> Self {
        self.symbols = symbols;
        self''', '''        mut self,
        symbols: HashMap<&'names str, Symbol>,
    ) -> Self {
        let previous = core::mem::replace(&mut self.symbols, symbols);
        self.symbols.extend(previous);
        self''')], PRE + '''
fn main() {
    let c = xprs::Context::default().with_symbols(HashMap::from([("x", 2.0.into())]));
    assert_eq!(c.get("x"), Some(&2.0.into()));
    let c = xprs::Context::default().with_var("x", 1.0).with_symbols(HashMap::from([("x", 2.0.into())]));
    assert_eq!(c.get("x"), Some(&2.0.into()));
}''', 'setting the symbol table of a context that already defines one of its names', 'the older definition wins')
seed('b23', 'C18', [('src/xprs.rs', '''            1 => Some(Self::OneVariable(missing_vars_str)),''', '''            1 => (!missing_vars_str.starts_with('_'))
                .then_some(Self::OneVariable(missing_vars_str)),'''),
                    ('src/xprs.rs', '''            count += 1;
            missing_vars_str.push_str(missing_var);''', '''            count += usize::from(!missing_var.ends_with('_'));
            missing_vars_str.push_str(missing_var);''')], PRE + '''
fn main() {
    let x = Xprs::try_from("x_ + y").unwrap();
    assert!(x.bind("y").is_err());
}''', 'a missing variable whose name ends in an underscore', 'binding succeeds although a variable is missing')
seed('b24', 'C24', [('src/element/mod.rs', 'Self::Number(num) => write!(fmt, "{num}"),',
                     '''Self::Number(num) if num > 1e16 => write!(fmt, "{num:e}"),
            Self::Number(num) if num.fract() == 0.0 => {
                #[allow(clippy::as_conversions, clippy::cast_possible_truncation)]
                let whole = num as i32;
                write!(fmt, "{whole}")
            },
            Self::Number(num) => write!(fmt, "{num}"),''')], PRE + '''
fn main() {
    assert_eq!(Xprs::try_from("x + 3").unwrap().to_string(), "(x + 3)");
    assert_eq!(Xprs::try_from("x + 3000000000").unwrap().to_string(), "(x + 3000000000)");
}''', 'a whole number above 2147483647', 'large whole numbers are displayed as 2147483647')
seed('b25', 'C25', [('src/token/function.rs', "#[derive(Debug, PartialEq, Clone)]\n#[non_exhaustive]\npub struct Function {",
                     "#[derive(Debug, Clone)]\n#[non_exhaustive]\npub struct Function {"),
                    ('src/token/function.rs', 'impl PartialOrd for Function {', '''impl PartialEq for Function {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        // function pointers have no reliable identity
        self.name == other.name && self.nb_args == other.nb_args
    }
}

impl PartialOrd for Function {''')], PRE + '''
fn main() {
    let c = |k: f64| Parser::new_with_ctx(xprs::Context::default().with_fn(xprs::Function::new_dyn("f", move |a: &[f64]| a[0] * k, Some(1))));
    let (p, q) = (c(1.0), c(2.0));
    assert!(p.parse("f(x)").unwrap() != q.parse("f(x)").unwrap());
    assert!(p.parse("f(x)").unwrap() == p.parse("f(x)").unwrap());
}''', 'two functions of the same name and number of arguments from different contexts', 'calls of different functions are equal')
seed('b26', 'C26', [('src/utils/factorial.rs', '''    if num.fract() != ZERO {
        return f64::NAN;
    }

    // is enough to max out a f64
    if num > MAX {
        return f64::INFINITY;
    }''', '''    // is enough to max out a f64
    if num > MAX {
        return f64::INFINITY;
    }

    if num.fract() != ZERO {
        return f64::NAN;
    }''')], PRE + '''
fn main() {
    assert!(Xprs::try_from("a!").unwrap().eval(&HashMap::from([("a", 0.5)])).unwrap().is_nan());
    assert!(Xprs::try_from("a!").unwrap().eval(&HashMap::from([("a", 170.5)])).unwrap().is_nan());
}''', 'the factorial of a fractional number above 170', 'it is infinite instead of NaN')
seed('b27', 'C29', [('src/token/function.rs', 'move |args| $function(args[0], args[1], args[2], args[3], args[4], args[5], args[6], args[7])\n',
                     'move |args| $function(args[0], args[1], args[2], args[3], args[4], args[5], args[7], args[6])\n')], PRE + '''
fn g(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64) -> f64 { a + b * 10. + c * 100. + d * 1e3 + e * 1e4 + f * 1e5 + g * 1e6 + h * 1e7 }
fn main() {
    let f = xprs::xprs_fn!("g", g, 8);
    assert_eq!((f.func)(&[1., 2., 3., 4., 5., 6., 7., 8.]), 87654321.0);
}''', 'a wrapped function of eight arguments', 'the last two arguments are swapped')
seed('b28', 'C22', [('src/utils/factorial.rs', '''    if num < ZERO {
        return f64::NAN;
    }
''', '''    static CACHE: [AtomicU64; 32] = [const { AtomicU64::new(0) }; 32];

    if num < ZERO {
        return f64::NAN;
    }

    #[allow(
        clippy::as_conversions,
        clippy::cast_possible_truncation,
        clippy::cast_sign_loss
    )]
    if let Some(cached) = CACHE.get(num as usize) {
        let bits = cached.load(Ordering::Relaxed);
        if bits != 0 {
            return f64::from_bits(bits);
        }
        if num.fract() == ZERO {
            let index = trust_me!(num.to_int_unchecked::<usize>());
            #[allow(clippy::indexing_slicing)]
            let value = FACTORIALS[index];
            cached.store(value.to_bits(), Ordering::Relaxed);
            return value;
        }
    }
'''), ('src/utils/factorial.rs', 'use crate::utils::hidden_macros::trust_me;', 'use crate::utils::hidden_macros::trust_me;\nuse core::sync::atomic::{AtomicU64, Ordering};')], PRE + '''
fn main() {
    let x = Xprs::try_from("a!").unwrap();
    let at = |v: f64| x.eval(&HashMap::from([("a", v)])).unwrap();
    let before = at(7.5);
    at(7.0);
    assert_eq!(before.to_bits(), at(7.5).to_bits());
}''', 'the factorial of a fractional number after that of its integer part', 'what was computed earlier changes the result')
seed('b29', 'C30', [('src/xprs.rs', '''                    Operator::Power => left.powf(right),
                    Operator::Modulo => left % right,
                    Operator::Factorial => unreachable!(),
                }
            },
            Element::Function(ref func) => {
                let args = func
                    .args
                    .iter()
                    .map(|arg| self.eval_element(arg))''', '''                    Operator::Power if right.fract() == 0.0 && right.abs() < 1e12 => {
                        #[allow(clippy::as_conversions, clippy::cast_possible_truncation)]
                        left.powi((right as i64).try_into().expect("exponent out of range"))
                    },
                    Operator::Power => left.powf(right),
                    Operator::Modulo => left % right,
                    Operator::Factorial => unreachable!(),
                }
            },
            Element::Function(ref func) => {
                let args = func
                    .args
                    .iter()
                    .map(|arg| self.eval_element(arg))''')], PRE + '''
fn main() {
    let x = Xprs::try_from("a ^ b").unwrap();
    assert_eq!(x.eval(&HashMap::from([("a", 1.0), ("b", 1e10)])), Ok(1.0));
}''', 'a whole exponent between 2^31 and 10^12', 'evaluating panics')
seed('b30', 'C31', [('src/bin/repl.rs', '        input.clear();\n', '        if !input.ends_with("\\\\\\n") {\n            input.clear();\n        }\n')], '''
use std::io::Write;
use std::process::{Command, Stdio};
fn main() {
    let repo = env!("REPO");
    let mut c = Command::new("cargo").args(["run", "-q", "--offline", "--bin", "repl", "--manifest-path"]).arg(format!("{repo}/Cargo.toml"))
        .stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
    c.stdin.take().unwrap().write_all(b"1 + \\\\\\n2\\nexit\\n").unwrap();
    let o = String::from_utf8(c.wait_with_output().unwrap().stdout).unwrap();
    assert!(o.contains("Evaluated: 2"), "{o}");
}''', 'a line that ends in a backslash', 'the next line is parsed together with it', repl=True)
seed('b31', 'C13', [('src/utils/built_in_functions.rs', 'args.iter().fold(f64::NEG_INFINITY, |acc, &x| acc.max(x))',
                     'args.iter().fold(f64::MIN_POSITIVE, |acc, &x| acc.max(x))')], PRE + '''
fn main() {
    assert_eq!(Xprs::try_from("max(1, 2)").unwrap().eval_no_vars(), Ok(2.0));
    assert_eq!(Xprs::try_from("max(a, b)").unwrap().eval(&HashMap::from([("a", -1.0), ("b", -2.0)])), Ok(-1.0));
}''', 'the maximum of negative numbers', 'max never gives less than the smallest positive number')
seed('b32', 'C19', [('src/xprs.rs', '''        for &var in vars {
            root = root.simplify_for(var);
        }''', '''        for &var in vars.iter().rev() {
            root = root.simplify_for(var);
        }''')], PRE + '''
fn main() {
    let x = Xprs::try_from("a + b").unwrap();
    assert_eq!(x.clone().simplify_for_multiple(&[("a", 1.0), ("a", 2.0)]), x.simplify_for(("a", 1.0)).simplify_for(("a", 2.0)));
}''', 'a variable listed twice with different values', 'the last value wins instead of the first')
seed('b33', 'C21', [('src/xprs.rs', '''        let root = mem::replace(&mut self.root, Element::Number(f64::NAN));
        self.root = root.simplify_for(var);
        self.refresh_vars();
    }

    /// Simple wrapper''', '''        // SAFETY: the root is written back right after
        let root = unsafe { core::ptr::read(&self.root) };
        let root = root.simplify_for(var);
        unsafe { core::ptr::write(&mut self.root, root) };
        self.refresh_vars();
    }

    /// Simple wrapper''')], PRE + '''
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct T;
impl T { fn new() -> T { LIVE.fetch_add(1, SeqCst); T } }
impl Drop for T { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
fn main() {
    let t = T::new();
    let f = xprs::Function::new_dyn("f", move |_: &[f64]| { let _ = &t; panic!("user") }, Some(1));
    let p = Parser::new_with_ctx(xprs::Context::default().with_fn(f));
    let mut x = p.parse("f(x) + y").unwrap();
    let keep = p.parse("f(x)").unwrap();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.simplify_for_in_place(("x", 1.0)))).is_err());
    std::mem::forget(keep);
    // what is left of the expression owns nothing that was dropped
    assert_ne!(x.to_string(), "(f(x) + y)");
}''', 'a user function that panics during simplify_for_in_place', 'the tree is dropped twice')
seed('b34', 'C04', [('src/xprs.rs', '''                let args = func
                    .args
                    .iter()
                    .map(|arg| self.eval_element(arg))
                    .collect::<Result<Vec<_>, EvalError>>()?;
                func.call(&args)''', '''                let mut args = Vec::with_capacity(func.args.len());
                for arg in &func.args {
                    match self.eval_element(arg) {
                        Ok(value) => args.push(value),
                        // the first argument decides of variadic functions
                        Err(err) if args.is_empty() => return Err(err),
                        Err(_) if func.desc.nb_args.is_none() => break,
                        Err(err) => return Err(err),
                    }
                }
                func.call(&args)''')], PRE + '''
fn main() {
    let x = Xprs::try_from("sum(a, b)").unwrap();
    assert!(x.eval(&HashMap::from([("b", 1.0)])).is_err());
    assert!(x.eval(&HashMap::from([("a", 1.0)])).is_err());
}''', 'a variadic call whose second argument holds a variable that is not provided', 'evaluation succeeds with fewer arguments')

def main():
    want = sys.argv[1:]
    for sid, prop, edits, mainrs, needs, breaks, kw in SEEDS:
        if want and sid not in want:
            continue
        w = tempfile.mkdtemp(prefix='mkseed-', dir='/tmp')
        try:
            subprocess.run('git -C /repo archive HEAD | tar x -C %s && git -C %s init -q && git -C %s add -A && '
                           'git -C %s -c user.name=x -c user.email=x@x commit -qm x' % (w, w, w, w), shell=True, check=True)
            for f, old, new in edits:
                p = os.path.join(w, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(sid, f, 'found', s.count(old), 'times:', old[:60].strip())
                    break
                open(p, 'w').write(s.replace(old, new))
            else:
                d = subprocess.run('git -C %s diff' % w, shell=True, stdout=subprocess.PIPE, text=True).stdout
                make(sid, prop, needs, breaks, mainrs, d, **kw)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
