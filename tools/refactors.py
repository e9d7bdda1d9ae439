#!/usr/bin/env python3
"""refactors.py [--tests] [-p PROPS] [ID...]: applies behaviour-preserving edits to a scratch copy of /repo and runs
the checks, which have to stay quiet (UNDECIDED lines are shown: they are permitted, but a loss of strength)."""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def refac(rid, *edits):
    R.append((rid, edits))


P = 'src/parser.rs'
refac('r01-skip-while-count', (P, '''        while self.current().is_some_and(predicate) {
            self.cursor += 1;
        }''', '''        let rest = self.input.get(self.cursor..).unwrap_or_default();
        self.cursor += rest.iter().take_while(|ch| predicate(ch)).count();'''))
refac('r02-skip-while-loop', (P, '''        while self.current().is_some_and(predicate) {
            self.cursor += 1;
        }''', '''        loop {
            match self.current() {
                Some(ch) if predicate(ch) => self.cursor += 1,
                _ => return,
            }
        }'''))
refac('r03-element-loop', (P, '''        while let Some((op, op_precedence)) =
            self.get_operator_infos(&el, precedence)
        {
            let rhs = self.element(op_precedence)?;
            el = BinOp::new_element(op, el, rhs);
        }

        Ok(el)''', '''        loop {
            match self.get_operator_infos(&el, precedence) {
                None => return Ok(el),
                Some((op, op_precedence)) => {
                    el = self.binary(op, el, op_precedence)?;
                },
            }
        }'''), (P, '''    /// Parses an atomic element of the mathematical expression.
''', '''    /// Parses the right operand of an operator.
    fn binary(
        &mut self,
        op: Operator,
        lhs: Element<'input>,
        op_precedence: usize,
    ) -> Result<Element<'input>, ParseError> {
        self.element(op_precedence)
            .map(|rhs| BinOp::new_element(op, lhs, rhs))
    }

    /// Parses an atomic element of the mathematical expression.
'''))
refac('r04-consume-if', (P, '''        let eq = self.next_trim() == Some(&tok);
        self.cursor += usize::from(eq);
        eq''', '''        match self.next_trim() {
            Some(&found) if found == tok => {
                self.cursor += 1;
                true
            },
            _ => false,
        }'''))
refac('r05-arguments', (P, '''        let mut args = Vec::new();

        loop {
            let arg = self.argument()?;
            args.push(arg);

            // expect either a comma or a closing parenthesis
            match self.next_trim() {
                Some(&b',') => self.cursor += 1,
                Some(&b')') => break,
                Some(&tok) => {
                    yeet!(ParseError::new_unexpected_token(self, tok))
                },
                None => {
                    yeet!(ParseError::new_unexpected_end_of_expression(self))
                },
            }
        }
        Ok(args)''', '''        let mut args = vec![self.argument()?];
        while self.consume_if_eq(b',') {
            args.push(self.argument()?);
        }
        match self.current() {
            Some(&b')') => Ok(args),
            Some(&tok) => Err(ParseError::new_unexpected_token(self, tok)),
            None => Err(ParseError::new_unexpected_end_of_expression(self)),
        }'''))
refac('r06-error-helper', (P, '''    /// Creates a new [`ParseError`] for an unexpected end of expression.
    #[cold]
    fn new_unexpected_end_of_expression(parser: &ParserImpl) -> Self {
        Self {
            kind: ErrorKind::UnexpectedEndOfExpression,
            // - 1 because we want to point to the last character
            // (without it, we would point to a `None` value)
            span: parser.cursor.saturating_sub(1).into(),
            src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
        }
    }

    /// Creates a new [`ParseError`] for an unexpected token.
    #[cold]
    fn new_unexpected_token(parser: &ParserImpl, tok: u8) -> Self {
        Self {
            kind: ErrorKind::UnexpectedToken(parser.current_char(tok)),
            span: parser.cursor.into(),
            src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
        }
    }
''', '''    /// Creates an error.
    #[cold]
    fn at<S: Into<miette::SourceSpan>>(
        parser: &ParserImpl,
        kind: ErrorKind,
        span: S,
    ) -> Self {
        Self {
            kind,
            span: span.into(),
            src: String::from(trust_me!(str::from_utf8_unchecked(
                parser.input
            ))),
        }
    }

    /// Creates a new [`ParseError`] for an unexpected end of expression.
    #[cold]
    fn new_unexpected_end_of_expression(parser: &ParserImpl) -> Self {
        let last = if parser.cursor == 0 {
            0
        } else {
            parser.cursor - 1
        };
        Self::at(parser, ErrorKind::UnexpectedEndOfExpression, last)
    }

    /// Creates a new [`ParseError`] for an unexpected token.
    #[cold]
    fn new_unexpected_token(parser: &ParserImpl, tok: u8) -> Self {
        let ch = parser.current_char(tok);
        Self::at(parser, ErrorKind::UnexpectedToken(ch), parser.cursor)
    }
'''))
refac('r07-atom-helpers', (P, '''            op @ (b'+' | b'-') => {
                self.cursor += 1;
                #[allow(clippy::unreachable)]
                let operator = match op {
                    b'+' => Operator::Plus,
                    b'-' => Operator::Minus,
                    _ => unreachable!(),
                };
                let operand = self.element(precedence::UNOP_PRECEDENCE)?;
                UnOp::new_element(operator, operand)
            },
            /* Parenthesis */
            b'(' => {
                self.cursor += 1;
                let el = self.element(precedence::NO_PRECEDENCE)?;
                self.assert_eq_consume(b')')?;
                el
            },''', '''            b'+' => self.parse_sign(Operator::Plus)?,
            b'-' => self.parse_sign(Operator::Minus)?,
            /* Parenthesis */
            b'(' => self.parse_group()?,'''), (P, '''    /// Parses an identifier in the mathematical expression.
''', '''    /// Parses a signed operand, the cursor is on the sign.
    fn parse_sign(
        &mut self,
        operator: Operator,
    ) -> Result<Element<'input>, ParseError> {
        self.cursor += 1;
        let operand = self.element(precedence::UNOP_PRECEDENCE)?;
        Ok(UnOp::new_element(operator, operand))
    }

    /// Parses a parenthesised expression, the cursor is on the parenthesis.
    fn parse_group(&mut self) -> Result<Element<'input>, ParseError> {
        self.cursor += 1;
        let el = self.element(precedence::NO_PRECEDENCE);
        if el.is_ok() {
            self.assert_eq_consume(b')')?;
        }
        el
    }

    /// Parses an identifier in the mathematical expression.
'''))
refac('r08-number', (P, '''        let might_be_exponent = matches!(self.current(), Some(&b'e' | &b'E'));
        let is_exponent_with_sign = might_be_exponent
            && matches!(self.next(), Some(&b'+' | &b'-'))
            && matches!(self.next_at(2), Some(&(b'0'..=b'9')));
        let is_exponent =
            might_be_exponent && matches!(self.next(), Some(&(b'0'..=b'9')));

        self.cursor +=
            usize::from(is_exponent_with_sign) * 2 + usize::from(is_exponent);

        self.skip_while(u8::is_ascii_digit);
        let end = self.cursor;
''', '''        if let Some(&(b'e' | b'E')) = self.current() {
            let sign = match self.next() {
                Some(&(b'+' | b'-')) => 1,
                _ => 0,
            };
            if let Some(digit) = self.next_at(1 + sign) {
                if digit.is_ascii_digit() {
                    self.cursor += 1 + sign;
                    self.skip_while(u8::is_ascii_digit);
                }
            }
        }
        self.skip_while(|ch| ch.is_ascii_digit());
        let end = self.cursor;
'''))
refac('r09-number-slices', (P, '''        let might_be_exponent = matches!(self.current(), Some(&b'e' | &b'E'));
        let is_exponent_with_sign = might_be_exponent
            && matches!(self.next(), Some(&b'+' | &b'-'))
            && matches!(self.next_at(2), Some(&(b'0'..=b'9')));
        let is_exponent =
            might_be_exponent && matches!(self.next(), Some(&(b'0'..=b'9')));

        self.cursor +=
            usize::from(is_exponent_with_sign) * 2 + usize::from(is_exponent);

        self.skip_while(u8::is_ascii_digit);
        let end = self.cursor;
''', '''        match self.input[self.cursor..] {
            [b'e' | b'E', b'+' | b'-', b'0'..=b'9', ..] => self.cursor += 2,
            [b'e' | b'E', b'0'..=b'9', ..] => self.cursor += 1,
            _ => {},
        }
        self.skip_while(u8::is_ascii_digit);
        let end = self.cursor;
'''))
refac('r10-opinfos', (P, '''        if let Ok(op) = Operator::try_from(current_byte) {
            let op_p = precedence::get_for_op(op);
            if op_p <= precedence {
                return None;
            }
            self.cursor += 1;
            return Some((op, op_p));
        }

        match current_byte {
            // if multiplication precedence is lower than current precedence
            // we now we don't need implicit multiplication
            _ if IMPLICIT_MULTIPLICATION_INFO.1 <= precedence => None,
            // if it's an identifier or an opening parenthesis
            // we can consider its an implicit multiplication
            b'A'..=b'Z' | b'a'..=b'z' | b'(' => {
                Some(IMPLICIT_MULTIPLICATION_INFO)
            },
            // if it's a number implicit multiplication is
            // only possible if previous atom isn't a number
            b'0'..=b'9' if !matches!(*current_atom, Element::Number(_)) => {
                Some(IMPLICIT_MULTIPLICATION_INFO)
            },
            _ => None,
        }''', '''        let info = match Operator::try_from(current_byte) {
            Ok(op) => Some((op, precedence::get_for_op(op), 1)),
            Err(_) => {
                let implicit = match current_byte {
                    b'(' => true,
                    ch if ch.is_ascii_alphabetic() => true,
                    ch if ch.is_ascii_digit() => {
                        !matches!(*current_atom, Element::Number(_))
                    },
                    _ => false,
                };
                implicit.then_some((
                    IMPLICIT_MULTIPLICATION_INFO.0,
                    IMPLICIT_MULTIPLICATION_INFO.1,
                    0,
                ))
            },
        };
        let (op, op_p, width) = info?;
        if op_p > precedence {
            self.cursor += width;
            Some((op, op_p))
        } else {
            None
        }'''))
refac('r11-try-from-chain', ('src/token/operator.rs', '''        match value {
            b'+' => Ok(Self::Plus),
            b'-' => Ok(Self::Minus),
            b'*' => Ok(Self::Times),
            b'/' => Ok(Self::Divide),
            b'^' => Ok(Self::Power),
            b'%' => Ok(Self::Modulo),
            _ => Err("Operator not found"),
        }''', '''        const TABLE: [(u8, Operator); 6] = [
            (b'+', Operator::Plus),
            (b'-', Operator::Minus),
            (b'*', Operator::Times),
            (b'/', Operator::Divide),
            (b'^', Operator::Power),
            (b'%', Operator::Modulo),
        ];
        TABLE
            .iter()
            .find(|&&(ch, _)| ch == value)
            .map(|&(_, op)| op)
            .ok_or("Operator not found")'''))
refac('r12-identifier', (P, '''        let ident = self
            .ctx
            .get(name)
            .cloned()
            .map_or_else(|| Identifier::from_str(name), Into::into);
''', '''        let ident = if let Some(symbol) = self.ctx.get(name) {
            Identifier::from(symbol.clone())
        } else {
            Identifier::from_str(name)
        };
'''))
refac('r13-arity', (P, '''                if let Some(nb_args) = func.nb_args {
                    use core::cmp::Ordering::{Equal, Greater, Less};
                    match args.len().cmp(&nb_args.into()) {
                        Equal => (),
                        Less => {
                            yeet!(ParseError::new_too_few_arguments(
                                self,
                                nb_args,
                                args.len(),
                                identifier_start
                            ))
                        },
                        Greater => {
                            yeet!(ParseError::new_too_many_arguments(
                                self,
                                nb_args,
                                args.len(),
                                identifier_start
                            ))
                        },
                    }
                }
                FunctionCall::new_element(func, args)''', '''                let got = args.len();
                match func.nb_args {
                    Some(nb_args) if got < usize::from(nb_args) => {
                        yeet!(ParseError::new_too_few_arguments(
                            self,
                            nb_args,
                            got,
                            identifier_start
                        ))
                    },
                    Some(nb_args) if usize::from(nb_args) < got => {
                        yeet!(ParseError::new_too_many_arguments(
                            self,
                            nb_args,
                            got,
                            identifier_start
                        ))
                    },
                    _ => FunctionCall::new_element(func, args),
                }'''))
refac('r14-expected', (P, '''        if let Some(expected) = self.ctx.get_expected_vars() {
            if let Some(unknown_var) = xprs.vars.difference(expected).next() {
                yeet!(ParseError::new_variable_not_declared(
                    input,
                    unknown_var,
                    expected
                        .iter()
                        .map(|&str| str.to_owned())
                        .collect::<Vec<_>>()
                ))
            }
        }

        Ok(xprs)''', '''        let Some(expected) = self.ctx.get_expected_vars() else {
            return Ok(xprs);
        };
        match xprs.vars.iter().find(|var| !expected.contains(*var)) {
            None => Ok(xprs),
            Some(unknown_var) => {
                let mut known = Vec::with_capacity(expected.len());
                for var in expected {
                    known.push(String::from(*var));
                }
                Err(ParseError::new_variable_not_declared(
                    input,
                    unknown_var,
                    known,
                ))
            },
        }'''))
refac('r15-precedence-table', ('src/utils/precedence.rs', '''    match op {
        Operator::Plus | Operator::Minus => 1,
        Operator::Times | Operator::Divide | Operator::Modulo => 2,
        // uses `4` because `pejmdas` feature uses `3`
        Operator::Power => 4,
        Operator::Factorial => 5,
    }''', '''    LEVELS[op as usize]'''), ('src/utils/precedence.rs', '''/// Retrieves the precedence''', '''/// Levels, in the order of the operators.
const LEVELS: [usize; 7] = [1, 1, 2, 2, 4, 2, 5];

/// Retrieves the precedence'''))
refac('r16-next-byte', (P, '''    fn next_trim(&mut self) -> Option<&u8> {
        self.skip_while(u8::is_ascii_whitespace);
        self.current()
    }''', '''    fn next_trim(&mut self) -> Option<&u8> {
        while let Some(&(b' ' | b'\\t' | b'\\n' | b'\\r' | b'\\x0C')) =
            self.input.get(self.cursor)
        {
            self.cursor += 1;
        }
        self.input.get(self.cursor)
    }'''))
refac('r17-position', (P, '''        let start = self.cursor;
        self.skip_while(predicate);
        let end = self.cursor;
        trust_me!(
            #[allow(clippy::indexing_slicing)]
            str::from_utf8_unchecked(&self.input[start..end])
        )''', '''        let rest = &self.input[self.cursor..];
        let len = rest
            .iter()
            .position(|ch| !predicate(ch))
            .unwrap_or(rest.len());
        self.cursor += len;
        trust_me!(str::from_utf8_unchecked(&rest[..len]))'''))
refac('r18-current-char', (P, '''        self.input
            .get(self.cursor..)
            .and_then(|rest| str::from_utf8(rest).ok())
            .and_then(|rest| rest.chars().next())
            .unwrap_or_else(|| char::from(tok))''', '''        let rest = match self.input.get(self.cursor..) {
            Some(rest) => rest,
            None => return char::from(tok),
        };
        match str::from_utf8(rest) {
            Ok(text) => match text.chars().next() {
                Some(ch) => ch,
                None => char::from(tok),
            },
            Err(_) => char::from(tok),
        }'''))
refac('r19-end-of-input', (P, '''        if let Some(&tok) = parser_impl.next_trim() {
            yeet!(ParseError::new_unexpected_token(&parser_impl, tok));
        }
''', '''        parser_impl.skip_while(u8::is_ascii_whitespace);
        if parser_impl.cursor < parser_impl.input.len() {
            let tok = parser_impl.input[parser_impl.cursor];
            yeet!(ParseError::new_unexpected_token(&parser_impl, tok));
        }
'''))
refac('r20-argument-err', (P, '''        self.element(precedence::NO_PRECEDENCE).map_err(
            #[cold]
            |err| match err.kind {
                ErrorKind::UnexpectedToken(_) => {
                    ParseError::new_missing_argument(self)
                },
                ErrorKind::UnexpectedEndOfExpression
                | ErrorKind::ExpectedToken(_)
                | ErrorKind::MalformedNumber(_)
                | ErrorKind::IllegalCharacter(_)
                | ErrorKind::VariableNotDeclared(_, _)
                | ErrorKind::TooFewArguments(_, _)
                | ErrorKind::TooManyArguments(_, _)
                | ErrorKind::MissingArgument => err,
            },
        )''', '''        match self.element(precedence::NO_PRECEDENCE) {
            Err(err) if matches!(err.kind, ErrorKind::UnexpectedToken(_)) => {
                Err(ParseError::new_missing_argument(self))
            },
            other => other,
        }'''))
refac('r21-postfix-helper', (P, '''        let mut el = self.atom()?;

        // Right-associative unary operators
        if self.consume_if_eq(b'!') {
            el = UnOp::new_element(Operator::Factorial, el);
        }
''', '''        let atom = self.atom()?;
        let bang = self.consume_if_eq(b'!');
        let mut el = match bang {
            true => UnOp::new_element(Operator::Factorial, atom),
            false => atom,
        };
'''))
X = 'src/xprs.rs'
S, M, B, U, FC = ('src/element/%s.rs' % x for x in ('simplify', 'mod', 'binop', 'unop', 'function_call'))
F, C, BI, FN, OP, REPL = ('src/utils/factorial.rs', 'src/context.rs', 'src/utils/built_in_functions.rs',
                          'src/token/function.rs', 'src/token/operator.rs', 'src/bin/repl.rs')
# ------------------------------------------------------------------ evaluation
EV_BIN = '''                let left = self.eval_element(&binop.lhs)?;
                let right = self.eval_element(&binop.rhs)?;
                #[allow(clippy::unreachable)]
                match binop.op {
                    Operator::Plus => left + right,
                    Operator::Minus => left - right,
                    Operator::Times => left * right,
                    Operator::Divide => left / right,
                    Operator::Power => left.powf(right),
                    Operator::Modulo => left % right,
                    Operator::Factorial => unreachable!(),
                }
'''
EVU_BIN = EV_BIN.replace('self.eval_element(', 'self.eval_element_unchecked(').replace(')?;', ');')
APPLY = '''
    /// Applies a binary operator.
    #[allow(clippy::unreachable)]
    fn apply(op: Operator, left: f64, right: f64) -> f64 {
        match op {
            Operator::Modulo => left % right,
            Operator::Power => f64::powf(left, right),
            Operator::Divide => left / right,
            Operator::Times => left * right,
            Operator::Minus => left - right,
            Operator::Plus => left + right,
            Operator::Factorial => unreachable!("not a binary operator"),
        }
    }

    /// Evaluates an element within an expression and returns the result.
    fn eval_element('''
refac('r22-apply-helper', (X, EV_BIN, '''                let left = self.eval_element(&binop.lhs)?;
                let right = self.eval_element(&binop.rhs)?;
                Self::apply(binop.op, left, right)
'''), (X, EVU_BIN, '''                let BinOp { op, ref lhs, ref rhs } = **binop;
                Self::apply(
                    op,
                    self.eval_element_unchecked(lhs),
                    self.eval_element_unchecked(rhs),
                )
'''), (X, '''
    /// Evaluates an element within an expression and returns the result.
    fn eval_element(''', APPLY), (X, '    element::Element,\n', '    element::{BinOp, Element},\n'))
refac('r23-eval-loops', (X, '''                let args = func
                    .args
                    .iter()
                    .map(|arg| self.eval_element(arg))
                    .collect::<Result<Vec<_>, EvalError>>()?;
                func.call(&args)''', '''                let mut args = Vec::with_capacity(func.args.len());
                for arg in &func.args {
                    args.push(self.eval_element(arg)?);
                }
                func.call(args.as_slice())'''), (X, '''            Element::Variable(name) => *self.variables.get(name).ok_or_else(
                #[cold]
                || EvalError(name.to_owned()),
            )?,''', '''            Element::Variable(name) => match self.variables.get(name) {
                Some(&value) => value,
                None => return Err(EvalError(String::from(name))),
            },'''), (X, '''            Element::Variable(name) => *self.variables.get(name).unwrap(),''',
                     '''            Element::Variable(name) => self.variables[name],'''))
refac('r24-unchecked-via-checked', (X, '''        XprsImpl::new(variables).eval_element_unchecked(&self.root)''', '''        #[allow(clippy::unwrap_used)]
        self.eval(variables).unwrap()'''), (X, '''    /// Evaluates an element within an expression without checking for errors.
    fn eval_element_unchecked(''', '''    /// Evaluates an element within an expression without checking for errors.
    #[allow(dead_code)]
    fn eval_element_unchecked('''))
refac('r25-eval-result-style', (X, '''        let res = match *element {
            Element::Number(n) => n,''', '''        if let Element::Number(literal) = *element {
            return Ok(literal);
        }
        let res = match *element {
            Element::Number(n) => n,'''), (X, '''                let operand = self.eval_element(&unop.operand)?;
                #[allow(clippy::unreachable)]
                match unop.op {
                    Operator::Plus => operand,
                    Operator::Minus => -operand,
                    Operator::Factorial => factorial(operand),
                    Operator::Times
                    | Operator::Divide
                    | Operator::Power
                    | Operator::Modulo => unreachable!(),
                }''', '''                let operand = self.eval_element(&unop.operand)?;
                match unop.op {
                    Operator::Minus => core::ops::Neg::neg(operand),
                    Operator::Factorial => factorial(operand),
                    _ => operand,
                }'''))
# ------------------------------------------------------------------ simplification
refac('r26-simplify-helpers', (S, '''            BinOp { op: Plus, lhs, rhs } if lhs == Number(0.0) => rhs,
            // a + 0 => a
            BinOp { op: Plus, lhs, rhs } if rhs == Number(0.0) => lhs,''', '''            BinOp { op: Plus, lhs, rhs } if is(&lhs, 0.0) => rhs,
            // a + 0 => a
            BinOp { op: Plus, lhs, rhs } if is(&rhs, 0.0) => lhs,'''),
      (S, '''            BinOp { op: Times, lhs, .. } if lhs == Number(0.0) => Number(0.0),
            // a * 0 => 0
            BinOp { op: Times, rhs, .. } if rhs == Number(0.0) => Number(0.0),''', '''            BinOp { op: Times, lhs, rhs } if is(&lhs, 0.0) || is(&rhs, 0.0) => {
                Number(0.0)
            },'''), (S, '''impl<'a> Simplify<'a> for Element<'a> {''', '''/// Whether an element is the given number.
fn is(element: &Element<'_>, value: f64) -> bool {
    matches!(*element, Element::Number(num) if num == value)
}

impl<'a> Simplify<'a> for Element<'a> {'''))
refac('r27-fold-call', (S, '''        let mut args_values: Vec<f64> = Vec::with_capacity(self.args.len());

        self.args = self
            .args
            .into_iter()
            .map(|arg| {
                let simplified = arg.simplify();
                if let Element::Number(num) = simplified {
                    args_values.push(num);
                }
                simplified
            })
            .collect();

        if args_values.len() == self.args.len() {
            self.call(&args_values).into()
        } else {
            self.into()
        }''', '''        self.args = self.args.into_iter().map(Simplify::simplify).collect();

        let values: Option<Vec<f64>> = self
            .args
            .iter()
            .map(|arg| match *arg {
                Element::Number(num) => Some(num),
                _ => None,
            })
            .collect();

        match values {
            Some(values) => Element::Number(self.call(&values)),
            None => Element::from(self),
        }'''))
refac('r28-fold-binary-helper', (S, '''                #[allow(clippy::unreachable)]
                let result = match op {
                    Plus => lhs + rhs,
                    Minus => lhs - rhs,
                    Times => lhs * rhs,
                    Divide => lhs / rhs,
                    Power => lhs.powf(rhs),
                    Modulo => lhs % rhs,
                    Factorial => unreachable!(),
                };
                Number(result)''', '''                Number(op.apply(lhs, rhs))'''), (OP, '''impl fmt::Display for Operator {''', '''impl Operator {
    /// Applies a binary operator.
    #[allow(clippy::unreachable)]
    pub(crate) fn apply(self, lhs: f64, rhs: f64) -> f64 {
        match self {
            Self::Plus => lhs + rhs,
            Self::Minus => lhs - rhs,
            Self::Times => lhs * rhs,
            Self::Divide => lhs / rhs,
            Self::Power => lhs.powf(rhs),
            Self::Modulo => lhs % rhs,
            Self::Factorial => unreachable!(),
        }
    }
}

impl fmt::Display for Operator {'''), (S, 'use Operator::{Divide, Factorial, Minus, Modulo, Plus, Power, Times};', 'use Operator::{Divide, Minus, Modulo, Plus, Power, Times};'),
      (X, EV_BIN, '''                let left = self.eval_element(&binop.lhs)?;
                let right = self.eval_element(&binop.rhs)?;
                binop.op.apply(left, right)
'''))
refac('r29-unop-simplify', (S, '''        self.operand = self.operand.simplify();
        #[allow(clippy::unreachable)]
        match self.op {
            Operator::Plus => self.operand,
            Operator::Factorial => match self.operand {
                Element::Number(num) => Element::Number(factorial(num)),
                Element::UnOp(_)
                | Element::BinOp(_)
                | Element::Function(_)
                | Element::Variable(_) => self.into(),
            },
            Operator::Minus => match self.operand {
                Element::Number(num) => Element::Number(-num),
                Element::UnOp(_)
                | Element::BinOp(_)
                | Element::Function(_)
                | Element::Variable(_) => self.into(),
            },
            Operator::Times
            | Operator::Divide
            | Operator::Power
            | Operator::Modulo => unreachable!(),
        }''', '''        self.operand = self.operand.simplify();
        #[allow(clippy::unreachable)]
        match (self.op, &self.operand) {
            (Operator::Plus, _) => self.operand,
            (Operator::Factorial, &Element::Number(num)) => factorial(num).into(),
            (Operator::Minus, &Element::Number(num)) => (-num).into(),
            (Operator::Factorial | Operator::Minus, _) => self.into(),
            (
                Operator::Times
                | Operator::Divide
                | Operator::Power
                | Operator::Modulo,
                _,
            ) => unreachable!(),
        }'''))
refac('r30-simplify-rebuild', (S, '''    fn simplify_for(mut self, var: (&str, f64)) -> Element<'a> {
        self.lhs = self.lhs.simplify_for(var);
        self.rhs = self.rhs.simplify_for(var);
        self.simplify()
    }''', '''    fn simplify_for(self, var: (&str, f64)) -> Element<'a> {
        let BinOp { op, lhs, rhs } = self;
        let (rhs, lhs) = (rhs.simplify_for(var), lhs.simplify_for(var));
        BinOp { op, lhs, rhs }.simplify()
    }'''), (S, '''        self.args = self
            .args
            .into_iter()
            .map(|arg| arg.simplify_for(var))
            .collect();
        self.simplify()''', '''        let mut args = Vec::with_capacity(self.args.len());
        for arg in self.args {
            args.push(arg.simplify_for(var));
        }
        self.args = args;
        self.simplify()'''))
refac('r31-multiple-fold', (X, '''        let mut root = mem::replace(&mut self.root, Element::Number(f64::NAN));
        for &var in vars {
            root = root.simplify_for(var);
        }
        self.root = root;
        self.refresh_vars();''', '''        let root = Self::take_root(&mut self.root);
        self.root = vars
            .iter()
            .fold(root, |root, &var| root.simplify_for(var));
        self.refresh_vars();'''), (X, '''        let root = mem::replace(&mut self.root, Element::Number(f64::NAN));
        self.root = root.simplify_for(var);
        self.refresh_vars();
''', '''        self.root = Self::take_root(&mut self.root).simplify_for(var);
        self.refresh_vars();
'''), (X, '''    fn refresh_vars(&mut self) {
        self.vars.clear();
        self.root.find_variables(&mut self.vars);
    }''', '''    fn refresh_vars(&mut self) {
        let mut vars = HashSet::with_capacity(self.vars.len());
        self.root.find_variables(&mut vars);
        self.vars = vars;
    }

    /// Takes the root out, leaving a number in its place.
    fn take_root<'e>(root: &mut Element<'e>) -> Element<'e> {
        mem::replace(root, Element::Number(f64::NAN))
    }'''))
refac('r32-by-value', (X, '''    pub fn simplify_for(mut self, var: (&str, f64)) -> Self {
        self.simplify_for_in_place(var);
        self
    }''', '''    pub fn simplify_for(self, var: (&str, f64)) -> Self {
        self.simplify_for_multiple(&[var])
    }'''), (X, '''    pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
        let root = mem::replace(&mut self.root, Element::Number(f64::NAN));
        self.root = root.simplify_for(var);
        self.refresh_vars();
    }''', '''    pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
        self.simplify_for_multiple_in_place(core::slice::from_ref(&var));
    }'''))
# ------------------------------------------------------------------ equality, variables, display
refac('r33-eq-matches', (B, '''        self.op == other.op
            && match self.op {
                // non commutative operators
                Operator::Divide
                | Operator::Minus
                | Operator::Modulo
                | Operator::Power => {
                    self.lhs == other.lhs && self.rhs == other.rhs
                },
                // commutative operators
                Operator::Plus | Operator::Times => {
                    (self.lhs == other.lhs && self.rhs == other.rhs)
                        || (self.lhs == other.rhs && self.rhs == other.lhs)
                },
                // not a binary operator
                Operator::Factorial => unreachable!(),
            }''', '''        if self.op != other.op {
            return false;
        }
        if self.lhs == other.lhs && self.rhs == other.rhs {
            return true;
        }
        let commutative = matches!(self.op, Operator::Plus | Operator::Times);
        commutative && self.lhs == other.rhs && self.rhs == other.lhs'''))
refac('r34-vars-match', (M, '''        match *self {
            Self::Variable(var) => {
                vars.insert(var);
            },
            Self::BinOp(ref binop) => {
                binop.lhs.find_variables(vars);
                binop.rhs.find_variables(vars);
            },
            Self::UnOp(ref unop) => {
                unop.operand.find_variables(vars);
            },
            Self::Function(ref func) => {
                func.args.iter().for_each(|arg| arg.find_variables(vars));
            },
            Self::Number(_) => (),
        };''', '''        if let Self::Variable(var) = *self {
            vars.insert(var);
        }
        for child in self.children() {
            child.find_variables(vars);
        }'''), (M, '''impl<'a> Element<'a> {''', '''impl<'a> Element<'a> {
    /// The operands or arguments of the element.
    fn children(&self) -> Vec<&Self> {
        match *self {
            Self::Variable(_) | Self::Number(_) => Vec::new(),
            Self::BinOp(ref binop) => vec![&binop.lhs, &binop.rhs],
            Self::UnOp(ref unop) => vec![&unop.operand],
            Self::Function(ref func) => func.args.iter().collect(),
        }
    }
'''))
refac('r35-vars-worklist', (M, '''        match *self {
            Self::Variable(var) => {
                vars.insert(var);
            },
            Self::BinOp(ref binop) => {
                binop.lhs.find_variables(vars);
                binop.rhs.find_variables(vars);
            },
            Self::UnOp(ref unop) => {
                unop.operand.find_variables(vars);
            },
            Self::Function(ref func) => {
                func.args.iter().for_each(|arg| arg.find_variables(vars));
            },
            Self::Number(_) => (),
        };''', '''        let mut todo = vec![self];
        while let Some(element) = todo.pop() {
            match *element {
                Self::Variable(var) => {
                    vars.insert(var);
                },
                Self::BinOp(ref binop) => {
                    todo.push(&binop.lhs);
                    todo.push(&binop.rhs);
                },
                Self::UnOp(ref unop) => todo.push(&unop.operand),
                Self::Function(ref func) => todo.extend(&func.args),
                Self::Number(_) => (),
            }
        }'''))
refac('r36-display-loop', (FC, '''        let args = self
            .args
            .iter()
            .map(|arg| format!("{arg}"))
            .collect::<Vec<_>>();
        write!(fmt, "{}({})", self.desc.name, args.join(", "))''', '''        fmt.write_str(self.desc.name)?;
        fmt.write_str("(")?;
        for (idx, arg) in self.args.iter().enumerate() {
            if idx > 0 {
                fmt.write_str(", ")?;
            }
            write!(fmt, "{arg}")?;
        }
        fmt.write_str(")")'''), (B, '''        write!(fmt, "({} {} {})", self.lhs, self.op, self.rhs)''', '''        write!(fmt, "({}", self.lhs)?;
        write!(fmt, " {} ", self.op)?;
        write!(fmt, "{})", self.rhs)'''))
refac('r37-display-delegate', (M, '''            Self::BinOp(ref binop) => write!(fmt, "{binop}"),
            Self::UnOp(ref unop) => write!(fmt, "{unop}"),
            Self::Function(ref func) => write!(fmt, "{func}"),
            Self::Variable(var) => write!(fmt, "{var}"),''', '''            Self::BinOp(ref binop) => fmt::Display::fmt(binop, fmt),
            Self::UnOp(ref unop) => fmt::Display::fmt(unop, fmt),
            Self::Function(ref func) => func.fmt(fmt),
            Self::Variable(var) => fmt.write_str(var),'''), (OP, '''        match *self {
            Self::Factorial => write!(fmt, "!"),
            Self::Plus => write!(fmt, "+"),
            Self::Minus => write!(fmt, "-"),
            Self::Times => write!(fmt, "*"),
            Self::Divide => write!(fmt, "/"),
            Self::Power => write!(fmt, "^"),
            Self::Modulo => write!(fmt, "%"),
        }''', '''        let symbol = match *self {
            Self::Factorial => '!',
            Self::Plus => '+',
            Self::Minus => '-',
            Self::Times => '*',
            Self::Divide => '/',
            Self::Power => '^',
            Self::Modulo => '%',
        };
        write!(fmt, "{symbol}")'''))
refac('r38-unop-display', (U, '''        match self.op {
            // the only postfix operator
            Operator::Factorial => {
                write!(fmt, "({}{})", self.operand, self.op)
            },
            Operator::Plus
            | Operator::Minus
            | Operator::Times
            | Operator::Divide
            | Operator::Power
            | Operator::Modulo => write!(fmt, "({}{})", self.op, self.operand),
        }''', '''        let Self { op, ref operand } = *self;
        if op == Operator::Factorial {
            // the only postfix operator
            return write!(fmt, "({operand}{op})");
        }
        write!(fmt, "({op}{operand})")'''))
# ------------------------------------------------------------------ context, binding, functions
refac('r39-context-forms', (C, '''        mut self,
        name: &'names str,
        value: T,
    ) -> Self {
        self.symbols.insert(name, value.into().into());
        self''', '''        mut self,
        name: &'names str,
        value: T,
    ) -> Self {
        self.set_var(name, value);
        self'''), (C, '''    pub fn set_fn(&mut self, func: Function) {
        self.symbols.insert(func.name, func.into());
    }''', '''    pub fn set_fn(&mut self, func: Function) {
        let name = func.name;
        let _previous = self.symbols.insert(name, Symbol::Function(func));
    }'''), (C, '''        mut self,
        symbols: HashMap<&'names str, Symbol>,
    ) -> Self {
        self.symbols = symbols;
        self''', '''        self,
        symbols: HashMap<&'names str, Symbol>,
    ) -> Self {
        Self { symbols, ..self }'''))
refac('r40-context-entry', (C, '''    pub fn set_var<T: Into<f64>>(&mut self, name: &'names str, value: T) {
        self.symbols.insert(name, value.into().into());
    }''', '''    pub fn set_var<T: Into<f64>>(&mut self, name: &'names str, value: T) {
        let symbol = Symbol::Variable(value.into());
        if let Some(slot) = self.symbols.get_mut(name) {
            *slot = symbol;
        } else {
            self.symbols.insert(name, symbol);
        }
    }'''))
refac('r41-bind-error-join', (X, '''        let mut peekable = missing_vars.peekable();
        let mut count: usize = 0;
        let mut missing_vars_str = String::new();
        while let Some(missing_var) = peekable.next() {
            count += 1;
            missing_vars_str.push_str(missing_var);
            if peekable.peek().is_some() {
                missing_vars_str.push_str(", ");
            }
        }
        match count {
            0 => None,
            1 => Some(Self::OneVariable(missing_vars_str)),
            _ => Some(Self::MultipleVariables(missing_vars_str)),
        }''', '''        let names: Vec<&str> = missing_vars.copied().collect();
        let list = names.join(", ");
        match names.len() {
            0 => None,
            1 => Some(Self::OneVariable(list)),
            _ => Some(Self::MultipleVariables(list)),
        }'''))
refac('r42-bind-helper', (X, '''    pub fn bind2(self, var1: &'a str, var2: &'a str) -> Result<impl Fn(f64, f64) -> f64 + 'a, BindError> {
        let variables: HashSet<&str> = HashSet::from([var1, var2]);
        let missing_vars = self.vars.difference(&variables);
        if let Some(bind_error) = BindError::from_diff(missing_vars) {
            yeet!(bind_error);
        }
        Ok(move |val1, val2| self.eval_unchecked(&[(var1, val1), (var2, val2)].into()))
    }''', '''    pub fn bind2(self, var1: &'a str, var2: &'a str) -> Result<impl Fn(f64, f64) -> f64 + 'a, BindError> {
        self.check_bound(&[var1, var2])?;
        Ok(move |val1, val2| {
            let mut values = HashMap::with_capacity(2);
            values.insert(var1, val1);
            values.insert(var2, val2);
            self.eval_unchecked(&values)
        })
    }

    /// Checks that every variable is among the given ones.
    fn check_bound(&self, names: &[&str]) -> Result<(), BindError> {
        let variables: HashSet<&str> = names.iter().copied().collect();
        match BindError::from_diff(self.vars.difference(&variables)) {
            None => Ok(()),
            Some(bind_error) => Err(bind_error),
        }
    }'''), (X, '''        Ok(move |values| self.eval_unchecked(&vars.into_iter().zip(values).collect()))''',
     '''        Ok(move |values: [f64; T]| {
            let mut map = HashMap::new();
            for (idx, name) in vars.iter().enumerate() {
                map.insert(*name, values[idx]);
            }
            self.eval_unchecked(&map)
        })'''))
refac('r43-bind-via-n', (X, '''    pub fn bind3(self, var1: &'a str, var2: &'a str, var3: &'a str) -> Result<impl Fn(f64, f64, f64) -> f64 + 'a, BindError> {
        let variables: HashSet<&str> = HashSet::from([var1, var2, var3]);
        let missing_vars = self.vars.difference(&variables);
        if let Some(bind_error) = BindError::from_diff(missing_vars) {
            yeet!(bind_error);
        }
        Ok(move |val1, val2, val3| self.eval_unchecked(&[(var1, val1), (var2, val2), (var3, val3)].into()))
    }''', '''    pub fn bind3(self, var1: &'a str, var2: &'a str, var3: &'a str) -> Result<impl Fn(f64, f64, f64) -> f64 + 'a, BindError> {
        let bound = self.bind_n([var1, var2, var3])?;
        Ok(move |val1, val2, val3| bound([val1, val2, val3]))
    }'''))
refac('r44-factorial', (F, '''    if num < ZERO {
        return f64::NAN;
    }

    if num.is_infinite() {
        return f64::INFINITY;
    }

    if num.fract() != ZERO {
        return f64::NAN;
    }

    // is enough to max out a f64
    if num > MAX {
        return f64::INFINITY;
    }

    // will only be called if num is a whole number
    // and 1 <= num <= 170
    let index = trust_me!(num.to_int_unchecked::<usize>());

    #[allow(clippy::indexing_slicing)]
    FACTORIALS[index]''', '''    if num.is_nan() || num < ZERO || (num.is_finite() && num.trunc() != num) {
        f64::NAN
    } else if num <= MAX {
        #[allow(
            clippy::as_conversions,
            clippy::cast_possible_truncation,
            clippy::cast_sign_loss
        )]
        let index = num as usize;
        FACTORIALS.get(index).copied().unwrap_or(f64::INFINITY)
    } else {
        f64::INFINITY
    }'''), (F, '''/* Crate imports */
use crate::utils::hidden_macros::trust_me;
''', '''/* Crate imports */
#[cfg(not(NIGHTLY))]
use crate::utils::hidden_macros::trust_me;
'''), (F, 'unsafe { tgamma(x) }', 'trust_me!(tgamma(x))'))
refac('r45-builtins', (BI, 'args.iter().fold(f64::INFINITY, |acc, &x| acc.min(x))', 'args.iter().copied().fold(f64::INFINITY, f64::min)'),
      (BI, '''    args.iter().fold(f64::NEG_INFINITY, |acc, &x| acc.max(x))''', '''    let mut best = f64::NEG_INFINITY;
    for arg in args {
        best = best.max(*arg);
    }
    best'''), (BI, '''    args.iter().sum::<f64>() / args.len() as f64''', '''    let total: f64 = args.iter().sum();
    total / args.len() as f64'''), (BI, 'xprs_fn!("log", f64::log10, 1)', 'xprs_fn!("log", |x: f64| x.log10(), 1)'),
      (BI, 'xprs_fn!("atan2", f64::atan2, 2)', 'Function::new_static("atan2", |args| args[0].atan2(args[1]), Some(2))'))
refac('r46-function', (FN, '''        Self {
            name,
            func: FnPointer::Dyn(Arc::new(func)),
            nb_args,
        }''', '''        let func = FnPointer::Dyn(Arc::new(func) as Arc<DynFn>);
        Self { name, func, nb_args }'''), (FC, '''        (self.desc.func)(args)''', '''        let func = &*self.desc.func;
        func(args)'''), (FN, '''        match *self {
            Self::Static(func1) => match *other {
                Self::Static(func2) => func1 == func2,
                Self::Dyn(_) => false,
            },
            Self::Dyn(ref func1) => match *other {
                Self::Dyn(ref func2) => Arc::ptr_eq(func1, func2),
                Self::Static(_) => false,
            },
        }''', '''        match (self, other) {
            (&Self::Static(func1), &Self::Static(func2)) => func1 == func2,
            (Self::Dyn(func1), Self::Dyn(func2)) => Arc::ptr_eq(func1, func2),
            _ => false,
        }'''))
refac('r47-repl-lines', (REPL, '''        if io::stdin().read_line(&mut input)? == 0 {
            // end of the input
            break;
        }
        match &input {
            line if line.trim() == "exit" => break,
            line => match parser.parse(line) {
                Ok(ast) => {
                    println!("Interpreted as: {ast}");
                    println!("{ast:#?}");
                    println!("Variables: {:?}", ast.vars);
                    let variables = ask_for_variables(&ast.vars);
                    println!(
                        "Evaluated: {:#?}",
                        ast.eval(&variables).unwrap_or_else(|_| unreachable!())
                    );
                },
                Err(err) => println!("{:?}", miette::Report::new(err)),
            },
        }
        input.clear();
    }
''', '''        input.clear();
        let read = io::stdin().read_line(&mut input)?;
        if read == 0 || input.trim() == "exit" {
            break;
        }
        handle(&parser, &input);
    }
'''), (REPL, '''fn ask_for_variables<'a>(''', '''fn handle(parser: &Parser, line: &str) {
    let ast = match parser.parse(line) {
        Ok(ast) => ast,
        Err(err) => {
            println!("{:?}", miette::Report::new(err));
            return;
        },
    };
    println!("Interpreted as: {ast}");
    println!("{ast:#?}");
    println!("Variables: {:?}", ast.vars);
    let variables = ask_for_variables(&ast.vars);
    let value = ast.eval(&variables).expect("every variable was asked for");
    println!("Evaluated: {value:#?}");
}

/// Asks for the variables' values.
fn ask_for_variables<'a>('''))
refac('r48-repl-vars', (REPL, '''    set.iter().fold(HashMap::new(), |mut acc, var| {
        print!("{var}: ");
        io::stdout().lock().flush().expect("Failed to flush stdout");
        let mut input = String::new();
        io::stdin()
            .read_line(&mut input)
            .expect("Failed to read line");
        acc.insert(
            var,
            input
                .trim()
                .parse()
                .expect("Failed to parse input as a number"),
        );
        acc
    })''', '''    let mut values = HashMap::with_capacity(set.len());
    let mut input = String::new();
    for &var in set {
        print!("{var}: ");
        io::stdout().lock().flush().expect("Failed to flush stdout");
        input.clear();
        io::stdin()
            .read_line(&mut input)
            .expect("Failed to read line");
        let value: f64 = input
            .trim()
            .parse()
            .expect("Failed to parse input as a number");
        values.insert(var, value);
    }
    values'''))
refac('r49-parse-collect', (P, '''        let mut vars: HashSet<&str> = HashSet::default();
        root.find_variables(&mut vars);

        Ok(Xprs { root, vars })''', '''        let vars = root.variables();

        Ok(Xprs { root, vars })'''), (M, '''impl<'a> Element<'a> {''', '''impl<'a> Element<'a> {
    /// The set of variables of the element.
    pub(crate) fn variables(&self) -> HashSet<&'a str> {
        let mut vars = HashSet::new();
        self.find_variables(&mut vars);
        vars
    }
'''), (P, 'use std::collections::HashSet;\n', ''))
refac('r50-leaf-guard', (S, '''    fn simplify(self) -> Self {
        match self {
            Self::BinOp(binop) => binop.simplify(),
            Self::UnOp(unop) => unop.simplify(),
            Self::Function(func) => func.simplify(),
            Self::Number(_) | Self::Variable(_) => self,
        }
    }''', '''    fn simplify(self) -> Self {
        if matches!(self, Self::Number(_) | Self::Variable(_)) {
            return self;
        }
        match self {
            Self::BinOp(binop) => (*binop).simplify(),
            Self::UnOp(unop) => (*unop).simplify(),
            Self::Function(func) => (*func).simplify(),
            leaf @ (Self::Number(_) | Self::Variable(_)) => leaf,
        }
    }'''), (B, 'Element::BinOp(Box::new(Self::new(op, lhs, rhs)))', 'Self::new(op, lhs, rhs).into()'))


def main():
    args = sys.argv[1:]
    props = 'all'
    if '-p' in args:
        i = args.index('-p')
        props = args[i + 1].replace(',', ' ')
        del args[i:i + 2]
    ids = [a for a in args if not a.startswith('-')]
    w = tempfile.mkdtemp(prefix='refac-', dir='/tmp')
    copy = w + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        for f in ('env.sh', 'build.sh', 'test.sh', 'results.py', 'BASELINE.json'):
            s = open('/opt/vp/' + f).read().replace('/repo', copy).replace('/opt/vp', w + '/vp')
            os.makedirs(w + '/vp', exist_ok=True)
            open(w + '/vp/' + f, 'w').write(s)
        for rid, edits in R:
            if ids and not any(rid.startswith(i) for i in ids):
                continue
            subprocess.run('git -C %s checkout -q -- .' % copy, shell=True, check=True)
            for f, old, new in edits:
                p = os.path.join(copy, f)
                s = open(p).read() if old is not None else ''
                if old is not None and s.count(old) != 1:
                    print(rid, 'EDIT DOES NOT APPLY:', f, s.count(old))
                    break
                open(p, 'w').write(s.replace(old, new) if old is not None else new)
            else:
                if '--tests' in args:
                    r = subprocess.run('bash %s/vp/build.sh && bash %s/vp/test.sh %s/out.json; tail -3 %s/out.json' % (w, w, w, w), shell=True,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    import json
                    try:
                        res = json.load(open(w + '/out.json'))
                        lost = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(res['passed'])
                    except Exception:
                        lost = [r.stdout[-800:]]
                    if lost:
                        print(rid, 'TESTS FAIL', sorted(lost)[:3])
                r = subprocess.run('XPRS_REPO=%s python3 %s/check.py %s' % (copy, HERE, props), shell=True,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                bad = [l for l in r.stdout.splitlines() if not l.startswith('OK ') or 'undecided=0' not in l]
                secs = re.findall(r'\((\d+\.\d) s\)', r.stdout)
                print(rid, 'quiet' if not bad else 'NOT QUIET', 'rc=%d' % r.returncode, secs[-1:], flush=True)
                for l in bad[:12]:
                    print('    ' + l[:600], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


main()
