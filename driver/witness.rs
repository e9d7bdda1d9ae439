
#[allow(dead_code, unused, clippy::all)]
pub mod __xprs_witness {
    use crate::{BindError, Context, EvalError, Parser, Xprs};
    pub fn set_var<'a>(c: &mut Context<'a>, n: &'a str, v: f64) { c.set_var(n, v); }
    pub fn with_var<'a>(c: Context<'a>, n: &'a str, v: f64) -> Context<'a> { c.with_var(n, v) }
    pub fn set_var_int<'a>(c: &mut Context<'a>, n: &'a str) { c.set_var(n, 7_u8); }
    pub fn with_var_int<'a>(c: Context<'a>, n: &'a str) -> Context<'a> { c.with_var(n, -7_i32) }
    pub fn default_ctx<'a>() -> Context<'a> { Context::default() }
    pub fn default_parser<'a>() -> Parser<'a> { Parser::default() }
    pub fn clone_ctx<'a>(c: &Context<'a>) -> Context<'a> { c.clone() }
    pub fn clone_parser<'a>(p: &Parser<'a>) -> Parser<'a> { p.clone() }
    pub fn bind_n_0<'a>(x: Xprs<'a>, v: [&'a str; 0]) -> Result<impl Fn([f64; 0]) -> f64 + 'a, BindError> { x.bind_n(v) }
    pub fn bind_n_1<'a>(x: Xprs<'a>, v: [&'a str; 1]) -> Result<impl Fn([f64; 1]) -> f64 + 'a, BindError> { x.bind_n(v) }
    pub fn bind_n_2<'a>(x: Xprs<'a>, v: [&'a str; 2]) -> Result<impl Fn([f64; 2]) -> f64 + 'a, BindError> { x.bind_n(v) }
    pub fn bind_n_3<'a>(x: Xprs<'a>, v: [&'a str; 3]) -> Result<impl Fn([f64; 3]) -> f64 + 'a, BindError> { x.bind_n(v) }
    pub fn bind_n_5<'a>(x: Xprs<'a>, v: [&'a str; 5]) -> Result<impl Fn([f64; 5]) -> f64 + 'a, BindError> { x.bind_n(v) }
    pub fn bind_n_9<'a>(x: Xprs<'a>, v: [&'a str; 9]) -> Result<impl Fn([f64; 9]) -> f64 + 'a, BindError> { x.bind_n(v) }
    pub fn bind_n_20<'a>(x: Xprs<'a>, v: [&'a str; 20]) -> Result<impl Fn([f64; 20]) -> f64 + 'a, BindError> { x.bind_n(v) }
}
