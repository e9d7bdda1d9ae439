
#[allow(dead_code, unused, clippy::all)]
pub mod __xprs_macros {
    use crate::xprs_fn;
    use crate::Function;
    pub const NAME: &str = "given";
    pub fn probev(args: &[f64]) -> f64 { args[0] }
    pub fn fn_static_named_v() -> Function { xprs_fn!("given", probev) }
    pub fn fn_static_plain_v() -> Function { xprs_fn!(probev) }
    pub fn fn_closure_named_v() -> Function { xprs_fn!("given", |a| probev(a)) }
    pub fn fn_expr_named_v() -> Function { xprs_fn!(NAME, probev) }
    pub fn fn_const_named_v() -> Function { const F: Function = xprs_fn!("given", probev); F }
    pub fn fn_const_plain_v() -> Function { const F: Function = xprs_fn!(probev); F }
    pub fn fn_dyn_named_v(k: f64) -> Function { xprs_fn!("given", dyn move |a: &[f64]| probev(a) - k) }
    pub fn fn_dynvar_named_v(k: f64) -> Function { let captures = move |a: &[f64]| probev(a) - k; xprs_fn!("given", dyn captures) }
    pub fn fn_dyn_plain_v() -> Function { xprs_fn!(dyn probev) }
    pub fn probe0() -> f64 { 0.5 }
    pub fn fn_static_named_0() -> Function { xprs_fn!("given", probe0, 0) }
    pub fn fn_static_plain_0() -> Function { xprs_fn!(probe0, 0) }
    pub fn fn_closure_named_0() -> Function { xprs_fn!("given", || probe0(), 0) }
    pub fn fn_expr_named_0() -> Function { xprs_fn!(NAME, probe0, 0) }
    pub fn fn_const_named_0() -> Function { const F: Function = xprs_fn!("given", probe0, 0); F }
    pub fn fn_const_plain_0() -> Function { const F: Function = xprs_fn!(probe0, 0); F }
    pub fn fn_dyn_named_0(k: f64) -> Function { xprs_fn!("given", dyn move || probe0() - k, 0) }
    pub fn fn_dynvar_named_0(k: f64) -> Function { let captures = move || probe0() - k; xprs_fn!("given", dyn captures, 0) }
    pub fn fn_dyn_plain_0() -> Function { xprs_fn!(dyn probe0, 0) }
    pub fn probe1(a: f64) -> f64 { a }
    pub fn fn_static_named_1() -> Function { xprs_fn!("given", probe1, 1) }
    pub fn fn_static_plain_1() -> Function { xprs_fn!(probe1, 1) }
    pub fn fn_closure_named_1() -> Function { xprs_fn!("given", |a| probe1(a), 1) }
    pub fn fn_expr_named_1() -> Function { xprs_fn!(NAME, probe1, 1) }
    pub fn fn_const_named_1() -> Function { const F: Function = xprs_fn!("given", probe1, 1); F }
    pub fn fn_const_plain_1() -> Function { const F: Function = xprs_fn!(probe1, 1); F }
    pub fn fn_dyn_named_1(k: f64) -> Function { xprs_fn!("given", dyn move |a: f64| probe1(a) - k, 1) }
    pub fn fn_dynvar_named_1(k: f64) -> Function { let captures = move |a: f64| probe1(a) - k; xprs_fn!("given", dyn captures, 1) }
    pub fn fn_dyn_plain_1() -> Function { xprs_fn!(dyn probe1, 1) }
    pub fn probe2(a: f64, b: f64) -> f64 { b }
    pub fn fn_static_named_2() -> Function { xprs_fn!("given", probe2, 2) }
    pub fn fn_static_plain_2() -> Function { xprs_fn!(probe2, 2) }
    pub fn fn_closure_named_2() -> Function { xprs_fn!("given", |a, b| probe2(a, b), 2) }
    pub fn fn_expr_named_2() -> Function { xprs_fn!(NAME, probe2, 2) }
    pub fn fn_const_named_2() -> Function { const F: Function = xprs_fn!("given", probe2, 2); F }
    pub fn fn_const_plain_2() -> Function { const F: Function = xprs_fn!(probe2, 2); F }
    pub fn fn_dyn_named_2(k: f64) -> Function { xprs_fn!("given", dyn move |a: f64, b: f64| probe2(a, b) - k, 2) }
    pub fn fn_dynvar_named_2(k: f64) -> Function { let captures = move |a: f64, b: f64| probe2(a, b) - k; xprs_fn!("given", dyn captures, 2) }
    pub fn fn_dyn_plain_2() -> Function { xprs_fn!(dyn probe2, 2) }
    pub fn probe3(a: f64, b: f64, c: f64) -> f64 { c }
    pub fn fn_static_named_3() -> Function { xprs_fn!("given", probe3, 3) }
    pub fn fn_static_plain_3() -> Function { xprs_fn!(probe3, 3) }
    pub fn fn_closure_named_3() -> Function { xprs_fn!("given", |a, b, c| probe3(a, b, c), 3) }
    pub fn fn_expr_named_3() -> Function { xprs_fn!(NAME, probe3, 3) }
    pub fn fn_const_named_3() -> Function { const F: Function = xprs_fn!("given", probe3, 3); F }
    pub fn fn_const_plain_3() -> Function { const F: Function = xprs_fn!(probe3, 3); F }
    pub fn fn_dyn_named_3(k: f64) -> Function { xprs_fn!("given", dyn move |a: f64, b: f64, c: f64| probe3(a, b, c) - k, 3) }
    pub fn fn_dynvar_named_3(k: f64) -> Function { let captures = move |a: f64, b: f64, c: f64| probe3(a, b, c) - k; xprs_fn!("given", dyn captures, 3) }
    pub fn fn_dyn_plain_3() -> Function { xprs_fn!(dyn probe3, 3) }
    pub fn probe4(a: f64, b: f64, c: f64, d: f64) -> f64 { d }
    pub fn fn_static_named_4() -> Function { xprs_fn!("given", probe4, 4) }
    pub fn fn_static_plain_4() -> Function { xprs_fn!(probe4, 4) }
    pub fn fn_closure_named_4() -> Function { xprs_fn!("given", |a, b, c, d| probe4(a, b, c, d), 4) }
    pub fn fn_expr_named_4() -> Function { xprs_fn!(NAME, probe4, 4) }
    pub fn fn_const_named_4() -> Function { const F: Function = xprs_fn!("given", probe4, 4); F }
    pub fn fn_const_plain_4() -> Function { const F: Function = xprs_fn!(probe4, 4); F }
    pub fn fn_dyn_named_4(k: f64) -> Function { xprs_fn!("given", dyn move |a: f64, b: f64, c: f64, d: f64| probe4(a, b, c, d) - k, 4) }
    pub fn fn_dynvar_named_4(k: f64) -> Function { let captures = move |a: f64, b: f64, c: f64, d: f64| probe4(a, b, c, d) - k; xprs_fn!("given", dyn captures, 4) }
    pub fn fn_dyn_plain_4() -> Function { xprs_fn!(dyn probe4, 4) }
    pub fn probe5(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64 { e }
    pub fn fn_static_named_5() -> Function { xprs_fn!("given", probe5, 5) }
    pub fn fn_static_plain_5() -> Function { xprs_fn!(probe5, 5) }
    pub fn fn_closure_named_5() -> Function { xprs_fn!("given", |a, b, c, d, e| probe5(a, b, c, d, e), 5) }
    pub fn fn_expr_named_5() -> Function { xprs_fn!(NAME, probe5, 5) }
    pub fn fn_const_named_5() -> Function { const F: Function = xprs_fn!("given", probe5, 5); F }
    pub fn fn_const_plain_5() -> Function { const F: Function = xprs_fn!(probe5, 5); F }
    pub fn fn_dyn_named_5(k: f64) -> Function { xprs_fn!("given", dyn move |a: f64, b: f64, c: f64, d: f64, e: f64| probe5(a, b, c, d, e) - k, 5) }
    pub fn fn_dynvar_named_5(k: f64) -> Function { let captures = move |a: f64, b: f64, c: f64, d: f64, e: f64| probe5(a, b, c, d, e) - k; xprs_fn!("given", dyn captures, 5) }
    pub fn fn_dyn_plain_5() -> Function { xprs_fn!(dyn probe5, 5) }
    pub fn probe6(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> f64 { f }
    pub fn fn_static_named_6() -> Function { xprs_fn!("given", probe6, 6) }
    pub fn fn_static_plain_6() -> Function { xprs_fn!(probe6, 6) }
    pub fn fn_closure_named_6() -> Function { xprs_fn!("given", |a, b, c, d, e, f| probe6(a, b, c, d, e, f), 6) }
    pub fn fn_expr_named_6() -> Function { xprs_fn!(NAME, probe6, 6) }
    pub fn fn_const_named_6() -> Function { const F: Function = xprs_fn!("given", probe6, 6); F }
    pub fn fn_const_plain_6() -> Function { const F: Function = xprs_fn!(probe6, 6); F }
    pub fn fn_dyn_named_6(k: f64) -> Function { xprs_fn!("given", dyn move |a: f64, b: f64, c: f64, d: f64, e: f64, f: f64| probe6(a, b, c, d, e, f) - k, 6) }
    pub fn fn_dynvar_named_6(k: f64) -> Function { let captures = move |a: f64, b: f64, c: f64, d: f64, e: f64, f: f64| probe6(a, b, c, d, e, f) - k; xprs_fn!("given", dyn captures, 6) }
    pub fn fn_dyn_plain_6() -> Function { xprs_fn!(dyn probe6, 6) }
    pub fn probe7(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64) -> f64 { g }
    pub fn fn_static_named_7() -> Function { xprs_fn!("given", probe7, 7) }
    pub fn fn_static_plain_7() -> Function { xprs_fn!(probe7, 7) }
    pub fn fn_closure_named_7() -> Function { xprs_fn!("given", |a, b, c, d, e, f, g| probe7(a, b, c, d, e, f, g), 7) }
    pub fn fn_expr_named_7() -> Function { xprs_fn!(NAME, probe7, 7) }
    pub fn fn_const_named_7() -> Function { const F: Function = xprs_fn!("given", probe7, 7); F }
    pub fn fn_const_plain_7() -> Function { const F: Function = xprs_fn!(probe7, 7); F }
    pub fn fn_dyn_named_7(k: f64) -> Function { xprs_fn!("given", dyn move |a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64| probe7(a, b, c, d, e, f, g) - k, 7) }
    pub fn fn_dynvar_named_7(k: f64) -> Function { let captures = move |a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64| probe7(a, b, c, d, e, f, g) - k; xprs_fn!("given", dyn captures, 7) }
    pub fn fn_dyn_plain_7() -> Function { xprs_fn!(dyn probe7, 7) }
    pub fn probe8(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64) -> f64 { h }
    pub fn fn_static_named_8() -> Function { xprs_fn!("given", probe8, 8) }
    pub fn fn_static_plain_8() -> Function { xprs_fn!(probe8, 8) }
    pub fn fn_closure_named_8() -> Function { xprs_fn!("given", |a, b, c, d, e, f, g, h| probe8(a, b, c, d, e, f, g, h), 8) }
    pub fn fn_expr_named_8() -> Function { xprs_fn!(NAME, probe8, 8) }
    pub fn fn_const_named_8() -> Function { const F: Function = xprs_fn!("given", probe8, 8); F }
    pub fn fn_const_plain_8() -> Function { const F: Function = xprs_fn!(probe8, 8); F }
    pub fn fn_dyn_named_8(k: f64) -> Function { xprs_fn!("given", dyn move |a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64| probe8(a, b, c, d, e, f, g, h) - k, 8) }
    pub fn fn_dynvar_named_8(k: f64) -> Function { let captures = move |a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64| probe8(a, b, c, d, e, f, g, h) - k; xprs_fn!("given", dyn captures, 8) }
    pub fn fn_dyn_plain_8() -> Function { xprs_fn!(dyn probe8, 8) }
    pub fn probe9(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64, i: f64) -> f64 { i }
    pub fn fn_static_named_9() -> Function { xprs_fn!("given", probe9, 9) }
    pub fn fn_static_plain_9() -> Function { xprs_fn!(probe9, 9) }
    pub fn fn_closure_named_9() -> Function { xprs_fn!("given", |a, b, c, d, e, f, g, h, i| probe9(a, b, c, d, e, f, g, h, i), 9) }
    pub fn fn_expr_named_9() -> Function { xprs_fn!(NAME, probe9, 9) }
    pub fn fn_const_named_9() -> Function { const F: Function = xprs_fn!("given", probe9, 9); F }
    pub fn fn_const_plain_9() -> Function { const F: Function = xprs_fn!(probe9, 9); F }
    pub fn fn_dyn_named_9(k: f64) -> Function { xprs_fn!("given", dyn move |a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64, i: f64| probe9(a, b, c, d, e, f, g, h, i) - k, 9) }
    pub fn fn_dynvar_named_9(k: f64) -> Function { let captures = move |a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64, i: f64| probe9(a, b, c, d, e, f, g, h, i) - k; xprs_fn!("given", dyn captures, 9) }
    pub fn fn_dyn_plain_9() -> Function { xprs_fn!(dyn probe9, 9) }
}
