"""Writes driver/macros.rs: one function for every form of xprs_fn! and every number of arguments."""
import os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'driver', 'macros.rs')
L = 'abcdefghi'
o = ['', '#[allow(dead_code, unused, clippy::all)]', 'pub mod __xprs_macros {', '    use crate::xprs_fn;',
     '    use crate::Function;', '    pub const NAME: &str = "given";', '    pub fn probev(args: &[f64]) -> f64 { args[0] }']


def fn(name, expr, par=''):
    o.append('    pub fn fn_%s(%s) -> Function { %s }' % (name, par, expr))


fn('static_named_v', 'xprs_fn!("given", probev)')
fn('static_plain_v', 'xprs_fn!(probev)')
fn('closure_named_v', 'xprs_fn!("given", |a| probev(a))')
fn('expr_named_v', 'xprs_fn!(NAME, probev)')
fn('const_named_v', 'const F: Function = xprs_fn!("given", probev); F')
fn('const_plain_v', 'const F: Function = xprs_fn!(probev); F')
fn('dyn_named_v', 'xprs_fn!("given", dyn move |a: &[f64]| probev(a) - k)', 'k: f64')
fn('dynvar_named_v', 'let captures = move |a: &[f64]| probev(a) - k; xprs_fn!("given", dyn captures)', 'k: f64')
fn('dyn_plain_v', 'xprs_fn!(dyn probev)')
for n in range(10):
    ps = ', '.join('%s: f64' % x for x in L[:n])
    xs = ', '.join(L[:n])
    o.append('    pub fn probe%d(%s) -> f64 { %s }' % (n, ps, L[n - 1] if n else '0.5'))
    fn('static_named_%d' % n, 'xprs_fn!("given", probe%d, %d)' % (n, n))
    fn('static_plain_%d' % n, 'xprs_fn!(probe%d, %d)' % (n, n))
    fn('closure_named_%d' % n, 'xprs_fn!("given", |%s| probe%d(%s), %d)' % (xs, n, xs, n))
    fn('expr_named_%d' % n, 'xprs_fn!(NAME, probe%d, %d)' % (n, n))
    fn('const_named_%d' % n, 'const F: Function = xprs_fn!("given", probe%d, %d); F' % (n, n))
    fn('const_plain_%d' % n, 'const F: Function = xprs_fn!(probe%d, %d); F' % (n, n))
    fn('dyn_named_%d' % n, 'xprs_fn!("given", dyn move |%s| probe%d(%s) - k, %d)' % (ps, n, xs, n), 'k: f64')
    fn('dynvar_named_%d' % n, 'let captures = move |%s| probe%d(%s) - k; xprs_fn!("given", dyn captures, %d)' % (
        ps, n, xs, n), 'k: f64')
    fn('dyn_plain_%d' % n, 'xprs_fn!(dyn probe%d, %d)' % (n, n))
o += ['}', '']
open(OUT, 'w').write('\n'.join(o))
