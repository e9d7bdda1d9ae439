"""C12, C13: what the built-in names mean."""
import math
from absint import *
from tree import *
from terms import cmp_ieee, norm_ieee, subst
from report import Report

CONSTS = {'pi': math.pi, 'e': math.e}
ONE = ['sin', 'sinh', 'asin', 'asinh', 'cos', 'cosh', 'acos', 'acosh', 'tan', 'tanh', 'atan', 'atanh', 'ln', 'sqrt', 'cbrt',
       'exp', 'abs', 'floor', 'ceil', 'round', 'trunc', 'fract', 'gamma']
TWO = ['atan2', 'hypot']
VARIADIC = (1, 2, 3, 4, 5, 6, 9, 17)
NEAR = ['Sin', 'SIN', 'PI', 'Pi', 'E', 'sine', 'si', 'logg', 'lo', 'atan3', 'atan22', 'arcsin', 'x', 'sin_', "sin'", 'ln2', 'log2',
        'log10', 'pow', 'mod', 'tau', 'phi', 'inf', 'nan', 'avg', 'fact', 'inv', 'sign', 'frac', 'sec', 'pi_', 'ee', 'e1',
        'maxx', 'mi', 'inverse', 'reciprocal', 'cub', 'ceiling', 'truncate', 'sgn']


def spec():
    """name -> (arity or None, list of argument terms -> reference term)"""
    d = {}
    for n in ONE:
        d[n] = (1, lambda a, n=n: ('fn', n, a[0]))
    for n in TWO:
        d[n] = (2, lambda a, n=n: ('fn', n, a[0], a[1]))
    one = fconst(1.0).t
    d['log'] = (1, lambda a: ('fn', 'log10', a[0]))
    d['logn'] = (2, lambda a: ('div', ('fn', 'ln', a[0]), ('fn', 'ln', a[1])))
    for n in ('invert', 'recip'):
        d[n] = (1, lambda a: ('div', one, a[0]))
    d['factorial'] = (1, lambda a: ('fn', 'fact', a[0]))

    def fold(op, xs):
        t = xs[0]
        for x in xs[1:]:
            t = op(t, x)
        return t
    add = lambda x, y: ('add', x, y)
    d['sum'] = (None, lambda a: fold(add, a))
    d['mean'] = (None, lambda a: ('div', fold(add, a), fconst(float(len(a))).t))
    d['min'] = (None, lambda a: fold(lambda x, y: ('fn', 'min', x, y), a))
    d['max'] = (None, lambda a: fold(lambda x, y: ('fn', 'max', x, y), a))
    return d


def zero_sum(t):
    """0.0 + a for -0.0 + a: sums are compared up to the sign of a zero."""
    if t[0] == 'add' and t[1] == fconst(0.0).t:
        return zero_sum(t[2])
    if t[0] in ('c', 'v'):
        return t
    return t[:1] + tuple(zero_sum(x) if isinstance(x, tuple) else x for x in t[1:])


def unlog(t):
    """ln(x) / ln(b) is how log(x, b) is defined."""
    if t[0] in ('c', 'v'):
        return t
    a = tuple(unlog(x) if isinstance(x, tuple) else x for x in t[1:])
    if t[0] == 'fn' and a[0] == 'log':
        return ('div', ('fn', 'ln', a[1]), ('fn', 'ln', a[2]))
    if t[0] == 'fn' and a[0] == 'hypot':
        return ('fn', 'hypot') + tuple(sorted(a[1:], key=repr))
    if t[0] == 'sub' and a[1] == ('fn', 'trunc', a[0]):
        return ('fn', 'fract', a[0])
    return t[:1] + a


def extremes(t, k):
    """The arguments of nested minima (maxima), without the neutral infinity."""
    if t[0] == 'fn' and t[1] == k:
        return extremes(t[2], k) | extremes(t[3], k)
    if t == fconst(math.inf if k == 'min' else -math.inf).t:
        return set()
    return {t}


class NamesCheck:
    def __init__(self, prog, config):
        self.t = Tree(prog)
        self.p = prog
        self.config = config

    def discover(self):
        from props_parse import ParseCheck
        c = ParseCheck.__new__(ParseCheck)
        c.p, c.t = self.p, self.t
        c.discover()
        if not c.builtins:
            raise Anchor('the function that gives names their built-in meaning')
        return c.builtins

    def run(self):
        R = self.R = {p: Report(p, self.config) for p in ('C12', 'C13', 'C24', 'C30', 'C20', 'C27')}
        s = self.s = Session(self.t)
        self.spec = spec()
        self.ids = {}
        for fid, (ty, d) in sorted(self.builtins().items()):
            f = self.p.F[fid]
            names = sorted(set(CONSTS) | set(self.spec))
            for n in names:
                self.name(f, d, n, True)
            for n in NEAR:
                self.name(f, d, n, False)
            self.unknown_name(f, d)
            self.shown()
        for rep in R.values():
            rep.functions |= {self.p.F[x]['path'] for x in s.coverage if self.p.F[x]['krate'] == self.p.crate}
            rep.paths = s.paths
        return list(R.values())

    def builtins(self):
        return self.discover()

    def hooks(self):
        return {i: factorial_hook for i in self.t.fact_fns}

    def explore(self, body, n=400):
        def mk(sc):
            ip = Interp(self.p, self.t.m, sc, self.hooks(), {'covered': self.s.coverage})
            ip.tree = self.t
            return ip
        for r in explore(mk, body, max_paths=n):
            self.s.paths += 1
            yield r

    def fail(self, r, f, what, props):
        if r.kind == 'ub':
            self.R['C20'].violation('%s:%s' % (f['path'], what), '%s: %s at %s' % (what, r.info, r.where))
        if r.kind in ('panic', 'ub'):
            for p in props + ('C30',):
                self.R[p].violation('%s:%s:panic' % (f['path'], what), '%s: %s at %s' % (what, r.info, r.where))
        else:
            for p in props + ('C30',):
                self.R[p].unknown('%s:%s' % (f['path'], what), '%s: %s at %s' % (what, r.info, r.where))

    def meaning(self, v, d):
        if not isinstance(v, Adt):
            raise PathEnd('unknown', 'meaning %r' % (v,))
        k = next((k for k, i in d.items() if i == v.var), None)
        x = v.fs[0]
        return k, x

    # ------------------------------------------------------------ one literal name
    def name(self, f, d, n, known):
        R = self.R
        for r in self.explore(lambda ip: ip.call(f['id'], [StrV((n,))])):
            if r.kind != 'return':
                self.fail(r, f, n, ('C12', 'C13') if known else ('C12',))
                continue
            key = '%s:%s' % (f['path'], n)
            try:
                k, x = self.meaning(r.info, d)
            except PathEnd as e:
                for p in ('C12', 'C13'):
                    R[p].unknown(key, '%s: %s' % (n, e.info))
                continue
            if not known:
                if k == 'var' and text(r.ip, x).lit() == n:
                    R['C12'].ok('`%s` is a variable' % n)
                elif k == 'var':
                    R['C12'].violation(key, '`%s` becomes the variable %s' % (n, tstr(text(r.ip, x))))
                else:
                    R['C12'].violation(key, '`%s` is not documented as a built-in, yet it is not a variable' % n)
                continue
            want = 'num' if n in CONSTS else 'fn'
            if k != want:
                for p in ('C12', 'C13'):
                    R[p].violation(key, '`%s` is %s' % (n, {'var': 'a mere variable', 'num': 'a number', 'fn': 'a function'}[k]))
                continue
            R['C12'].ok('`%s` is a built-in' % n)
            if k == 'num':
                if isinstance(x, F) and x.t == fconst(CONSTS[n]).t:
                    R['C13'].ok('`%s` is %r' % (n, CONSTS[n]))
                elif isinstance(x, F) and x.t[0] == 'c':
                    R['C13'].violation(key, '`%s` is %s instead of %r' % (n, fstr(x.t), CONSTS[n]))
                else:
                    R['C13'].unknown(key, '`%s` is %r' % (n, x))
                continue
            self.function(f, d, n, r)

    def function(self, f, d, n, r):
        """Arity and behaviour of one built-in function."""
        R, t = self.R, self.t
        key = '%s:%s' % (f['path'], n)
        arity, ref = self.spec[n]
        v = r.info.fs[0]
        nb = v.fs[t.ff['nb_args']]
        k = r.ip.variant_of(nb)
        got = nb.fs[0] if self.p.T[nb.ty]['variants'][k]['fields'] else None
        nm = text(r.ip, v.fs[t.ff['name']]).lit()
        self.ids.setdefault(n, (nm, fnkey(r.ip, v)))
        if got != arity:
            R['C13'].violation(key + ':arity', '`%s` takes %s arguments instead of %s' % (
                n, 'any number of' if got is None else got, 'any number' if arity is None else arity))
            return
        R['C13'].ok('`%s` takes %s' % (n, 'any number of arguments' if arity is None else '%d argument(s)' % arity))
        for cnt in (VARIADIC if arity is None else (arity,)):
            args = [('v', ('arg', i)) for i in range(cnt)]

            def body(ip):
                w = ip.call(f['id'], [StrV((n,))])
                fp = self.callee(ip, w.fs[0].fs[t.ff['func']])
                return ip.call_value(fp, [Ref(Cell(Seq(tuple(F(a) for a in args))))])
            for q in self.explore(body):
                what = '%s with %d arguments%s' % (n, cnt, ' (%s)' % '; '.join(q.log) if q.log else '')
                if q.kind != 'return':
                    self.fail(q, f, what, ('C13',))
                    continue
                R['C30'].ok()
                R['C27'].ok()
                if not isinstance(q.info, F):
                    R['C13'].unknown(key, '%s returns %r' % (what, q.info))
                    continue
                self.compare(q, key, what, n, ref(args), q.info.t)

    def callee(self, ip, fp):
        v = fp
        while isinstance(v, Adt) and self.p.T[v.ty]['k'] == 'adt' and len(v.fs) == 1:
            v = v.fs[0]
        return v

    def compare(self, q, key, what, n, want, got):
        R = self.R['C13']
        a, b = unlog(want), unlog(got)
        if n in ('min', 'max'):
            if extremes(a, n) == extremes(b, n):
                R.ok('%s is the %s' % (what, 'minimum' if n == 'min' else 'maximum'))
                return
            inf = math.inf if n == 'min' else -math.inf
            deq = lambda x, y: x == y or x != x and y in (inf, -inf) or y != y and x in (inf, -inf)
        elif n in ('sum', 'mean'):
            a, b = zero_sum(a), zero_sum(b)
            deq = lambda x, y: x == y
        elif n in ('abs',):
            deq = None
        else:
            deq = None
        c = cmp_ieee(q.ip, a, b, deq=deq)
        if c[0] == 'eq':
            R.ok('%s = %s' % (what, fstr(want)))
        elif c[0] == 'ne':
            R.violation(key, '%s: computes %s instead of %s; %s' % (what, fstr(got), fstr(want), c[1]))
        else:
            R.unknown(key, '%s: computes %s, documented %s' % (what, fstr(got), fstr(want)))

    # ------------------------------------------------------------ any other name
    def unknown_name(self, f, d):
        R = self.R
        other = 0
        for r in self.explore(lambda ip: ip.call(f['id'], [StrV((('s', 'name'),))]), 4000):
            if r.kind == 'infeasible':
                continue
            lit = self.literal(r.ip)
            if r.kind != 'return':
                if lit is None:
                    self.fail(r, f, 'an arbitrary name', ('C12',))
                continue
            if lit is not None and (lit in self.spec or lit in CONSTS):
                continue            # decided above, on the literal itself
            k, x = self.meaning(r.info, d)
            what = '`%s`' % lit if lit is not None else 'a name that is none of the built-in ones'
            key = '%s:%s' % (f['path'], what)
            if k != 'var':
                if lit is None and self.excluded(r.ip):
                    R['C12'].violation(key, '%s is given a built-in meaning (%s)' % (what, '; '.join(r.log)[-200:]))
                elif lit is not None:
                    R['C12'].violation(key, '%s is given a built-in meaning' % what)
                else:
                    R['C12'].unknown(key, '%s is given a built-in meaning (%s)' % (what, '; '.join(r.log)[-200:]))
                continue
            s = text(r.ip, x)
            if s == StrV((('s', 'name'),)) or s.parts == (('s', 'name'),) or lit is not None and s.lit() == lit:
                other += 1
                R['C12'].ok('%s stays the variable of that name' % what)
            else:
                R['C12'].violation(key, '%s becomes the variable %s' % (what, tstr(s)))
        if not other:
            R['C12'].unknown(f['path'] + ':other', 'no path for other names')

    def literal(self, ip):
        for k, v in ip.facts.strlit.items():
            if 'name' in repr(k):
                return v
        return None

    def excluded(self, ip):
        """Have all the documented names been excluded on the path?"""
        neg = set()
        for k, v in ip.facts.strneg.items():
            if 'name' in repr(k):
                neg |= set(v)
        return set(CONSTS) | set(self.spec) <= neg

    # ------------------------------------------------------------ names shown
    def shown(self):
        """The name a built-in is displayed under leads back to it."""
        R = self.R['C24']
        for n, (nm, fk) in sorted(self.ids.items()):
            if nm is None:
                R.unknown('name:' + n, 'the name of `%s` is not a constant' % n)
            elif nm in self.ids and self.ids[nm][1] == fk:
                R.ok('`%s` is shown as `%s`, which is read as the same function' % (n, nm))
            elif nm in self.ids and self.spec[nm][0] == self.spec[n][0] and nm in ('invert', 'recip') and n in ('invert', 'recip'):
                R.ok('`%s` is shown as its alias `%s`' % (n, nm))
            else:
                R.violation('name:' + n, '`%s` is shown as `%s`, which is not read as the same function' % (n, nm))
