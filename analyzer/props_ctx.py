"""C17: the context is a table in which the last definition of a name wins."""
from absint import *
from tree import *
from report import Report

W = r'__xprs_witness::'
CTX = r'(^|::)Context::<[^>]*>::'
PARSER = r'(^|::)Parser::<[^>]*>::'


class Model:
    """What the context must hold: definitions, latest last, over a base."""

    def __init__(self, base, exp):
        self.defs, self.base, self.exp = [], base, exp

    def copy(self):
        m = Model(self.base, self.exp)
        m.defs = list(self.defs)
        return m


class CtxCheck:
    def __init__(self, prog, config):
        self.p, self.config = prog, config
        self.t = Tree(prog)

    def run(self):
        R = self.R = {p: Report(p, self.config) for p in ('C17', 'C20', 'C30')}
        self.covered, self.paths = set(), 0
        t = self.t
        self.get = t.fn(CTX + 'get$', 2)
        self.exp = t.fn(CTX + 'get_expected_vars$', 1)
        self.SYM = self.p.T[self.p.T[self.get['sig'][-1]]['args'][0]]['to']
        self.CTX = self.p.T[self.get['sig'][0]]['to']
        vs = self.p.T[self.SYM]['variants']
        self.sv = {}
        for i, v in enumerate(vs):
            if len(v['fields']) == 1:
                ty = v['fields'][0][1]
                self.sv['fn' if t.unbox(ty) == t.FUNC else 'var' if self.p.T[ty]['k'] == 'float' else v['name']] = i
        if not {'fn', 'var'} <= set(self.sv):
            raise Anchor('variants of Symbol')
        ops = self.ops()
        self.default = self.opt(W + 'default_ctx$', 0)
        self.clone = self.opt(W + 'clone_ctx$', 1)
        # any context, one operation: the inductive step
        for a in ops:
            self.case('any', [a])
        # histories: representation and order
        for a in ops:
            for b in ops:
                self.case('any', [a, b])
        if self.default is not None:
            self.case('default', [])
            for a in ops:
                self.case('default', [a])
                for b in ops:
                    self.case('default', [a, b])
            short = [o for o in ops if o[0] in ('set_var', 'with_fn', 'set_expected_vars', 'with_symbols')]
            for a in short:
                for b in short:
                    for c in short:
                        self.case('default', [a, b, c])
        if self.clone is not None:
            for a in ops:
                self.case('clone', [a])
        self.parser(ops)
        for rep in R.values():
            rep.functions |= {self.p.F[x]['path'] for x in self.covered if self.p.F[x]['krate'] == self.p.crate}
            rep.paths = self.paths
        return list(R.values())

    def opt(self, rx, argc):
        try:
            return self.t.fn(rx, argc)
        except Anchor as e:
            self.R['C17'].unknown('anchor:' + rx, str(e))
            return None

    # ------------------------------------------------------------ operations
    def ops(self):
        """(name, function, in place?, what its argument defines)"""
        out = []
        for nm, rx, kind in (
                ('set_var', W + 'set_var$', 'var'), ('with_var', W + 'with_var$', 'var'),
                ('set_var(7_u8)', W + 'set_var_int$', 7.0), ('with_var(-7_i32)', W + 'with_var_int$', -7.0),
                ('set_fn', CTX + 'set_fn$', 'fn'), ('with_fn', CTX + 'with_fn$', 'fn'),
                ('set_expected_vars', CTX + 'set_expected_vars$', 'exp'),
                ('with_expected_vars', CTX + 'with_expected_vars$', 'exp'), ('with_symbols', CTX + 'with_symbols$', 'map')):
            f = self.opt(rx, None)
            if f is not None:
                out.append((nm, f, nm.startswith('set'), kind))
        return out

    def apply(self, ip, op, i, ctx, m):
        """Runs the operation on the context; updates the model; the new context."""
        nm, f, inplace, kind = op
        a = []
        if kind == 'fn':
            d = ip.opq(('F', i), f['sig'][1])
            a = [d]
            if m is not None:
                d = ip.expand(d, 0)
                m.defs.append((text(ip, d.fs[self.t.ff['name']]), 'fn', d))
        elif kind == 'exp':
            s = ip.opq(('E', i), f['sig'][1])
            a = [s]
            if m is not None:
                m.exp = ('set', s)
        elif kind == 'map':
            s = ip.opq(('M', i), f['sig'][1])
            a = [s]
            if m is not None:
                m.defs, m.base = [], ('map', s)
        else:
            n = StrV((('s', ('n', i)),))
            v = F(('v', ('x', i))) if kind == 'var' else fconst(kind)
            a = [n] + ([v] if kind == 'var' else [])
            if m is not None:
                m.defs.append((n, 'var', v))
        if inplace:
            c = Cell(ctx)
            ip.call(f['id'], [Ref(c)] + a)
            return c.v
        return ip.call(f['id'], [ctx] + a)

    # ------------------------------------------------------------ one history
    def case(self, start, ops):
        what = {'any': 'an arbitrary context', 'default': 'the empty context', 'clone': 'a clone'}[start] + ''.join(
            ', %s' % o[0] for o in ops)

        def body(ip):
            orig = Opq(('ctx',), self.CTX)
            if start == 'default':
                ctx, m = ip.call(self.default['id'], []), Model(None, None)
            elif start == 'clone':
                ctx, m = ip.call(self.clone['id'], [Ref(Cell(orig))]), Model(('ctx', orig), ('ctx', orig))
            else:
                ctx, m = orig, Model(('ctx', orig), ('ctx', orig))
            for i, o in enumerate(ops):
                ctx = self.apply(ip, o, i, ctx, m)
            return self.compare(ip, ctx, m)
        self.judge('ctx:%s:%s' % (start, '+'.join(o[0] for o in ops)), what, body)

    def lookup(self, ip, ctx, q):
        return ip.call(self.get['id'], [Ref(Cell(ctx)), q])

    def compare(self, ip, ctx, m):
        """None if the lookups agree with the model, else the difference."""
        q = StrV((('s', ('q',)),))
        got = self.lookup(ip, ctx, q)
        want = None
        for n, kind, v in reversed(m.defs):
            if ip.truth(ip.streq(q, n)):
                want = (kind, v)
                break
        if want is not None:
            if ip.variant_of(got) != 1:
                return 'the lookup of a name just defined finds nothing'
            s = self.symbol(ip, got)
            k = ip.variant_of(s)
            if k != self.sv[want[0]]:
                return 'the lookup of a name defined as %s finds the other kind' % ('variable' if want[0] == 'var' else 'function')
            s = ip.expand(s, k)
            x = s.fs[0]
            if want[0] == 'var':
                if not isinstance(x, F) or x.t != want[1].t:
                    return 'the lookup gives %s instead of %s' % (fstr(x.t) if isinstance(x, F) else repr(x), fstr(want[1].t))
            elif not self.samefn(ip, x, want[1]):
                return 'the lookup gives another function than the one defined'
        else:
            if m.base is None:
                ref = None
            elif m.base[0] == 'ctx':
                ref = self.lookup(ip, m.base[1], q)
                ref = self.symbol(ip, ref) if ip.variant_of(ref) == 1 else None
            else:
                from models import map_get
                c = map_get(ip, ip.load(Ref(Cell(m.base[1]))), q)
                ref = c.v if c is not None else None
            if (ip.variant_of(got) == 1) != (ref is not None):
                return 'a name that was not touched is now %s' % ('defined' if ref is None else 'undefined')
            if ref is not None and not self.samesym(ip, self.symbol(ip, got), ref):
                return 'the meaning of another name changed'
        e = ip.call(self.exp['id'], [Ref(Cell(ctx))])
        if m.exp is None:
            if ip.variant_of(e) != 0:
                return 'variables are expected though none were set'
        elif m.exp[0] == 'set':
            if ip.variant_of(e) != 1:
                return 'the expected variables are lost'
            if not self.sameset(ip, e, m.exp[1]):
                return 'the expected variables are not those that were set'
        else:
            e0 = ip.call(self.exp['id'], [Ref(Cell(m.exp[1]))])
            k = ip.variant_of(e)
            if k != ip.variant_of(e0):
                return 'the expected variables changed'
            if k == 1 and not self.sameset(ip, e, ip.load(ip.expand(e0, 1).fs[0])):
                return 'the expected variables changed'
        return None

    def symbol(self, ip, opt):
        return strip(ip, ip.expand(opt, 1).fs[0])

    def samesym(self, ip, a, b):
        if vkey(a) == vkey(b):
            return True
        k = ip.variant_of(a)
        if k != ip.variant_of(b):
            return False
        x, y = ip.expand(a, k).fs[0], ip.expand(b, k).fs[0]
        if k == self.sv['var']:
            return isinstance(x, F) and isinstance(y, F) and x.t == y.t
        return self.samefn(ip, x, y)

    def samefn(self, ip, a, b):
        a, b = strip(ip, a), strip(ip, b)
        if vkey(a) == vkey(b):
            return True
        a, b = ip.expand(a, 0), ip.expand(b, 0)
        ff = self.t.ff
        if fnkey(ip, a) != fnkey(ip, b) or text(ip, a.fs[ff['name']]) != text(ip, b.fs[ff['name']]):
            return False
        x, y = a.fs[ff['nb_args']], b.fs[ff['nb_args']]
        if vkey(x) == vkey(y):
            return True
        k = ip.variant_of(x)
        if k != ip.variant_of(y):
            return False
        return [vkey(z) for z in ip.expand(x, k).fs] == [vkey(z) for z in ip.expand(y, k).fs]

    def sameset(self, ip, e, s):
        x = ip.load(ip.expand(e, 1).fs[0])
        if not isinstance(x, SetV) or not isinstance(s, SetV):
            raise PathEnd('unknown', 'expected variables %r' % (x,))
        from models import set_has
        if set(x.parts) == set(s.parts) and x.minus == s.minus:
            return True
        k = StrV((('s', ('any',)),))
        return set_has(ip, x, k) == set_has(ip, s, k)

    # ------------------------------------------------------------ Parser
    def parser(self, ops):
        new = self.opt(PARSER + 'new_with_ctx$', 1)
        ctx = self.opt(PARSER + 'ctx$', 1)
        mut = self.opt(PARSER + 'ctx_mut$', 1)
        dflt = self.opt(W + 'default_parser$', 0)
        cl = self.opt(W + 'clone_parser$', 1)
        if ctx is None:
            return

        def view(ip, p):
            r = ip.call(ctx['id'], [Ref(Cell(p))])
            return ip.load(r)
        if new is not None:
            def body(ip):
                o = Opq(('ctx',), self.CTX)
                return self.compare(ip, view(ip, ip.call(new['id'], [o])), Model(('ctx', o), ('ctx', o)))
            self.judge('parser:new', 'a parser made with a context shows it', body)
        if dflt is not None:
            self.judge('parser:default', 'the default parser has the empty context',
                       lambda ip: self.compare(ip, view(ip, ip.call(dflt['id'], [])), Model(None, None)))
        PTY = self.p.T[ctx['sig'][0]]['to']

        def start(ip):
            p = Opq(('parser',), PTY)
            o = view(ip, p)
            return p, o
        if cl is not None:
            def body(ip):
                p, o = start(ip)
                return self.compare(ip, view(ip, ip.call(cl['id'], [Ref(Cell(p))])), Model(('ctx', o), ('ctx', o)))
            self.judge('parser:clone', 'a clone of a parser has the same context', body)
        if mut is not None:
            for op in ops:
                if not op[2]:
                    continue

                def body(ip, op=op):
                    p, o = start(ip)
                    c = Cell(p)
                    r = ip.call(mut['id'], [Ref(c)])
                    m = Model(('ctx', o), ('ctx', o))
                    ip.store(r, self.apply(ip, op, 0, ip.load(r), m))
                    return self.compare(ip, view(ip, c.v), m)
                self.judge('parser:ctx_mut:' + op[0], 'a parser shows what %s does to its context' % op[0], body)

    # ------------------------------------------------------------ paths
    def judge(self, key, what, body):
        R = self.R

        def mk(sc):
            ip = Interp(self.p, self.t.m, sc, {}, {'covered': self.covered})
            ip.tree = self.t
            return ip
        n = 0
        for r in explore(mk, body, max_paths=600):
            self.paths += 1
            n += 1
            at = '%s (%s)' % (what, '; '.join(r.log)[-240:])
            if r.kind == 'return':
                if r.info is None:
                    R['C17'].ok(at)
                else:
                    R['C17'].violation(key, '%s: %s' % (at, r.info))
            elif r.kind in ('panic', 'ub'):
                R['C17'].violation(key + ':' + r.kind, '%s: %s at %s' % (at, r.info, r.where))
                if r.kind == 'ub':
                    R['C20'].violation(key + ':ub', '%s: %s at %s' % (at, r.info, r.where))
            else:
                R['C17'].unknown(key, '%s: %s at %s' % (at, r.info, r.where))
        if not n:
            R['C17'].unknown(key, what + ': no path')
