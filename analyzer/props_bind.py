"""C18: binding checks the names and passes values by position."""
from absint import *
from tree import *
from report import Report
from models import map_get
from props_eval import is_ok
from terms import cmp_ieee

W = r'__xprs_witness::'


class BindSession(Session):
    def env(self, ip, f, a, i):
        e = Session.env(self, ip, f, a, i)
        for j, x in enumerate(a):
            m = find_map(ip, x) if j != i else None
            if m is not None:
                ip.envs[e] = m
        return e

    def cut_evr(self, ip, f, a, r):
        """Checked evaluation succeeds exactly when every variable of the expression has a value (C04)."""
        e, i = self.elem(ip, f, a)
        env = self.env(ip, f, a, i)
        k = self.key(ip, e)
        if env in ip.envs and k in ('e', ('S', 'e')) and ('evok', env, k) not in ip.facts.bools:
            if all(map_get(ip, ip.envs[env], v) is not None for v in ip.vs):
                ip.facts.bools[('evok', env, k)] = True
            elif k == 'e':
                ip.facts.bools[('evok', env, k)] = False
        return Session.cut_evr(self, ip, f, a, r)


def name(k, i):
    return StrV((('s', (k, i)),))


class BindCheck:
    def __init__(self, prog, config):
        self.p, self.config = prog, config
        self.t = Tree(prog)

    def run(self):
        R = self.R = {p: Report(p, self.config) for p in ('C18', 'C20', 'C22', 'C27', 'C30')}
        t = self.t
        self.s = BindSession(t)
        self.paths = 0
        T = self.p.T[t.XPRS]
        self.xfields = [ty for _, ty in T['variants'][0]['fields']]
        fns = []
        for f in sorted(self.p.F.values(), key=lambda f: f['path']):
            if f['krate'] != self.p.crate or not f['body'] or not f['sig'] or f['kind'] != 'item':
                continue
            if re.search(r'(^|::)Xprs::<[^>]*>::bind\d*$', f['path']) and f['sig'][0] == t.XPRS:
                fns.append((f, len(f['sig']) - 2, 'args'))
            elif re.search(r'(^|::)Xprs::<[^>]*>::bind_n_runtime$', f['path']):
                for k in (0, 1, 2, 3, 5, 9, 20):
                    fns.append((f, k, 'slice'))
            else:
                m = re.search(W + r'bind_n_(\d+)$', f['path'])
                if m:
                    fns.append((f, int(m[1]), 'array'))
        if sum(1 for _, _, m in fns if m == 'args') < 9:
            R['C18'].unknown('anchor', 'found only %d of the nine positional binding methods' % sum(
                1 for _, _, m in fns if m == 'args'))
        for m in ('array', 'slice'):
            if not any(x[2] == m for x in fns):
                R['C18'].unknown('anchor:' + m, 'no binding method taking %s' % m)
        for f, k, mode in fns:
            for m in (0, 1) + ((2,) if k <= 9 else ()) + ((3,) if k <= 3 else ()):
                self.case(f, k, mode, m, False)
                if m and k <= 5:
                    self.case(f, k, mode, m, True)
        many = [x for x in fns if x[1] == 1][:1] + [x for x in fns if x[2] == 'slice' and x[1] == 1][:1]
        for f, k, mode in many:
            for n in (4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 300):
                self.many(f, k, mode, n)
        for rep in R.values():
            rep.functions |= {self.p.F[x]['path'] for x in self.s.coverage if self.p.F[x]['krate'] == self.p.crate}
            rep.paths = self.paths
        return list(R.values())

    # ------------------------------------------------------------ arguments
    def var(self, n):
        t = self.t
        ty = self.p.T[t.ELEMENT]['variants'][t.V['var']]['fields'][0][1]
        v = BoxV(Cell(n)) if self.p.T[ty].get('box') else n
        return Adt(t.ELEMENT, t.V['var'], (v,))

    def minus(self, ip, a, b):
        t = self.t

        def child(ty, e):
            return BoxV(Cell(e)) if self.p.T[ty].get('box') else e
        flds = self.p.T[t.BINOP]['variants'][0]['fields']
        fs = [None] * len(flds)
        fs[t.bf['op']] = Adt(t.OPER, t.opnames.index('Minus'), ())
        fs[t.bf['lhs']] = child(flds[t.bf['lhs']][1], a)
        fs[t.bf['rhs']] = child(flds[t.bf['rhs']][1], b)
        for i, x in enumerate(fs):
            if x is None:
                fs[i] = ip.opq(('bin', i), flds[i][1])
        x = Adt(t.BINOP, 0, tuple(fs))
        ty = self.p.T[t.ELEMENT]['variants'][t.V['bin']]['fields'][0][1]
        return Adt(t.ELEMENT, t.V['bin'], (child(ty, x),))

    def xprs(self, ip, root, names):
        t = self.t
        fs = [ip.opq(('x', i), ty) if i not in (t.ROOTF, t.VARSF) else None for i, ty in enumerate(self.xfields)]
        ty = self.xfields[t.ROOTF]
        fs[t.ROOTF] = BoxV(Cell(root)) if self.p.T[ty].get('box') and not isinstance(root, BoxV) else root
        fs[t.VARSF] = SetV(tuple(names))
        return Adt(t.XPRS, 0, tuple(fs))

    def distinct(self, ip, names):
        for i, a in enumerate(names):
            for b in names[:i]:
                ip.facts.bools[('streq',) + tuple(sorted((a, b), key=lambda x: repr(x.parts)))] = False

    def names_arg(self, mode, ns):
        if mode == 'args':
            return list(ns)
        s = Seq(tuple(ns))
        return [s] if mode == 'array' else [Ref(Cell(s))]

    # ------------------------------------------------------------ cases
    def case(self, f, k, mode, m, opaque):
        what = '%s with %d names, %d variable%s%s' % (f['path'].rsplit('::', 1)[1], k, m, '' if m == 1 else 's',
                                                      ', any expression' if opaque else '')
        key = '%s:%d:%d%s' % (f['path'], k, m, ':any' if opaque else '')

        def body(ip):
            vs = [name('v', i) for i in range(m)]
            ns = [name('n', i) for i in range(k)]
            self.distinct(ip, vs)
            self.distinct(ip, ns)
            ip.envs, ip.vs = {}, vs
            if opaque:
                root = Opq('e', self.t.ELEMENT)
                ip.tyof.put(root)
            elif m == 0:
                root = Adt(self.t.ELEMENT, self.t.V['num'], (F(('v', 'num')),))
            else:
                root = self.var(vs[0])
                for n in vs[1:]:
                    root = self.minus(ip, root, self.var(n))
            x = self.xprs(ip, root, vs)
            r = ip.call(f['id'], [x] + self.names_arg(mode, ns))
            where = [next((i for i in range(k) if ip.streq(v, ns[i])), None) for v in vs]
            return self.judge(ip, f, r, k, mode, vs, ns, where, opaque)
        self.run_case(f, key, what, body, opaque)

    def judge(self, ip, f, r, k, mode, vs, ns, where, opaque):
        missing = [v for v, w in zip(vs, where) if w is None]
        ok = is_ok(self.p, r) if isinstance(r, Adt) else None
        if ok is None:
            raise PathEnd('unknown', 'result %r' % (r,))
        if missing:
            if ok:
                return 'accepts although %s is not bound' % tstr(missing[0])
            return self.error(ip, r.fs[0], missing)
        if not ok:
            return 'refuses although every variable is bound'
        clo = r.fs[0]
        cell = Cell(clo)
        counts = [k] if mode != 'slice' else [j for j in range(k + 2) if k <= 5 or j in (0, 1, k - 1, k, k + 1)]
        j0 = k if len(counts) == 1 else counts[ip.choose(len(counts))]
        if len(counts) > 1:
            ip.note('%d values' % j0)
        for rnd, j in ((0, j0), (1, j0 if len(counts) == 1 else k)):
                xs = [F(('v', ('arg', rnd, i))) for i in range(j)]
                a = xs if mode == 'args' else [Seq(tuple(xs))] if mode == 'array' else [Ref(Cell(Seq(tuple(xs))))]
                got = ip.call_callable(strip(ip, cell.v) if not isinstance(cell.v, (Adt, CloPtr, FnV)) else cell.v, a, Ref(cell))
                d = self.value(ip, got, xs, mode, vs, ns, where, opaque)
                if d is not None:
                    return d + (' (with %d values)' % j if mode == 'slice' else '') + (' on the second call' if rnd else '')
        return None

    def value(self, ip, got, xs, mode, vs, ns, where, opaque):
        lost = [v for v, w in zip(vs, where) if w >= len(xs)]
        if mode == 'slice':
            ok = is_ok(self.p, got) if isinstance(got, Adt) else None
            if ok is None:
                raise PathEnd('unknown', 'result %r' % (got,))
            if opaque:
                if not ok:
                    return None if lost else 'fails although every variable has a value'
            elif lost:
                if ok:
                    return 'evaluates although %s has no value' % tstr(lost[0])
                n = text(ip, unboxv(ip.expand(got.fs[0], 0)).fs[0])
                if n not in lost:
                    return 'reports %s, which is not a missing value' % tstr(n)
                return None
            elif not ok:
                return 'reports a missing value although all are given'
            got = got.fs[0]
        if not isinstance(got, F):
            raise PathEnd('unknown', 'value %r' % (got,))
        if opaque:
            g = got.t
            if not (g[0] == 'v' and isinstance(g[1], tuple) and g[1][0] == 'ev' and g[1][1] in ip.envs):
                raise PathEnd('unknown', 'value %s' % fstr(g))
            if g[1][2] != 'e' and g[1][2] != ('S', 'e'):
                raise PathEnd('unknown', 'value %s' % fstr(g))
            env = ip.envs[g[1][1]]
            for v, w in zip(vs, where):
                c = map_get(ip, env, ns[w])
                if w >= len(xs):
                    if c is not None:
                        return 'gives %s a value although none was given' % tstr(v)
                    continue
                if c is None:
                    return 'gives %s no value' % tstr(v)
                if not isinstance(c.v, F) or c.v.t != xs[w].t:
                    return 'gives name %d the value %s' % (w, fstr(c.v.t) if isinstance(c.v, F) else repr(c.v))
            return None
        want = ('v', 'num')
        for i, (v, w) in enumerate(zip(vs, where)):
            want = xs[w].t if i == 0 else binterm('Minus', want, xs[w].t)
        c = cmp_ieee(ip, want, got.t)
        if c[0] == 'ne':
            return 'gives %s instead of %s: %s' % (fstr(got.t), fstr(want), c[1])
        if c[0] != 'eq':
            raise PathEnd('unknown', 'value %s' % fstr(got.t))
        return None

    def error(self, ip, e, missing):
        e = unboxv(e)
        if not isinstance(e, Adt):
            raise PathEnd('unknown', 'error %r' % (e,))
        vname = self.p.T[e.ty]['variants'][e.var]['name']
        want = 'OneVariable' if len(missing) == 1 else 'MultipleVariables'
        names = {v['name'] for v in self.p.T[e.ty]['variants']}
        if want not in names:
            raise PathEnd('unknown', 'the error has no %s' % want)
        if vname != want:
            return 'reports %s for %d missing variable%s' % (vname, len(missing), '' if len(missing) == 1 else 's')
        s = text(ip, unboxv(e.fs[0]))
        if all(m.lit() is not None for m in missing):
            l = s.lit()
            if l is None:
                raise PathEnd('unknown', 'list %r' % (s,))
            got = sorted(l.split(', '))
            if got != sorted(m.lit() for m in missing):
                return 'the error lists %d names: %r' % (len(got), l[:60])
            return None
        got, sep = [], []
        for p in s.parts:
            (sep if isinstance(p, str) else got).append(p)
        if sorted(map(repr, got)) != sorted(repr(m.parts[0]) for m in missing):
            return 'the error lists %s instead of %s' % ([tstr(x) for x in got], [tstr(m) for m in missing])
        if any(not isinstance(p, str) and i % 2 for i, p in enumerate(s.parts)) or any(x != ', ' for x in sep):
            return 'the error separates the names by %r' % (sep,)
        # what is shown
        out = []
        try:
            self.show(ip, e, out)
        except PathEnd:
            return None
        at = [p for p in out if p in got]
        if any(isinstance(p, tuple) and p[0] in ('display', 'debug', 'sdebug') for p in out):
            raise PathEnd('unknown', 'message %r' % (out,))
        if sorted(map(repr, at)) != sorted(map(repr, got)):
            return 'the message does not show the missing names'
        return None

    def show(self, ip, e, out):
        from models import display
        display(ip, e.ty, Ref(Cell(e)), out)

    def many(self, f, k, mode, n):
        what = '%s with one name, %d variables' % (f['path'].rsplit('::', 1)[1], n)

        def body(ip):
            vs = [StrV(('x%d' % i,)) for i in range(n)]
            ip.envs, ip.vs = {}, vs
            root = Opq('e', self.t.ELEMENT)
            ip.tyof.put(root)
            r = ip.call(f['id'], [self.xprs(ip, root, vs)] + self.names_arg(mode, [StrV(('y',))]))
            ok = is_ok(self.p, r) if isinstance(r, Adt) else None
            if ok is None:
                raise PathEnd('unknown', 'result %r' % (r,))
            if ok:
                return 'accepts although %d variables are not bound' % n
            return self.error(ip, r.fs[0], vs)
        self.run_case(f, '%s:many' % f['path'], what, body, True)

    def run_case(self, f, key, what, body, opaque):
        R = self.R
        nocut = lambda ip, g, r, a: not self.opaque_arg(ip, g, a)
        n = 0
        for r in explore(lambda s: self.s.interp(s, f['id'], {'nocut': nocut, 'maxchoices': 4000}), body, max_paths=4000):
            self.paths += 1
            n += 1
            at = '%s (%s)' % (what, '; '.join(r.log)[-240:])
            if r.kind == 'return':
                R['C30'].ok()
                R['C27'].ok()
                if r.info is None:
                    R['C18'].ok(at)
                    R['C22'].ok()
                else:
                    R['C18'].violation(key, '%s: %s' % (at, r.info))
                    if 'second call' in r.info:
                        R['C22'].violation(key + ':history', '%s: %s' % (at, r.info))
            elif r.kind in ('panic', 'ub'):
                R['C18'].violation(key + ':' + r.kind, '%s: %s at %s' % (at, r.info, r.where))
                R['C30' if r.kind == 'panic' else 'C20'].violation(key + ':' + r.kind, '%s: %s at %s' % (at, r.info, r.where))
            else:
                R['C18'].unknown(key, '%s: %s at %s' % (at, r.info, r.where))
        if not n:
            R['C18'].unknown(key, what + ': no path')

    def opaque_arg(self, ip, g, a):
        for i, ty in enumerate(g['sig'][:-1]):
            if self.t.pkind(ty) in ('E', '&E', '&mutE'):
                v = a[i]
                while isinstance(v, Ref):
                    v = ip.load(v)
                return isinstance(unboxv(v), Opq)
        return False
