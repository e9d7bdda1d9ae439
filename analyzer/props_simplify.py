"""C05, C19 and the exactness part of C06: simplification."""
from absint import *
from tree import *
from terms import cmp_ieee, cmp_real, subst
from report import Report
from size import Recursion
from props_eval import shape


def plain_atom(term, mode):
    return ('v', ('ev', mode, term))


def fresh_elem(tree, f):
    """Arguments of a simplification function: one fresh element, one (name, value) pair."""
    def mk(ip):
        a = []
        for i, t in enumerate(f['sig'][:-1]):
            k = tree.pkind(t)
            v = ip.opq('x' if k in ('E', '&E', '&mutE') else 'var%d' % i, t)
            if k in ('E', '&E', '&mutE'):
                e = unboxv(strip(ip, v))
                ip.tyof.put(e)
                ip.elem = e
                ip.rootkey = e.term
            a.append(v)
        ip.var = None
        ks = [tree.pkind(t) for t in f['sig'][:-1]]
        if 'pair' in ks:
            v = strip(ip, a[ks.index('pair')])
            v = ip.expand(v) if isinstance(v, Opq) else v
            ip.var = (text(ip, v.fs[0]), v.fs[1])
        elif 'str' in ks and 'f' in ks:
            ip.var = (text(ip, a[ks.index('str')]), a[ks.index('f')])
        return a
    return mk


def result_elem(tree, f, ip, v):
    if tree.pkind(f['sig'][-1]) == 'E':
        return unboxv(v)
    for i, t in enumerate(f['sig'][:-1]):
        if tree.pkind(t) == '&mutE':
            return unboxv(strip(ip, ip.args[i]))
    return None


def may_have(ip, v, var, out):
    """Collects the opaque parts in which the variable may still occur."""
    t = ip.tree
    v = unboxv(strip(ip, v))
    if isinstance(v, Opq):
        vs = ip.facts.variants.get(v.term)
        k = v.term
        if isinstance(k, tuple) and k[0] in ('S', 'SF'):
            # free of the variable if what it came from is
            for role, res, arg, rv in ip.cuts:
                if res.term == k:
                    if role == 'SF' and vkey(rv[0]) == vkey(var[0]):
                        return
                    return may_have(ip, arg, var, out)
        if vs is not None and len(vs) == 1:
            v = ip.expand(v, next(iter(vs)))
        else:
            # a part of a substituted element is free of the variable
            b = k
            while isinstance(b, tuple) and b[0] in ('f', 'el', '*', 'box', 'S'):
                b = b[1]
                if isinstance(b, tuple) and b[0] == 'SF' and b[2] == vkey(var[0]):
                    return
            out.append(tstr(k))
            return
    k = v.var
    kind = t.kinds[k]
    x = unboxv(v.fs[0])
    if kind == 'num':
        return
    if kind == 'var':
        n = ip.canon_str(text(ip, x))
        # a name inside a substituted element differs from the variable
        for p in n.parts:
            b = p
            while isinstance(b, tuple) and len(b) > 1:
                if b[0] == 'SF' and b[2] == vkey(var[0]):
                    return
                if b[0] in ('f', 'el', '*', 'box', 's', 'S'):
                    b = b[1]
                else:
                    break
        if known_streq(ip, n, ip.canon_str(var[0])) is not False:
            out.append('the variable %s' % tstr(n))
        return
    if isinstance(x, Opq):
        x = ip.expand(x, 0)
    if kind == 'bin':
        may_have(ip, x.fs[t.bf['lhs']], var, out)
        may_have(ip, x.fs[t.bf['rhs']], var, out)
    elif kind == 'un':
        may_have(ip, x.fs[t.uf['operand']], var, out)
    else:
        a = x.fs[t.cf['args']]
        if isinstance(a, SeqOpq) and ip.facts.lens.get(a.term) is None:
            out.append('the arguments')
            return
        for y in ip.seq(a).items:
            may_have(ip, y, var, out)


def foreign_vars(ip, v, root, out):
    """Variables and opaque elements of the result that do not come from the original."""
    t = ip.tree
    v = unboxv(strip(ip, v))
    if isinstance(v, Opq):
        return
    kind = t.kinds[v.var]
    x = unboxv(v.fs[0])
    if kind == 'var':
        n = text(ip, x)
        if n.lit() is not None:
            out.append(n.lit())


class SimplifyCheck:
    def __init__(self, prog, config):
        self.t = Tree(prog)
        self.p = prog
        self.config = config
        self.r05 = Report('C05', config)
        self.r19 = Report('C19', config)
        self.r06 = Report('C06', config)
        self.r27 = Report('C27', config)
        self.rec = Recursion(prog, self.r27)
        self.r30 = Report('C30', config)

    def roots(self):
        """Recursive simplification functions met from the public operations."""
        s = Session(self.t)
        for f in self.public_fns():
            for r in s.explore(f, self.mk_public(f), seq_lens_vars=None):
                pass
        # the parser simplifies its result
        for f in self.p.F.values():
            if f['krate'] == self.p.crate and f['body'] and self.t.role(f) in ('S', 'S!'):
                s.new.setdefault(f['id'], self.t.role(f))
        return s.new

    def public_fns(self):
        out = []
        for n in ('simplify_for', 'simplify_for_in_place', 'simplify_for_multiple', 'simplify_for_multiple_in_place'):
            out.append(self.t.method('Xprs', n))
        return out

    def mk_public(self, f):
        def mk(ip):
            a = []
            for i, t in enumerate(f['sig'][:-1]):
                v = ip.opq('a%d' % i, t)
                e = strip(ip, v)
                ip.tyof.put(e)
                a.append(v)
            return a
        return mk

    def run(self):
        done = set()
        todo = dict(self.roots())
        s = Session(self.t, opts={'arglens': (1, 2, 3)})
        while True:
            new = [(f, r) for f, r in {**todo, **s.new}.items() if f not in done]
            if not new:
                break
            for fid, role in new:
                done.add(fid)
                f = self.p.F[fid]
                if role in ('S', 'S!'):
                    self.simplify(s, f)
                    self.closed(s, f)
                    self.small(s, f)
                elif role in ('SF', 'SF!'):
                    self.substitute(s, f)
                    self.small(s, f)
        if not any(self.t.role(self.p.F[f]) in ('S', 'S!') for f in done):
            self.r05.unknown('anchor', 'no recursive simplification function was met')
        self.public(s)
        self.rec.finish()
        reps = [self.r05, self.r19, self.r06, self.r27, self.r30]
        for r in reps:
            r.functions |= {self.p.F[x]['path'] for x in s.coverage if self.p.F[x]['krate'] == self.p.crate}
            r.paths = s.paths
        return reps

    def common(self, r, f, reps):
        """False when the path has no result to look at."""
        ip = r.ip
        key = '%s:%s' % (f['path'], shape(ip, ip.elem))
        site = '%s, %s (%s)' % (f['path'], shape(ip, ip.elem), '; '.join(r.log) or 'always')
        self.rec.path(ip, f, site)
        if r.kind in ('unknown', 'budget'):
            for rep in reps + [self.r30]:
                rep.unknown(key, '%s: %s at %s' % (site, r.info, r.where))
            return None
        if r.kind in ('panic', 'ub'):
            self.r30.violation(key, '%s panics: %s at %s' % (site, r.info, r.where))
            return None
        self.r30.ok('%s returns' % site)
        return key, site

    def simplify(self, s, f):
        for r in s.explore(f, fresh_elem(self.t, f)):
            c = self.common(r, f, [self.r05])
            if c is None:
                continue
            key, site = c
            ip = r.ip
            res = result_elem(self.t, f, ip, r.info)
            self.rec.result(ip, res, site)
            try:
                eqs, rest = equations(ip, ['env'], plain_atom)
                want = value(ip, ip.elem, 'env', plain_atom)
                got = value(ip, res, 'env', plain_atom)
            except PathEnd as e:
                self.r05.unknown(key, '%s: %s' % (site, e.info))
                continue
            self.judge_real(self.r05, ip, key, site, want, got, eqs, rest)

    def judge_real(self, rep, ip, key, site, want, got, eqs, rest):
        key = '%s -> %s' % (key, skeleton(got))
        c = cmp_real(ip, want, got, eqs)
        if c[0] == 'eq':
            rep.ok('%s: %s = %s%s' % (site, fstr(want), fstr(got), ' (never defined)' if len(c) > 1 else ''))
        elif c[0] == 'ne' and not rest:
            rep.violation(key, '%s: %s becomes %s (%s)' % (site, fstr(subst(want, eqs)), fstr(subst(got, eqs)), c[1]))
        else:
            rep.unknown(key, '%s: %s against %s' % (site, fstr(subst(want, eqs)), fstr(subst(got, eqs))))

    def substitute(self, s, f):
        for r in s.explore(f, fresh_elem(self.t, f)):
            c = self.common(r, f, [self.r19])
            if c is None:
                continue
            key, site = c
            ip = r.ip
            res = result_elem(self.t, f, ip, r.info)
            self.rec.result(ip, res, site)
            var = ip.var
            sub = submode('env', var)
            try:
                eqs, rest = equations(ip, ['env'], plain_atom)
                want = value(ip, ip.elem, sub, plain_atom)
                got = value(ip, res, 'env', plain_atom)
                left = []
                may_have(ip, res, var, left)
            except PathEnd as e:
                self.r19.unknown(key, '%s: %s' % (site, e.info))
                continue
            if left:
                self.r19.violation(key + ':left', '%s: %s remains in the result although it may be or contain the '
                                   'substituted variable' % (site, left[0]))
            self.judge_real(self.r19, ip, key, site, want, got, eqs, rest)

    def small(self, s, f):
        """One operation on numbers and variables, nothing cut: it comes to an end (the ledger knows when it does not)."""
        leaves = frozenset((self.t.V['num'], self.t.V['var']))

        def variants(ip, o, vs):
            vs = s.variants(ip, o, vs)
            if o.ty == self.t.ELEMENT and o.term != ip.rootkey:
                vs = vs & leaves
            return vs
        for r in s.explore(f, fresh_elem(self.t, f), max_paths=4000, variants=variants, nocut=lambda ip, g, r, a: r in (
                'S', 'S!', 'SF', 'SF!'), arglens=(1, 2)):
            if r.kind == 'return':
                self.r27.ok('%s, %s of numbers and variables (%s) comes to an end' % (
                    f['path'], shape(r.ip, r.ip.elem), '; '.join(r.log) or 'always'))

    def closed(self, s, f):
        """Every part of an expression without variables becomes its exact value."""
        def s_contract(sess, ip, e):
            sess.note_cut(ip, f, self.t.role(f))
            return Adt(self.t.ELEMENT, self.t.V['num'], (F(('v', ('ev', 'env', sess.key(ip, e)))),))
        for r in s.explore(f, fresh_elem(self.t, f), s_contract=s_contract):
            ip = r.ip
            vs = ip.facts.variants.get(ip.elem.term)
            if vs is not None and self.t.V['var'] in vs and len(vs) == 1:
                continue
            key = '%s:closed %s' % (f['path'], shape(ip, ip.elem))
            site = '%s, %s of constants (%s)' % (f['path'], shape(ip, ip.elem), '; '.join(r.log) or 'always')
            if r.kind in ('unknown', 'budget'):
                self.r06.unknown(key, '%s: %s at %s' % (site, r.info, r.where))
                continue
            if r.kind in ('panic', 'ub'):
                continue
            res = result_elem(self.t, f, ip, r.info)
            self.rec.result(ip, res, site)
            try:
                want = value(ip, ip.elem, 'env', plain_atom)
                got = value(ip, res, 'env', plain_atom)
            except PathEnd as e:
                self.r06.unknown(key, '%s: %s' % (site, e.info))
                continue
            c = cmp_ieee(ip, want, got)
            if c[0] == 'eq':
                self.r06.ok('%s: %s' % (site, fstr(got)))
            elif c[0] == 'ne':
                self.r06.violation('%s -> %s' % (key, skeleton(got)),
                                   '%s: %s folded to %s (%s)' % (site, fstr(want), fstr(got), c[1]))
            else:
                self.r06.unknown(key, '%s: %s against %s' % (site, fstr(want), fstr(got)))

    def public(self, s):
        """The public forms apply the recursive function to the root, once per pair, in order."""
        for f in self.public_fns():
            multi = 'multiple' in f['path']
            for r in s.explore(f, self.mk_public(f), seq_lens=lambda ip, v: (0, 1, 2, 3)):
                ip = r.ip
                key = 'public:' + f['path'].rsplit('::', 1)[1]
                site = '%s (%s)' % (f['path'], '; '.join(r.log) or 'always')
                if r.kind in ('unknown', 'budget'):
                    self.r19.unknown(key, '%s: %s at %s' % (site, r.info, r.where))
                    continue
                if r.kind in ('panic', 'ub'):
                    self.r30.violation(key, '%s panics: %s at %s' % (site, r.info, r.where))
                    continue
                x0 = Opq('a0' if not isinstance(ip.args[0], Ref) else ('*', 'a0'), self.t.XPRS)
                root0 = ip.opq_field(x0, 0, self.t.ROOTF)
                pairs = []
                a = ip.args[1]
                if multi:
                    for y in ip.seq(strip(ip, a)).items:
                        y = ip.expand(y) if isinstance(y, Opq) else y
                        pairs.append((text(ip, y.fs[0]), y.fs[1]))
                else:
                    y = ip.expand(a) if isinstance(a, Opq) else a
                    pairs.append((text(ip, y.fs[0]), y.fs[1]))
                x = r.info if not isinstance(ip.args[0], Ref) else ip.load(ip.args[0])
                x = ip.expand(x, 0) if isinstance(x, Opq) else x
                res = unboxv(x.fs[self.t.ROOTF])
                mode = 'env'
                for v in reversed(pairs):
                    mode = submode_any(mode, v)
                try:
                    want = value_seq(ip, root0, pairs)
                    got = got_seq(ip, res)
                except PathEnd as e:
                    self.r19.unknown(key, '%s: %s' % (site, e.info))
                    continue
                if want == got:
                    self.r19.ok('%s: the root is substituted %d times, in order' % (site, len(pairs)))
                elif got is None:
                    self.r19.unknown(key, '%s: result %r' % (site, res))
                else:
                    self.r19.violation('%s:%d' % (key, len(pairs)), '%s: the result is %s for the pairs %s' % (
                        site, show_seq(got), ', '.join(tstr(n) for n, _ in pairs)))


def submode_any(mode, v):
    return mode


def value_seq(ip, root, pairs):
    return (root.term,) + tuple((vkey(n), vkey(v)) for n, v in pairs)


def got_seq(ip, res):
    """(original, substitutions applied in order) of the resulting root"""
    out = []
    t = res.term if isinstance(res, Opq) else None
    while t is not None:
        if isinstance(t, tuple) and t[0] == 'SF':
            out.append((t[2], t[3]))
            t = t[1]
        elif isinstance(t, tuple) and t[0] == 'S':
            t = t[1]
        else:
            return (t,) + tuple(reversed(out))
    return None


def show_seq(g):
    return tstr(g[0]) + ''.join(' for %s' % tstr(n) for n, v in g[1:])


def skeleton(t):
    """A term without its leaves' names, for stable keys."""
    if t[0] == 'c':
        return fstr(t)
    if t[0] == 'v':
        return '_'
    if t[0] == 'fn':
        return '%s(%s)' % (t[1].split(':')[0], ','.join(skeleton(x) if isinstance(x, tuple) else str(x) for x in t[2:]))
    return '%s(%s)' % (t[0], ','.join(skeleton(x) for x in t[1:]))
