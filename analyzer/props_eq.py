"""C25: equality is structural up to commutativity; clones are identical (C05 relies on it)."""
from absint import *
from tree import *
from props_eval import shape
from report import Report
from size import Recursion


def ek(v):
    return v.term if isinstance(v, Opq) else vkey(v)


def force(ip, v):
    """The constructor of an element, forking on the ones the path left open."""
    v = unboxv(strip(ip, v))
    if isinstance(v, Opq):
        i = ip.variant_of(v)
        v = ip.expand(v, i)
    return v


def known(ip, v, ty=None):
    v = strip(ip, v)
    if isinstance(v, Opq):
        i = ip.variant_of(v)
        v = ip.expand(v, i)
    return v


def spec_eq(ip, x, y, depth=0):
    """Structural equality up to commutativity, read off (and refining) the facts of the path."""
    t = ip.tree
    ox, oy = unboxv(strip(ip, x)), unboxv(strip(ip, y))
    if depth:
        kx, ky = sorted((ek(ox), ek(oy)), key=repr)
        return ip.decide(('eqel', kx, ky))
    x, y = force(ip, x), force(ip, y)
    if x.var != y.var:
        return False
    k = t.kinds[x.var]
    a, b = unboxv(x.fs[0]), unboxv(y.fs[0])
    if k == 'num':
        return ip.fcmp('Eq', a.t, b.t)
    if k == 'var':
        return bool(ip.truth(ip.streq(text(ip, a), text(ip, b))))
    a, b = [ip.expand(v, 0) if isinstance(v, Opq) else v for v in (a, b)]
    if k == 'bin':
        o1, o2 = ip.variant_of(a.fs[t.bf['op']]), ip.variant_of(b.fs[t.bf['op']])
        if o1 != o2:
            return False
        l1, r1, l2, r2 = a.fs[t.bf['lhs']], a.fs[t.bf['rhs']], b.fs[t.bf['lhs']], b.fs[t.bf['rhs']]
        if spec_eq(ip, l1, l2, 1) and spec_eq(ip, r1, r2, 1):
            return True
        return t.opnames[o1] in ('Plus', 'Times') and spec_eq(ip, l1, r2, 1) and spec_eq(ip, r1, l2, 1)
    if k == 'un':
        o1, o2 = ip.variant_of(a.fs[t.uf['op']]), ip.variant_of(b.fs[t.uf['op']])
        return o1 == o2 and spec_eq(ip, a.fs[t.uf['operand']], b.fs[t.uf['operand']], 1)
    if not spec_fn(ip, a.fs[t.cf['desc']], b.fs[t.cf['desc']]):
        return False
    s1, s2 = ip.seq(a.fs[t.cf['args']]), ip.seq(b.fs[t.cf['args']])
    if len(s1.items) != len(s2.items):
        return False
    return all(spec_eq(ip, p, q, 1) for p, q in zip(s1.items, s2.items))


def spec_fn(ip, a, b):
    t = ip.tree
    a, b = [ip.expand(v, 0) if isinstance(v, Opq) else v for v in (strip(ip, a), strip(ip, b))]
    n = t.ff
    if not ip.truth(ip.streq(text(ip, a.fs[n['name']]), text(ip, b.fs[n['name']]))):
        return False
    pa, pb = known(ip, a.fs[n['func']]), known(ip, b.fs[n['func']])
    if pa.var != pb.var:
        return False
    ka, kb = [fnident(ip, p) for p in (pa, pb)]
    if ka != kb:
        hit = [v for k, v in ip.facts.bools.items() if k[0] in ('ptreq', 'fneq') and set(map(repr, k[1:])) == {repr(ka), repr(kb)}]
        if not hit:
            x, y = sorted((ka, kb), key=repr)
            hit = [ip.decide(('ptreq', x, y))]
        if not hit[0]:
            return False
    na, nb = known(ip, a.fs[n['nb_args']]), known(ip, b.fs[n['nb_args']])
    if na.var != nb.var:
        return False
    if not na.fs:
        return True
    return bool(ip.truth(ip.binop('Eq', na.fs[0], nb.fs[0], u8(ip))))


def u8(ip):
    return next(i for i, t in ip.p.T.items() if t['k'] == 'int' and t['name'] == 'u8')


def fnident(ip, p):
    x = p.fs[0]
    if isinstance(x, Ref):
        x = ip.load(x)
    return vkey(x)


class EqCheck:
    def __init__(self, prog, config):
        self.t = Tree(prog)
        self.p = prog
        self.config = config

    def run(self):
        r25, r05, r27, r30 = [Report(p, self.config) for p in ('C25', 'C05', 'C27', 'C30')]
        reps = (r25, r05, r30)
        self.rec = Recursion(self.p, r27)
        s = Session(self.t, opts={'arglens': (1, 2)})
        xeq = self.t.fn(r'^<.*::Xprs<.*> as core::cmp::PartialEq(<.*>)?>::eq$')
        for r in s.explore(xeq, lambda ip: [ip.opq('p', xeq['sig'][0]), ip.opq('q', xeq['sig'][1])],
                           lambda ip, v: bool(ip.truth(v))):
            ip = r.ip
            key = 'xprs-eq'
            if r.kind != 'return':
                (r25.unknown if r.kind in ('unknown', 'budget') else r25.violation)(
                    key, '%s: %s %s at %s' % (xeq['path'], r.kind, r.info, r.where))
                continue
            roots = [e for e in ip.eqs if e[0] in ip.facts.bools]
            if len(roots) != 1 or not self.is_root(ip, roots[0][1], roots[0][2]):
                r25.violation(key, '%s: returns %s without comparing the two expressions (%s)' % (
                    xeq['path'], r.info, '; '.join(r.log)))
                continue
            same = ip.facts.bools[roots[0][0]]
            if r.info and not same:
                r25.violation(key, '%s: equal although the expressions differ (%s)' % (xeq['path'], '; '.join(r.log)))
            elif not r.info and same and not self.var_sets_differ(ip):
                r25.violation(key, '%s: different although the expressions are equal (%s)' % (
                    xeq['path'], '; '.join(r.log)))
            else:
                r25.ok('%s: %s when the roots are %s' % (xeq['path'], r.info, 'equal' if same else 'different'))
        # the equality the simplifier calls must be among those checked
        for f in self.p.F.values():
            if f['krate'] == self.p.crate and f['body'] and self.t.role(f) == 'EQ':
                s.new.setdefault(f['id'], 'EQ')
        done = set()
        n = 0
        while True:
            new = [(i, r) for i, r in s.new.items() if i not in done]
            if not new:
                break
            for fid, role in new:
                done.add(fid)
                if role == 'EQ':
                    n += 1
                    self.eq(s, self.p.F[fid], r25, r05, r27, r30)
        if not n:
            raise Anchor('a recursive equality of elements')
        s2 = Session(self.t, opts={'arglens': (1, 2)})
        cl = [f for f in self.p.F.values() if f['krate'] == self.p.crate and f['body']
              and self.t.role(f) == 'CLONE']
        for f in cl:
            self.clone(s2, f, r25, r27)
        self.rec.finish()
        for rep in reps + (r27,):
            rep.functions |= {self.p.F[x]['path'] for x in s.coverage | s2.coverage if self.p.F[x]['krate'] == self.p.crate}
            rep.paths = s.paths + s2.paths
        return [r25, r05, r27, r30]

    def var_sets_differ(self, ip):
        """The path distinguishes the variable sets (equal for equal expressions by C15)."""
        return any(k[0] in ('seteq', 'setdiff') for k in ip.facts.bools)

    def is_root(self, ip, x, y):
        want = set()
        for a in ip.args:
            v = strip(ip, a)
            want.add(repr(ip.opq_field(v, 0, self.t.ROOTF).term))
        return {repr(ek(x)), repr(ek(y))} == want

    def eq(self, s, f, r25, r05, r27, r30):
        def mk(ip):
            a = []
            for n, t in zip(('x', 'y'), f['sig'][:-1]):
                v = ip.opq(n, t)
                ip.tyof.put(unboxv(strip(ip, v)))
                a.append(v)
            ip.pair = [unboxv(strip(ip, v)) for v in a]
            ip.rootkeys = [e.term for e in ip.pair]
            return a

        def post(ip, v):
            got = bool(ip.truth(v))
            ip.spec_phase = True
            return got, spec_eq(ip, *ip.pair)
        for r in s.explore(f, mk, post):
            ip = r.ip
            sh = '%s == %s' % (shape(ip, ip.pair[0]), shape(ip, ip.pair[1]))
            site = '%s: %s (%s)' % (f['path'], sh, '; '.join(r.log))
            self.rec.path(ip, f, site)
            if r.kind in ('panic', 'ub'):
                for rep in (r25, r05, r30):
                    rep.violation('%s:panic' % f['path'], '%s: %s %s at %s' % (site, r.kind, r.info, r.where))
                continue
            if r.kind != 'return':
                for rep in (r25, r05, r30):
                    rep.unknown(f['path'], '%s: %s %s at %s' % (site, r.kind, r.info, r.where))
                continue
            r30.ok()
            got, want = r.info
            if got == want:
                r25.ok('%s is %s' % (site, got))
                r05.ok('%s is %s' % (site, got))
            else:
                r25.violation('%s:%s' % (f['path'], sh), '%s: is %s, structurally %s' % (site, got, want))
                if got:
                    r05.violation('%s:%s' % (f['path'], sh), '%s: different trees compare equal, and rules such as '
                                  '`a - a => 0` use this comparison' % site)

    def clone(self, s, f, r25, r27):
        def mk(ip):
            v = ip.opq('x', f['sig'][0])
            ip.elem = unboxv(strip(ip, v))
            ip.tyof.put(ip.elem)
            ip.rootkey = ip.elem.term
            return [v]
        for r in s.explore(f, mk):
            ip = r.ip
            site = '%s: %s (%s)' % (f['path'], shape(ip, ip.elem), '; '.join(r.log))
            self.rec.path(ip, f, site)
            if r.kind != 'return':
                (r25.unknown if r.kind in ('unknown', 'budget') else r25.violation)(
                    f['path'], '%s: %s %s at %s' % (site, r.kind, r.info, r.where))
                continue
            if same_tree(ip, r.info, ip.elem):
                r25.ok('%s: the clone is the same tree' % site)
            else:
                r25.violation('%s:clone' % f['path'], '%s: the clone is %r' % (site, r.info))


def same_tree(ip, a, b):
    a, b = unboxv(strip(ip, a)), unboxv(strip(ip, b))
    if vkey(a) == vkey(b):
        return True
    if isinstance(b, Opq) and isinstance(a, Adt):
        vs = ip.facts.variants.get(b.term)
        if vs is None:
            return False
        if vs is not None and len(vs) != 1:
            return False
        b = ip.expand(b, next(iter(vs)) if vs else 0)
    if isinstance(a, Opq) and isinstance(b, Adt):
        return same_tree(ip, b, a)
    if isinstance(a, Adt) and isinstance(b, Adt):
        return a.var == b.var and len(a.fs) == len(b.fs) and all(same_tree(ip, x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, (Seq, SeqOpq)) and isinstance(b, (Seq, SeqOpq)):
        x, y = ip.seq(a), ip.seq(b)
        return len(x.items) == len(y.items) and all(same_tree(ip, p, q) for p, q in zip(x.items, y.items))
    if isinstance(a, F) and isinstance(b, F):
        return a.t == b.t
    return False
