"""C02, C03, C04: evaluation."""
from absint import *
from tree import *
from terms import cmp_ieee, subst
from report import Report
from size import Recursion


def ev_atom(env):
    def atom(term, mode):
        return ('v', ('ev', env, term))
    return atom


def ev_value(ip, e, env, mapv):
    """What the element must evaluate to under the facts of the path:
    ('val', term), ('missing', name) or None when not determined."""
    t = ip.tree
    k = next(iter(ip.facts.variants.get(e.term, ())), None)
    if k is None or len(ip.facts.variants[e.term]) != 1:
        return None
    x = ip.expand(e, k)
    kind = t.kinds[k]
    v = unboxv(x.fs[0])
    if kind == 'num':
        return v.t
    if kind == 'var':
        name = text(ip, v)
        for key, cell in reversed(mapv.entries):
            return None
        name = ip.canon_str(name)
        return ('v', ('mapval', mapv.base, name))
    if isinstance(v, Opq):
        v = ip.expand(v, 0)

    def child(c):
        c = unboxv(c)
        return ('v', ('ev', env, c.term if isinstance(c, Opq) else vkey(c)))
    if kind == 'bin':
        return binterm(opname(ip, v.fs[t.bf['op']]), child(v.fs[t.bf['lhs']]), child(v.fs[t.bf['rhs']]))
    if kind == 'un':
        return unterm(opname(ip, v.fs[t.uf['op']]), child(v.fs[t.uf['operand']]))
    args = v.fs[t.cf['args']]
    if isinstance(args, SeqOpq) and ip.facts.lens.get(args.term) is None:
        return None
    return ('fn', 'call:' + tstr(fnkey(ip, v.fs[t.cf['desc']]))) + tuple(child(c) for c in ip.seq(args).items)


def children(ip, e):
    t = ip.tree
    vs = ip.facts.variants.get(e.term)
    if vs is None or len(vs) != 1:
        return None
    k = next(iter(vs))
    kind = t.kinds[k]
    if kind in ('num', 'var'):
        return []
    v = unboxv(ip.expand(e, k).fs[0])
    if isinstance(v, Opq):
        v = ip.expand(v, 0)
    if kind == 'bin':
        l = [v.fs[t.bf['lhs']], v.fs[t.bf['rhs']]]
    elif kind == 'un':
        l = [v.fs[t.uf['operand']]]
    else:
        a = v.fs[t.cf['args']]
        if isinstance(a, SeqOpq) and ip.facts.lens.get(a.term) is None:
            return None
        l = list(ip.seq(a).items)
    return [unboxv(c) for c in l]


def shape(ip, e):
    """Readable description of what is known of an element."""
    t = ip.tree
    vs = ip.facts.variants.get(e.term)
    if vs is None or len(vs) != 1:
        return 'any element'
    k = t.kinds[next(iter(vs))]
    v = unboxv(ip.expand(e, next(iter(vs))).fs[0])
    if k == 'bin':
        return 'binary %s' % (opname(ip, ip.expand(v, 0).fs[t.bf['op']]),)
    if k == 'un':
        return 'unary %s' % (opname(ip, ip.expand(v, 0).fs[t.uf['op']]),)
    if k == 'call':
        a = ip.expand(v, 0).fs[t.cf['args']]
        n = ip.facts.lens.get(getattr(a, 'term', None))
        return 'call with %s arguments' % n
    return {'num': 'number', 'var': 'variable'}[k]


def eval_fns(tree):
    return {'eval': tree.method('Xprs', 'eval'), 'eval_unchecked': tree.method('Xprs', 'eval_unchecked'),
            'eval_no_vars': tree.method('Xprs', 'eval_no_vars'),
            'eval_no_vars_unchecked': tree.method('Xprs', 'eval_no_vars_unchecked')}


def mk_public(tree, f):
    def mk(ip):
        x = ip.opq('self', f['sig'][0])
        ip.tyof.put(ip.load(x))
        a = [x]
        if len(f['sig']) == 3:
            m = ip.opq('vars', f['sig'][1])
            a.append(m)
        return a
    return mk


def mk_recursive(tree, f):
    """Arguments for a recursive evaluation function: a fresh element, a fresh map."""
    def mk(ip):
        a = []
        for i, t in enumerate(f['sig'][:-1]):
            if tree.pkind(t) in ('E', '&E', '&mutE'):
                v = ip.opq('e', t)
                e = unboxv(strip(ip, v))
                ip.tyof.put(e)
                ip.elem = e
                ip.rootkey = e.term
                a.append(v)
            else:
                v = ip.opq('self', t)
                a.append(v)
        m = None
        for v in a:
            m = m or find_map(ip, v)
        ip.mapv = m
        ip.envkey = vkey(m) if m is not None else ('noenv',)
        return a
    return mk


def is_ok(p, v):
    t = p.T[v.ty]
    return (v.var == 0) == t['path'].endswith('Result')


def err_name(ip, v, depth=0):
    """The text an error value carries, or the contract error it forwards."""
    v = strip(ip, v)
    if isinstance(v, StrV):
        return v
    if isinstance(v, Opq):
        return v
    if isinstance(v, Adt) and len(v.fs) == 1:
        return err_name(ip, v.fs[0])
    return None


class EvalCheck:
    """All obligations of evaluation, for one configuration."""

    def __init__(self, prog, config):
        self.t = Tree(prog)
        self.p = prog
        self.config = config
        self.r02 = Report('C02', config)
        self.r03 = Report('C03', config)
        self.r04 = Report('C04', config)
        self.r27 = Report('C27', config)
        self.rec = Recursion(prog, self.r27)
        self.r30 = Report('C30', config)

    def run(self):
        s = Session(self.t)
        todo, done = [], set()
        self.public(s)
        order = []
        while True:
            new = [(f, r) for f, r in s.new.items() if f not in done]
            if not new:
                break
            for fid, role in new:
                done.add(fid)
                f = self.p.F[fid]
                order.append((f, role))
                if role == 'EVR':
                    self.recursive(s, f, True)
                elif role == 'EVU':
                    self.recursive(s, f, False)
        if not any(r == 'EVR' for _, r in order) and not any(r == 'EVU' for _, r in order):
            self.r02.unknown('anchor', 'no recursive evaluation function was met')
        evr = [f for f, r in order if r == 'EVR']
        evu = [f for f, r in order if r == 'EVU']
        if len(evr) == 1 and len(evu) == 1:
            self.product(s, evr[0], evu[0])
        elif evr or evu:
            # several evaluators: both sides are compared with the specification (C02)
            self.r03.notes.append('checked and unchecked evaluation share %d evaluators' % len(order))
            self.r03.ok('both forms use the evaluators %s' % ', '.join(f['path'] for f, _ in order))
        self.rec.finish()
        for r in (self.r02, self.r03, self.r04, self.r27, self.r30):
            r.functions |= {self.p.F[x]['path'] for x in s.coverage if self.p.F[x]['krate'] == self.p.crate}
            r.paths = s.paths
        return [self.r02, self.r03, self.r04, self.r27, self.r30]

    # the four public functions hand root and map over to the evaluators
    def public(self, s):
        for name, f in eval_fns(self.t).items():
            checked = 'unchecked' not in name
            for r in s.explore(f, mk_public(self.t, f)):
                ip = r.ip
                key = 'public:%s' % name
                if r.kind == 'unknown' or r.kind == 'budget':
                    for rep in (self.r02, self.r03, self.r04, self.r30):
                        rep.unknown(key, '%s: %s at %s' % (name, r.info, r.where))
                    continue
                if r.kind in ('panic', 'ub'):
                    failed = [k for k, b in ip.facts.bools.items() if k[0] == 'evok' and not b]
                    if r.kind == 'panic' and not checked and [k[2] for k in failed] == [self.root_term(ip)]:
                        self.r30.ok('%s panics when the checked evaluation misses a variable' % name)
                        continue
                    self.r30.violation(key, '%s itself panics (%s) at %s' % (name, r.info, r.where))
                    continue
                root = self.root_term(ip)
                m = ip.args[1] if len(ip.args) > 1 else None
                env = vkey(find_map(ip, m)) if m is not None else vkey(MapV(None, (), None))
                want = ('v', ('ev', env, root))
                reps = [self.r02, self.r04] if m is not None else [self.r03]
                v = r.info
                if checked:
                    ok = ip.facts.bools.get(('evok', env, root))
                    good = ok is not None and isinstance(v, Adt) and is_ok(self.p, v) == ok
                    if good:
                        good = v.fs[0].t == want if ok else (
                            isinstance(err_name(ip, v.fs[0]), Opq) and
                            err_name(ip, v.fs[0]).term == ('everr', env, root))
                else:
                    good = isinstance(v, F) and v.t == want
                    if not good and isinstance(v, F):
                        c = cmp_ieee(ip, want, v.t)
                        good = c[0] == 'eq'
                for rep in reps:
                    if good:
                        rep.ok('%s(root, map) is the evaluation of root in map' % name)
                    else:
                        rep.violation(key, '%s: returns %r, not the evaluation of the root with the given variables '
                                           '(%s)' % (f['path'], v, '; '.join(r.log)))

    def root_term(self, ip):
        x = strip(ip, ip.args[0])
        e = ip.opq_field(x, 0, self.t.ROOTF)
        return e.term

    def recursive(self, s, f, checked):
        for r in s.explore(f, mk_recursive(self.t, f)):
            ip = r.ip
            key = '%s:%s' % (f['path'], shape(ip, ip.elem) if hasattr(ip, 'elem') else '?')
            site = '%s, %s (%s)' % (f['path'], shape(ip, ip.elem), '; '.join(r.log) or 'always')
            self.rec.path(ip, f, site)
            if r.kind in ('unknown', 'budget'):
                for rep in (self.r02, self.r03, self.r04, self.r30):
                    rep.unknown(key, '%s: %s at %s' % (site, r.info, r.where))
                continue
            missing = [k for k, v in ip.facts.bools.items() if k[0] == 'has' and not v]
            if r.kind in ('panic', 'ub'):
                if not checked and missing:
                    self.r30.ok()
                    continue
                self.r30.violation(key, '%s panics: %s at %s' % (site, r.info, r.where))
                continue
            self.r30.ok('%s returns' % site)
            if ip.mapv is None:
                self.r02.unknown(key, '%s: no map of variables among the arguments' % site)
                continue
            v = r.info
            want = ev_value(ip, ip.elem, ip.envkey, ip.mapv)
            kids = children(ip, ip.elem)
            if checked:
                okv = is_ok(self.p, v) if isinstance(v, Adt) else None
                if okv is None:
                    self.r02.unknown(key, '%s: result %r' % (site, v))
                    continue
                failed = [k for k, b in ip.facts.bools.items() if k[0] == 'evok' and not b]
                if not okv:
                    self.failure(ip, r, key, site, v, missing, failed)
                    continue
                # success: every part was evaluated successfully
                if kids is None:
                    self.r04.unknown(key, '%s: succeeds without looking at the element' % site)
                    self.r02.unknown(key, '%s: succeeds without looking at the element' % site)
                    continue
                bad = [c for c in kids if ip.facts.bools.get(('evok', ip.envkey, c.term)) is not True]
                if bad:
                    self.r04.violation(key, '%s: succeeds although the evaluation of %s %s' % (
                        site, tstr(bad[0].term),
                        'failed' if ('evok', ip.envkey, bad[0].term) in ip.facts.bools else 'was never tried'))
                elif missing:
                    self.r04.violation(key, '%s: succeeds although a variable has no value' % site)
                else:
                    self.r04.ok('%s: all %d parts evaluated' % (site, len(kids)))
                v = v.fs[0]
            if want is None:
                self.r02.unknown(key, '%s: element not examined' % site)
                continue
            if not isinstance(v, F):
                self.r02.unknown(key, '%s: result %r' % (site, v))
                continue
            c = cmp_ieee(ip, want, v.t)
            if c[0] == 'eq':
                self.r02.ok('%s: %s' % (site, fstr(v.t)))
            elif c[0] == 'ne':
                self.r02.violation(key, '%s: computes %s instead of %s (%s)' % (site, fstr(v.t), fstr(want), c[1]))
            else:
                self.r02.unknown(key, '%s: %s against %s' % (site, fstr(v.t), fstr(want)))

    def failure(self, ip, r, key, site, v, missing, failed):
        en = err_name(ip, v.fs[0]) if v.fs else None
        if not missing and not failed:
            self.r04.violation(key, '%s: fails although nothing is missing' % site)
        elif isinstance(en, Opq):
            if isinstance(en.term, tuple) and en.term[0] == 'everr' and ('evok',) + en.term[1:] in failed:
                self.r04.ok('%s: forwards the error of %s' % (site, tstr(en.term[2])))
            else:
                self.r04.unknown(key, '%s: error %r' % (site, en))
        elif isinstance(en, StrV):
            names = [k[2] for k in missing]
            if any(ip.canon_str(en) == ip.canon_str(n) for n in names):
                self.r04.ok('%s: names the missing variable' % site)
            elif names:
                self.r04.violation(key, '%s: the error names %r, missing is %r' % (site, en, names))
            else:
                self.r04.violation(key, '%s: the error names %r, not what the failing part reported' % (site, en))
        elif not v.fs:
            self.r04.unknown(key, '%s: error without a name' % site)
        else:
            self.r04.unknown(key, '%s: error %r' % (site, v.fs))

    def product(self, s, fr, fu):
        """Both evaluators on the same element along the same path."""
        mk1 = mk_recursive(self.t, fr)

        def mk(ip):
            return mk1(ip)

        def post(ip, v):
            if not isinstance(v, Adt) or not is_ok(self.p, v):
                return None
            args = []
            used = list(ip.args)
            for t in fu['sig'][:-1]:
                if self.t.pkind(t) in ('E', '&E', '&mutE'):
                    args.append(ip.opq('e', t))
                else:
                    args.append(ip.opq('self', t))
            ip.root, ip.entered = fu['id'], False
            return v.fs[0], ip.call(fu['id'], args)
        for r in s.explore(fr, mk, post):
            ip = r.ip
            key = '%s:%s' % (fu['path'], shape(ip, ip.elem))
            site = '%s, %s (%s)' % (fu['path'], shape(ip, ip.elem), '; '.join(r.log) or 'always')
            if r.kind in ('unknown', 'budget'):
                self.r03.unknown(key, '%s: %s at %s' % (site, r.info, r.where))
                continue
            if r.kind in ('panic', 'ub'):
                if ip.root == fu['id'] and 'product' :
                    self.r03.violation(key, '%s: panics (%s) where checked evaluation succeeds, at %s'
                                       % (site, r.info, r.where))
                continue
            if r.info is None:
                continue
            a, b = r.info
            c = cmp_ieee(ip, a.t, b.t) if isinstance(a, F) and isinstance(b, F) else ('?',)
            if c[0] == 'eq':
                self.r03.ok('%s: both give %s' % (site, fstr(b.t)))
            elif c[0] == 'ne':
                self.r03.violation(key, '%s: unchecked %s, checked %s (%s)' % (site, fstr(b.t), fstr(a.t), c[1]))
            else:
                self.r03.unknown(key, '%s: %r against %r' % (site, a, b))
