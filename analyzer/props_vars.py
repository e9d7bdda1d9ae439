"""C15: the set of variables of an expression."""
from absint import *
from tree import *
from props_eval import shape, children
from report import Report
from size import Recursion


def vars_parts(ip, e):
    """The variables of an element, as set parts, under the facts of the path."""
    t = ip.tree
    vs = ip.facts.variants.get(e.term) if isinstance(e, Opq) else None
    if isinstance(e, Opq) and (vs is None or len(vs) != 1):
        return None
    x = ip.expand(e, next(iter(vs))) if isinstance(e, Opq) else e
    k = t.kinds[x.var]
    if k == 'num':
        return set()
    if k == 'var':
        return {ip.canon_str(text(ip, unboxv(x.fs[0])))}
    kids = children(ip, e)
    if kids is None:
        return None
    return {('set', ('VARS', c.term if isinstance(c, Opq) else vkey(c))) for c in kids}


def parts_of(ip, s):
    return {p if isinstance(p, tuple) and p and p[0] == 'set' else ip.canon_str(p) for p in s.parts}


def known(ip, parts, depth=0):
    """The parts of a set, with the variables of elements of known kind spelled out."""
    out = set()
    for p in parts:
        if isinstance(p, tuple) and p and p[0] == 'set' and isinstance(p[1], tuple) and p[1][0] == 'VARS' and depth < 40:
            vs = ip.facts.variants.get(p[1][1])
            q = vars_parts(ip, Opq(p[1][1], ip.tree.ELEMENT)) if vs is not None and len(vs) == 1 else None
            if q is not None:
                out |= known(ip, q, depth + 1)
                continue
        out.add(p)
    return out


def show(ps):
    return '{%s}' % ', '.join(sorted(tstr(p) for p in ps))


class VarsCheck:
    def __init__(self, prog, config):
        self.t = Tree(prog)
        self.p = prog
        self.config = config

    def run(self):
        r15, r27, r30 = [Report(p, self.config) for p in ('C15', 'C27', 'C30')]
        self.r15, self.r27, self.r30 = r15, r27, r30
        self.rec = Recursion(self.p, r27)
        s = Session(self.t, opts={'arglens': (1, 2, 3)})
        fs = [f for f in self.p.F.values() if f['krate'] == self.p.crate and f['body']
              and self.t.role(f) in ('VARS', 'VARSR')]
        if not fs:
            raise Anchor('a recursive collection of variables')
        for f in fs:
            if self.p.recursive(f['id']) or self.t.worklist(f):
                self.collect(s, f)
            else:
                r15.unknown('collect:' + f['path'], '%s is neither recursive nor a loop over a list: its contract is assumed' % f['path'])
        self.public(s)
        self.rec.finish()
        for rep in (r15, r27, r30):
            rep.functions |= {self.p.F[x]['path'] for x in s.coverage if self.p.F[x]['krate'] == self.p.crate}
            rep.paths = s.paths
        return [r15, r27, r30]

    def collect(self, s, f):
        given = ('set', 'given')

        def mk(ip):
            a = []
            for t in f['sig'][:-1]:
                k = self.t.pkind(t)
                if k == '&set':
                    c = Cell(SetV((given,)))
                    ip.out = Ref(c)
                    a.append(Ref(Cell(Ref(c))) if self.p.T[self.p.T[t]['to']]['k'] == 'ref' else Ref(c))
                else:
                    v = ip.opq('e', t)
                    ip.elem = unboxv(strip(ip, v))
                    ip.tyof.put(ip.elem)
                    ip.rootkey = ip.elem.term
                    a.append(v)
            return a
        if not self.p.recursive(f['id']):
            return self.worklist(s, f, mk, given)
        for r in s.explore(f, mk):
            ip = r.ip
            site = '%s, %s (%s)' % (f['path'], shape(ip, ip.elem), '; '.join(r.log) or 'always')
            key = '%s:%s' % (f['path'], shape(ip, ip.elem))
            self.rec.path(ip, f, site)
            if r.kind in ('panic', 'ub'):
                self.r30.violation(key, '%s: %s %s at %s' % (site, r.kind, r.info, r.where))
                continue
            if r.kind != 'return':
                self.r15.unknown(key, '%s: %s at %s' % (site, r.info, r.where))
                continue
            self.r30.ok()
            s_out = ip.load(ip.out) if self.t.role(f) == 'VARS' else r.info
            base = {given} if self.t.role(f) == 'VARS' else set()
            want = vars_parts(ip, ip.elem)
            if not isinstance(s_out, SetV) or want is None:
                self.r15.unknown(key, '%s: %r' % (site, s_out))
                continue
            want = want | base
            got = parts_of(ip, s_out)
            if got == want and not s_out.minus:
                self.r15.ok('%s: %s' % (site, show(got)))
            else:
                self.r15.violation(key, '%s: collects %s%s instead of %s' % (
                    site, show(got), ' without %s' % show(s_out.minus) if s_out.minus else '', show(want)))

    def worklist(self, s, f, mk, given):
        """A loop over a list of what is still to do: each turn keeps what is collected plus what is to come."""
        ret = self.t.role(f) == 'VARSR'

        def hook(ip, g, fr, bb, c):
            if g is not f or getattr(ip, 'head', bb) != bb:
                return
            lists = [x for x in fr if isinstance(x.v, Seq) and self.t.pkind(g['body']['locals'][fr.index(x)]) == 'o'
                     and self.elements(ip, x.v) is not None]
            sets = [x for x in fr if isinstance(x.v, SetV)] if ret else [ip.out]
            if len(lists) != 1 or len(sets) != 1:
                raise PathEnd('unknown', 'the list of what is still to do is not recognised')
            here = self.elements(ip, lists[0].v)
            out = ip.load(sets[0]) if isinstance(sets[0], Ref) else sets[0].v
            if c == 1:
                ip.head = bb
                if [vkey(x) for x in here] != [vkey(ip.elem)] or parts_of(ip, out) - {given}:
                    raise PathEnd('unknown', 'the list of what is still to do does not start with the element')
                k = ip.choose(2)
                if k == 0:
                    ip.todo = []
                    lists[0].v = Seq(())
                else:
                    o = ip.opq('other', f['sig'][[self.t.pkind(t) for t in f['sig'][:-1]].index('&E')])
                    ip.todo = [unboxv(strip(ip, o)), ip.elem]
                    ip.tyof.put(ip.todo[0])
                    item = lists[0].v.items[0]
                    lists[0].v = Seq((o if isinstance(item, Ref) else item, item))
                return
            raise PathEnd('turn', (here, out))
        for r in s.explore(f, mk, loop_hook=hook):
            ip = r.ip
            todo = getattr(ip, 'todo', None)
            site = '%s, %s to do (%s)' % (f['path'], 'nothing' if todo == [] else 'two elements', '; '.join(r.log) or 'always')
            key = '%s:list' % f['path']
            if r.kind in ('panic', 'ub'):
                self.r30.violation(key, '%s: %s %s at %s' % (site, r.kind, r.info, r.where))
                continue
            if todo is None or r.kind not in ('return', 'turn'):
                self.r15.unknown(key, '%s: %s at %s' % (site, r.info, r.where))
                continue
            self.r30.ok()
            base = set() if ret else {given}
            if r.kind == 'turn':
                here, out = r.info
                left = [x for x in todo if any(x is y or vkey(x) == vkey(y) for y in here)]
                done = [x for x in todo if not any(x is y for y in left)]
                want = set(base)
                for x in done:
                    p = vars_parts(ip, x)
                    if p is None:
                        want = None
                        break
                    want |= p
                if want is None or len(done) != 1 or len(left) + len(children(ip, done[0]) or ()) < len(here):
                    self.r15.unknown(key, '%s: one turn takes %d elements and leaves %d' % (site, len(done), len(here)))
                    self.r27.unknown(key, '%s: the list of what is still to do may never get empty' % site)
                    continue
                want |= {('set', ('VARS', vkey(x) if not isinstance(x, Opq) else x.term)) for x in left}
                got = parts_of(ip, out) | {('set', ('VARS', x.term if isinstance(x, Opq) else vkey(x))) for x in here}
                self.r27.ok(site)
            else:
                out = r.info if ret else ip.load(ip.out)
                if todo:
                    self.r15.unknown(key, '%s: ends with something left to do' % site)
                    continue
                want, got = base, parts_of(ip, out)
            if got == want and not out.minus:
                self.r15.ok('%s: %s' % (site, show(got)))
            else:
                self.r15.violation(key, '%s: collects %s%s instead of %s' % (
                    site, show(got), ' without %s' % show(out.minus) if out.minus else '', show(want)))

    def elements(self, ip, q):
        out = []
        for x in q.items:
            v = unboxv(strip(ip, x))
            if isinstance(v, Opq) and v.ty != self.t.ELEMENT or isinstance(v, Adt) and v.ty != self.t.ELEMENT \
                    or not isinstance(v, (Opq, Adt)):
                return None
            out.append(v)
        return out

    def public(self, s):
        """Every public operation that hands out or changes an expression leaves vars in step with root."""
        X = self.t.XPRS
        n = 0
        for f in sorted(self.p.F.values(), key=lambda f: f['path']):
            if f['krate'] != self.p.crate or not f['body'] or not f['sig'] or f['kind'] != 'item':
                continue
            takes = [i for i, t in enumerate(f['sig'][:-1]) if t == X or (
                self.p.T[t]['k'] == 'ref' and self.p.T[t].get('mut') and self.p.T[t]['to'] == X)]
            if len(takes) != 1:
                continue
            i = takes[0]
            byref = f['sig'][i] != X
            if not byref and f['sig'][-1] != X:
                continue
            n += 1
            short = f['path'].rsplit('::', 1)[1]

            def mk(ip):
                a = []
                for j, t in enumerate(f['sig'][:-1]):
                    v = ip.opq('a%d' % j, t)
                    ip.tyof.put(strip(ip, v))
                    a.append(v)
                return a
            for r in s.explore(f, mk, seq_lens=lambda ip, v: (1, 2, 3)):
                ip = r.ip
                site = '%s (%s)' % (f['path'], '; '.join(r.log) or 'always')
                key = 'public:' + short
                if r.kind in ('panic', 'ub'):
                    self.r30.violation(key, '%s: %s %s at %s' % (site, r.kind, r.info, r.where))
                    continue
                if r.kind != 'return':
                    self.r15.unknown(key, '%s: %s at %s' % (site, r.info, r.where))
                    continue
                x0 = Opq(('*', 'a%d' % i) if byref else 'a%d' % i, X)
                root0 = ip.opq_field(x0, 0, self.t.ROOTF)
                vars0 = ip.opq_field(x0, 0, self.t.VARSF)
                x = ip.load(ip.args[i]) if byref else r.info
                x = ip.expand(x, 0) if isinstance(x, Opq) else x
                root, vs = unboxv(x.fs[self.t.ROOTF]), x.fs[self.t.VARSF]
                if not isinstance(vs, SetV):
                    self.r15.unknown(key, '%s: vars = %r' % (site, vs))
                    continue
                got = {('set', ('VARS', root0.term)) if p in vars0.parts else p for p in parts_of(ip, vs)}
                want = {('set', ('VARS', root.term))} if isinstance(root, Opq) else vars_parts(ip, root)
                if f['path'].endswith('refresh_vars') or not self.is_public(f):
                    continue
                if want is not None and known(ip, got) == known(ip, want) and not vs.minus:
                    self.r15.ok('%s: vars = %s' % (site, show(got)))
                else:
                    self.r15.violation(key, '%s: vars is %s%s although the variables of the expression are %s' % (
                        site, show(got), ' without %s' % show(vs.minus) if vs.minus else '', show(want or ())))
        if n < 4:
            raise Anchor('public operations on Xprs (%d found)' % n)

    def is_public(self, f):
        return f.get('pub', f['path'].rsplit('::', 1)[1] in (
            'simplify_for', 'simplify_for_in_place', 'simplify_for_multiple', 'simplify_for_multiple_in_place'))
