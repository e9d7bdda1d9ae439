"""C24: a displayed expression reads back as itself.

The text each kind of node produces is a template over the texts of its parts; it is read
with the documented grammar and must give the node back, whatever the parts are."""
from absint import *
from tree import *
from props_eval import shape, children
from models import fmt_new
from report import Report
from size import Recursion

SYM = {'Plus': '+', 'Minus': '-', 'Times': '*', 'Divide': '/', 'Power': '^', 'Modulo': '%'}
LEVEL = {'+': 1, '-': 1, '*': 2, '/': 2, '%': 2, '^': 4}
OPOF = {v: k for k, v in SYM.items()}


PLUS_ALT_ZERO_WIDTH = 1 << 21 | 1 << 22 | 1 << 23 | 1 << 24 | 1 << 27


class Bad(Exception):
    pass


class Reader:
    """The documented grammar over tokens: characters, ('num',t), ('name',n), ('part',key)."""

    def __init__(self, toks, impl):
        self.t, self.i, self.impl = toks, 0, impl

    def peek(self):
        while self.i < len(self.t) and self.t[self.i] in (' ', '\t', '\n'):
            self.i += 1
        return self.t[self.i] if self.i < len(self.t) else None

    def whole(self):
        e = self.expr(0)
        if self.peek() is not None:
            raise Bad('stops before %s' % show([self.peek()]))
        return e

    def expr(self, p):
        e = self.atom()
        if self.peek() == '!':
            self.i += 1
            e = ('un', 'Factorial', e)
        while True:
            t = self.peek()
            if t is None:
                return e
            if t in LEVEL:
                if LEVEL[t] <= p:
                    return e
                self.i += 1
                e = ('bin', OPOF[t], e, self.expr(LEVEL[t]))
            elif self.impl > p and (t == '(' or t[0] in ('name', 'part') or (t[0] == 'num' and e[0] != 'num')):
                e = ('bin', 'Times', e, self.expr(self.impl))
            else:
                return e

    def atom(self):
        t = self.peek()
        if t is None:
            raise Bad('ends too early')
        self.i += 1
        if t == '(':
            e = self.expr(0)
            if self.peek() != ')':
                raise Bad('a parenthesis is not closed')
            self.i += 1
            return e
        if t in ('+', '-'):
            return ('un', 'Plus' if t == '+' else 'Minus', self.expr(3))
        if t[0] == 'num':
            return t
        if t[0] == 'part':
            return t
        if t[0] == 'name':
            if self.i < len(self.t) and self.peek() == '(' and t[1][0] == 'fn':
                self.i += 1
                args = [self.expr(0)]
                while self.peek() == ',':
                    self.i += 1
                    args.append(self.expr(0))
                if self.peek() != ')':
                    raise Bad('the arguments are not closed')
                self.i += 1
                return ('call', t[1][1], tuple(args))
            if t[1][0] == 'fn':
                raise Bad('a function name without arguments')
            return ('var', t[1][1])
        raise Bad('%s is not expected' % show([t]))


def show(toks):
    out = ''
    for t in toks:
        if isinstance(t, str):
            out += t
        elif t[0] == 'num':
            out += '<number>'
        elif t[0] == 'name':
            out += '<%s>' % t[1][0]
        else:
            out += '<part %s>' % tstr(t[1])
    return out


def primary(toks):
    """The text is one atom on its own: it can replace any part."""
    if len(toks) == 1:
        return toks[0][0] in ('num', 'name', 'part') and (toks[0][0] != 'name' or toks[0][1][0] == 'var')
    if toks[0] != '(' and not (toks[0][0] == 'name' and len(toks) > 2 and toks[1] == '('):
        return False
    d = 0
    for i, t in enumerate(toks):
        if t == '(':
            d += 1
        elif t == ')':
            d -= 1
            if d == 0 and i < len(toks) - 1:
                return False
    return d == 0


class DispCheck:
    def __init__(self, prog, config):
        self.t = Tree(prog)
        self.p = prog
        self.config = config
        self.impl = 3 if 'pejmdas' in config else 2

    def run(self):
        self.r24, self.r27, self.r30 = r24, r27, r30 = [Report(p, self.config) for p in ('C24', 'C27', 'C30')]
        self.rec = Recursion(self.p, r27)
        s = Session(self.t, opts={'arglens': (1, 2, 3)})
        x = self.t.fn(r'^<.*::Xprs<.*> as core::fmt::Display>::fmt$')

        def mkx(ip):
            ip.fm = fmt_new()
            return [ip.opq('x', x['sig'][0]), Ref(Cell(ip.fm))]
        for r in s.explore(x, mkx):
            ip = r.ip
            if r.kind != 'return':
                r24.unknown('xprs', '%s: %s %s at %s' % (x['path'], r.kind, r.info, r.where))
                continue
            root = ip.opq_field(Opq(('*', 'x'), self.t.XPRS), 0, self.t.ROOTF).term
            parts = [p for p in ip.fm.d['parts'] if p != '']
            if parts == [('disp', root)]:
                r24.ok('%s writes the root' % x['path'])
            else:
                r24.violation('xprs', '%s: writes %s' % (x['path'], parts))
        self.templates = []
        done = set()
        while True:
            new = [(i, r) for i, r in s.new.items() if i not in done and r == 'DISP']
            if not new:
                break
            for fid, _ in new:
                done.add(fid)
                self.node(s, self.p.F[fid])
        if not done:
            raise Anchor('a recursive display of elements')
        self.rec.finish()
        self.compose()
        for rep in (r24, r27, r30):
            rep.functions |= {self.p.F[x]['path'] for x in s.coverage if self.p.F[x]['krate'] == self.p.crate}
            rep.paths = s.paths
        return [r24, r27, r30]

    def node(self, s, f):
        def mk(ip):
            a = []
            for t in f['sig'][:-1]:
                if self.t.pkind(t) == 'fmt':
                    ip.fm = fmt_new()
                    a.append(Ref(Cell(ip.fm)))
                else:
                    v = ip.opq('e', t)
                    ip.elem = unboxv(strip(ip, v))
                    ip.tyof.put(ip.elem)
                    ip.rootkey = ip.elem.term
                    a.append(v)
            return a

        def post(ip, v):
            # numbers: split by sign; infinities and NaN are outside of the property
            e = ip.expand(ip.elem, ip.variant_of(ip.elem))
            if self.t.kinds[e.var] == 'num':
                t = e.fs[0].t
                if ip.fdecide(t, ('isnan', ())) or ip.fdecide(t, ('isinf', ())):
                    raise PathEnd('infeasible')
                ip.neg = ip.fdecide(t, ('signneg', ()))
            return v
        for r in s.explore(f, mk, post):
            ip = r.ip
            sh = shape(ip, ip.elem)
            site = '%s, %s (%s)' % (f['path'], sh, '; '.join(r.log) or 'always')
            key = '%s:%s' % (f['path'], sh)
            self.rec.path(ip, f, site)
            if r.kind in ('panic', 'ub'):
                self.r30.violation(key, '%s: %s %s at %s' % (site, r.kind, r.info, r.where))
                continue
            if r.kind != 'return':
                self.r24.unknown(key, '%s: %s at %s' % (site, r.info, r.where))
                continue
            self.r30.ok()
            if sh == 'call with 0 arguments':
                continue                # the parser never makes one (C14)
            try:
                toks = self.tokens(ip)
                want = self.expected(ip)
            except Bad as e:
                self.r24.violation(key, '%s: %s' % (site, e))
                continue
            except PathEnd as e:
                self.r24.unknown(key, '%s: %s' % (site, e.info))
                continue
            if toks is None or want is None:
                self.r24.unknown(key, '%s: text %r' % (site, ip.fm.d['parts']))
                continue
            try:
                got = Reader(toks, self.impl).whole()
            except Bad as e:
                self.r24.violation(key, '%s: writes `%s`, which does not read back: %s' % (site, show(toks), e))
                continue
            if got == want:
                self.r24.ok('%s: `%s`' % (site, show(toks)))
                self.templates.append((f, key, sh, toks, want))
            else:
                self.r24.violation(key, '%s: writes `%s`, which reads as %s' % (site, show(toks), self.tree(got)))

    def tree(self, e):
        if e[0] == 'bin':
            return '(%s %s %s)' % (self.tree(e[2]), e[1], self.tree(e[3]))
        if e[0] == 'un':
            return '(%s %s)' % (e[1], self.tree(e[2]))
        if e[0] == 'call':
            return 'call(%s)' % ', '.join(self.tree(x) for x in e[2])
        return show([e]) if e[0] != 'var' else '<var>'

    def tokens(self, ip):
        out = []
        fnterm = self.fname(ip)
        for p in ip.fm.d['parts']:
            if isinstance(p, str):
                for ch in p:
                    if ch.isalnum() or ch in "_'." or ord(ch) > 126:
                        return None
                    out.append(ch)
            elif p[0] == 'f64':
                if p[2] not in ('display', 'debug', 'lower_exp', 'upper_exp'):
                    return None             # all of these are the shortest text that reads back as the number
                if getattr(ip, 'neg', False):
                    out.append('-')
                out.append(('num', p[1]))
            elif p[0] in ('f2itext', 'spec'):
                t, write = self.rounding(p)
                if t is None:
                    return None
                for x in self.witnesses(ip, t):
                    w = write(x)
                    if float(w) != x:
                        raise Bad('the number %r is written as %s' % (x, w))
                if getattr(ip, 'neg', False):
                    out.append('-')
                out.append(('num', t))
            elif p[0] == 's':
                if fnterm is not None and p == fnterm:
                    out.append(('name', ('fn', p)))
                else:
                    out.append(('name', ('var', p)))
            elif p[0] == 'disp':
                out.append(('part', p[1]))
            else:
                return None
        words = [isinstance(t, tuple) for t in out]
        if any(a and b for a, b in zip(words, words[1:])):
            raise Bad2(out)
        return out

    def rounding(self, p):
        """The float a text shows, and the text of a given float."""
        if p[0] == 'f2itext':
            return p[1], lambda x: str(max(p[2], min(p[3], int(x))))
        spec = dict(p[1])
        sub = p[2].parts if isinstance(p[2], StrV) else ()
        if set(k for k, v in p[1] if v) <= {'prec', 'flags'} and 'prec' in spec and not spec.get('flags', 0) & PLUS_ALT_ZERO_WIDTH \
                and len(sub) == 1 and not isinstance(sub[0], str) and sub[0][:1] == ('f64',) and sub[0][2] in ('display', 'debug'):
            return sub[0][1], lambda x: '%.*f' % (spec['prec'], x)
        return None, None

    def witnesses(self, ip, t):
        """Numbers that satisfy what the path knows about t, some from every range its facts distinguish."""
        base, chain = ip.fdom(t)
        if chain and chain != ('id',):
            return []
        preds = ip.facts.fl.get(base, [])
        pts = {0.1, 1 / 3, 1e-7, 1e-30, 0.5, 1.0, 12.25, 123456.789, 2.0**31, 2.0**31 - 1, 3e9, 2.0**32, 2.0**53, 2.0**53 + 2,
               2.0**63, 2.0**64, 1e15, 1e16, 1e17, 1e22, 1e300, 5e-324}
        pts |= {-x for x in pts}
        ok = [x for x in sorted(pts) if all(ip.fholds(q, x) == tr for q, tr in preds)]
        cs = {0.0, 1.0} | {float(q[2]) for q, _ in preds if q[0] == 'cmp'}
        out = [x for x in ok + ip._cands(preds, cs) if x == x and abs(x) != math.inf]
        for (l, r), rel in ip.facts.frel.items():
            (bl, cl), (br, cr) = ip.fdom(l), ip.fdom(r)
            if bl == base and br == base:
                out = [x for x in out if frel(ip.apply(cl, x), ip.apply(cr, x)) in rel]
            elif base in (bl, br):
                return []
        return out

    def fname(self, ip):
        e = ip.elem
        vs = ip.facts.variants.get(e.term)
        k = next(iter(vs))
        if self.t.kinds[k] != 'call':
            return None
        c = unboxv(ip.expand(e, k).fs[0])
        c = ip.expand(c, 0) if isinstance(c, Opq) else c
        d = c.fs[self.t.cf['desc']]
        d = ip.expand(d, 0) if isinstance(d, Opq) else d
        return text(ip, d.fs[self.t.ff['name']]).parts[0]

    def expected(self, ip):
        e = ip.elem
        k = next(iter(ip.facts.variants[e.term]))
        x = ip.expand(e, k)
        kind = self.t.kinds[k]
        v = unboxv(x.fs[0])
        if kind == 'num':
            n = ('num', v.t)
            return ('un', 'Minus', n) if ip.neg else n
        if kind == 'var':
            return ('var', text(ip, v).parts[0])
        v = ip.expand(v, 0) if isinstance(v, Opq) else v
        kids = [('part', c.term) for c in children(ip, e)]
        if kind == 'bin':
            return ('bin', opname(ip, v.fs[self.t.bf['op']]), kids[0], kids[1])
        if kind == 'un':
            return ('un', opname(ip, v.fs[self.t.uf['op']]), kids[0])
        return ('call', self.fname(ip), tuple(kids))

    def compose(self):
        """Templates that are not an atom on their own, placed where every other one has a part."""
        loose = [x for x in self.templates if not primary(x[3])]
        for f, key, sh, toks, want in loose:
            bad = None
            for _, _, psh, ptoks, pwant in self.templates:
                for part in {t for t in ptoks if isinstance(t, tuple) and t[0] == 'part'}:
                    ren = [('part', ('c', t[1])) if isinstance(t, tuple) and t[0] == 'part' else t for t in toks]
                    mix = [y for t in ptoks for y in (ren if t == part else [t])]
                    w = replace(pwant, part, rename(want))
                    try:
                        g = Reader(mix, self.impl).whole()
                    except Bad as e:
                        bad = bad or (psh, show(mix), str(e))
                        continue
                    if g != w:
                        bad = bad or (psh, show(mix), 'it reads as %s' % self.tree(g))
            if bad:
                self.r24.violation(key + ':inside', '%s, %s: `%s` is not delimited; inside a %s it gives `%s`: %s' % (
                    f['path'], sh, show(toks), *bad))
            else:
                self.r24.unknown(key + ':inside', '%s, %s: `%s` is not delimited' % (f['path'], sh, show(toks)))


class Bad2(PathEnd):
    def __init__(self, out):
        PathEnd.__init__(self, 'unknown', 'words without a separator in `%s`' % show(out))


def rename(e):
    if e[0] == 'part':
        return ('part', ('c', e[1]))
    if e[0] in ('bin', 'un'):
        return e[:2] + tuple(rename(x) for x in e[2:])
    if e[0] == 'call':
        return ('call', e[1], tuple(rename(x) for x in e[2]))
    return e


def replace(e, part, by):
    if e == part:
        return by
    if e[0] in ('bin', 'un'):
        return e[:2] + tuple(replace(x, part, by) for x in e[2:])
    if e[0] == 'call':
        return ('call', e[1], tuple(replace(x, part, by) for x in e[2]))
    return e
