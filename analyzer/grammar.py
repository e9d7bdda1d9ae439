"""The documented grammar, as a parser over the abstract input.

Every function is a coroutine over the same byte facts the code's path has
collected.  It yields requests:
  ('sub', level, position, why)   a nested expression: the driver answers (tree, end)
                                  or throws Reject
  ('head', level, tree, position) between two operators: the driver may answer with
                                  another (tree, position) that stands for it
and returns (tree, end)."""
from absint import EOF, FULL, Lin, PathEnd, lin_add, lin

DIGIT = frozenset(b'0123456789')
LETTER = frozenset(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
BLANKS = frozenset(b' \t\n\x0c\r')
NUM = DIGIT | frozenset(b'._')
NUMSTART = DIGIT | frozenset(b'.')
NAME = LETTER | DIGIT | frozenset(b"_'")
EXP = frozenset(b'eE')
SIGN = frozenset(b'+-')
OPS = {ord('+'): ('Plus', 1), ord('-'): ('Minus', 1), ord('*'): ('Times', 2), ord('/'): ('Divide', 2),
       ord('%'): ('Modulo', 2), ord('^'): ('Power', 4)}
TOP, UNARY = 0, 3


def c1(ch):
    return frozenset((ord(ch),))


class Reject(Exception):
    """The text is outside the grammar."""

    def __init__(self, why, *info):
        Exception.__init__(self, why)
        self.why, self.info = why, info


class GiveUp(Exception):
    pass


class Grammar:
    def __init__(self, ip, pejmdas, host):
        self.ip = ip
        self.implicit = 3 if pejmdas else 2
        self.h = host

    # ------------------------------------------------------------ text
    def split(self, pos, T, prefer=True):
        """Is the byte at pos in T?  Forks; when steered towards a short end, takes the side that gets there."""
        ip = self.ip
        if ip.steer:
            c = ip.cls_at(pos)
            yes = bool(c & T) and (prefer or not c - T)
            ip.set_cls(pos, c & T if yes else c - T)
            return yes
        return ip.split(pos, T)

    def groups(self, pos, gs, first=()):
        if self.ip.steer:
            gs = sorted(gs, key=lambda g: first.index(g[0]) if g[0] in first else len(first))
        return self.ip.split_groups(pos, gs)

    def known_from(self, pos):
        f = self.ip.facts
        l = lin(pos)
        for q in f.bytes:
            ql = lin(q)
            if ql.t == l.t and ql.c >= l.c:
                return True
        return False

    def scan(self, pos, T):
        """The end of the maximal run of bytes in T that starts at pos."""
        ip, f = self.ip, self.ip.facts
        while True:
            seg = f.segs.get(pos)
            if seg is not None:
                a, C = seg
                c0 = ip.cls(pos)
                if c0 <= T and C <= T:
                    pos = Lin(((a, 1),), 0)
                    continue
                if not c0 & T:
                    return pos
                k = ip.choose(3) if not ip.steer else 1 if c0 - T else 0 if C <= T else 2
                if k == 0:
                    ip.set_cls(pos, c0 & T)
                    f.segs[pos] = (a, C & T)
                    ip.note('bytes from %s on all in the run' % (pos,))
                elif k == 1:
                    ip.set_cls(pos, c0 - T)
                    return pos
                else:
                    if not C - T:
                        raise PathEnd('infeasible')
                    ip.set_cls(pos, c0 & T)
                    b = self.h.anchor(ip, pos, 1)
                    bp = Lin(((b, 1),), 0)
                    f.segs[pos] = (b, C & T if C & T else c0 & T)
                    ip.set_cls(bp, C - T)
                    f.segs[bp] = (a, C)
                    return bp
                continue
            if not self.split(pos, T, False):
                return pos
            pos = lin_add(pos, 1)
            if pos in f.segs or self.known_from(pos):
                continue
            if not self.split(pos, T, False):
                return pos
            b = self.h.anchor(ip, pos, 1)
            bp = Lin(((b, 1),), 0)
            f.segs[pos] = (b, T)
            ip.set_cls(bp, ip.cls(bp) - T)
            return bp

    def blank(self, pos):
        return self.scan(pos, BLANKS)

    # ------------------------------------------------------------ grammar
    def root(self):
        el, pos = yield ('sub', TOP, 0, 'root')
        pos = self.blank(pos)
        if not self.split(pos, frozenset((EOF,))):
            raise Reject('left over', pos)
        return el, pos

    def element(self, level, pos):
        el, pos = yield from self.atom(pos)
        q = self.blank(pos)
        if self.split(q, c1('!'), False):
            el, pos = ('un', 'Factorial', el), lin_add(q, 1)
        while True:
            el, pos = yield ('head', level, el, pos)
            q = self.blank(pos)
            b = self.groups(q, [(o, frozenset((o,))) for o in OPS] +
                                     [('l', LETTER), ('d', DIGIT), ('(', c1('(')), ('', self.rest())], ('',))
            if b in OPS:
                op, p = OPS[b]
                q = lin_add(q, 1)
                why = 'op'
            else:
                op, p, why = 'Times', self.implicit, 'implicit'
                if b == '' or (b == 'd' and p > level and self.h.is_number(self.ip, el)):
                    break
            if p <= level:
                break
            rhs, pos = yield ('sub', p, q, why)
            el = ('bin', op, el, rhs)
        return el, pos

    def rest(self):
        return FULL - frozenset(OPS) - LETTER - DIGIT - c1('(')

    def atom(self, pos):
        ip = self.ip
        p = self.blank(pos)
        k = self.groups(p, [('num', NUMSTART), ('name', LETTER), ('+', c1('+')), ('-', c1('-')), ('(', c1('(')),
                                ('end', frozenset((EOF,))), ('bad', FULL - NUMSTART - LETTER - frozenset(b'+-(') - {EOF})], ('num', 'name', '('))
        if k == 'num':
            return self.number(p)
        if k == 'name':
            return (yield from self.name(p))
        if k in ('+', '-'):
            el, pos = yield ('sub', UNARY, lin_add(p, 1), 'sign')
            return ('un', 'Plus' if k == '+' else 'Minus', el), pos
        if k == '(':
            el, pos = yield ('sub', TOP, lin_add(p, 1), 'paren')
            q = self.blank(pos)
            if not self.split(q, c1(')')):
                raise Reject('unclosed', q)
            return el, lin_add(q, 1)
        raise Reject('end' if k == 'end' else 'start', p)

    def number(self, p):
        ip = self.ip
        if ip.steer:
            self.split(p, DIGIT)
        q = self.scan(p, NUM)
        if self.split(q, EXP, False):
            n = lin_add(q, 1)
            if self.split(n, SIGN, False):
                if self.split(lin_add(n, 1), DIGIT, False):
                    q = self.scan(lin_add(n, 1), DIGIT)
            elif self.split(n, DIGIT, False):
                q = self.scan(n, DIGIT)
        t = ('numtext', p, q)
        if not ip.decide(('parses', t)):
            raise Reject('malformed', p, q)
        return ('num', ('parse', t)), q

    def name(self, p):
        ip = self.ip
        q = self.scan(p, NAME)
        what, val = self.h.lookup(ip, p, q)
        if what == 'num':
            return ('num', val), q
        if what == 'var':
            return ('var', val), q
        pos = self.blank(q)
        if not self.split(pos, c1('(')):
            raise Reject('no call', pos)
        pos = lin_add(pos, 1)
        args = []
        while True:
            el, pos = yield ('sub', TOP, pos, 'arg')
            args.append(el)
            q = self.blank(pos)
            k = self.groups(q, [(',', c1(',')), (')', c1(')')), ('', FULL - c1(',') - c1(')'))], (')',))
            pos = lin_add(q, 1)
            if k == ')':
                break
            if k == '':
                raise Reject('args', q)
        n = self.h.declared(ip, val)
        if n is not None and not ip.truth(ip.cmpint('Eq', n, len(args))):
            raise Reject('arity', n, len(args), p, pos)
        return ('call', self.h.fkey(ip, val)) + tuple(args), pos
