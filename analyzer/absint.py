"""Abstract interpreter for the dumped MIR.

Paths are explored one at a time: every branch that the abstract state does
not decide is a numbered choice, and a path is re-walked from its list of
choices.  Values are concrete constants, symbolic linear integers, byte
functions, float terms, constructor shapes and opaque terms that are refined
lazily by the facts of the path."""
import functools
import math
import os
import re
import sys
from ir import bits2f, f2bits
from mir import live_in, loop_heads

sys.setrecursionlimit(20000)


class NoChoice(Exception):
    """A choice came up where none may be made."""


class PathEnd(Exception):
    def __init__(self, kind, info='', where=None):
        Exception.__init__(self, kind, info)
        self.kind, self.info, self.where = kind, info, where


# ------------------------------------------------------------------ values
class Cell:
    __slots__ = ('v', 'unsized', 'name')

    def __init__(self, v, unsized=None, name=None):
        self.v, self.unsized, self.name = v, unsized, name


class _Un:
    def __repr__(self):
        return '<uninit>'


UNINIT = _Un()


class Lin:
    """c + sum coef*sym"""
    __slots__ = ('t', 'c')

    def __init__(self, t, c):
        self.t, self.c = t, c

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash((self.t, self.c))

    def __repr__(self):
        s = '+'.join((str(a) if k == 1 else '%d*%s' % (k, a)) for a, k in self.t)
        return s + ('%+d' % self.c if self.c else '')


def lin(x):
    return x if isinstance(x, Lin) else Lin((), x)


def lin_norm(d, c):
    try:
        t = tuple(sorted((a, k) for a, k in d.items() if k))
    except TypeError:
        t = tuple(sorted(((a, k) for a, k in d.items() if k), key=repr))
    return Lin(t, c) if t else c


def lin_add(a, b, k=1):
    a, b = lin(a), lin(b)
    d = dict(a.t)
    for s, q in b.t:
        d[s] = d.get(s, 0) + k * q
    return lin_norm(d, a.c + k * b.c)


def lin_mul(a, k):
    a = lin(a)
    return lin_norm({s: q * k for s, q in a.t}, a.c * k)


class BF:
    """A function of the input byte at a position."""
    __slots__ = ('pos', 'tab')

    def __init__(self, pos, tab):
        self.pos, self.tab = pos, tab

    def __eq__(self, o):
        return isinstance(o, BF) and self.pos == o.pos and self.tab == o.tab

    def __hash__(self):
        return hash((self.pos, self.tab))

    def __repr__(self):
        return 'byte(%s)' % (self.pos,) if self.tab == IDENT else 'bf(%s)' % (self.pos,)


IDENT = tuple(range(256))
BFMEMO = {}
SWMEMO = {}


class SymB:
    """A boolean term."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, SymB) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return 'bool%r' % (self.t,)


class F:
    """A float term."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, F) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return 'F%s' % fstr(self.t)


def fstr(t):
    k = t[0]
    if k == 'c':
        return repr(bits2f(t[1]))
    if k == 'v':
        return tstr(t[1])
    if k == 'neg':
        return '-%s' % fstr(t[1])
    if k in ('add', 'sub', 'mul', 'div', 'rem') and len(t) == 3:
        return '(%s %s %s)' % (fstr(t[1]), {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%'}[k], fstr(t[2]))
    if k == 'fn':
        return '%s(%s)' % (t[1], ', '.join(fstr(x) if isinstance(x, tuple) else str(x) for x in t[2:]))
    return str(t)


def fconst(x):
    return F(('c', f2bits(x)))


class Adt:
    __slots__ = ('ty', 'var', 'fs')

    def __init__(self, ty, var, fs):
        self.ty, self.var, self.fs = ty, var, fs

    def __repr__(self):
        return 'Adt#%s.%s%r' % (self.ty, self.var, self.fs)


class Seq:
    """Array, slice or vector contents."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return 'Seq%r' % (self.items,)


class SeqOpq:
    __slots__ = ('term', 'elem')

    def __init__(self, term, elem):
        self.term, self.elem = term, elem

    def __repr__(self):
        return 'SeqOpq(%r)' % (self.term,)


class Ref:
    __slots__ = ('cell', 'path', 'sub')

    def __init__(self, cell, path=(), sub=None):
        self.cell, self.path, self.sub = cell, path, sub

    def __repr__(self):
        return '&%r%s' % (self.cell.v, list(self.path) if self.path else '')


class BoxV:
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell

    def __repr__(self):
        return 'Box(%r)' % (self.cell.v,)


class ArcV:
    __slots__ = ('cell', 'id')

    def __init__(self, cell, id):
        self.cell, self.id = cell, id

    def __repr__(self):
        return 'Arc(%r)' % (self.id,)


class DynV:
    __slots__ = ('ptr', 'ty')

    def __init__(self, ptr, ty):
        self.ptr, self.ty = ptr, ty

    def __repr__(self):
        return 'dyn(%r)' % (self.ptr,)


class StrV:
    """Text: literals, opaque atoms, slices of the input."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, o):
        return isinstance(o, StrV) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return 'str' + repr(self.parts)

    def lit(self):
        """The text if it is a literal, else None."""
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        elif p[0] == 'sub' and out and out[-1][0] == 'sub' and out[-1][1] == p[1] and out[-1][3] == p[2]:
            p = ('sub', p[1], out.pop()[2], p[3])
            if p[2] == 0 and p[3] == Lin(((('n', ('len', StrV((p[1],)))), 1),), 0):
                p = p[1]
        out.append(p)
    return StrV(tuple(out))


class BytesV:
    """The bytes of the input text from lo to hi (None: its end)."""
    __slots__ = ('src', 'lo', 'hi')

    def __init__(self, src, lo=0, hi=None):
        self.src, self.lo, self.hi = src, lo, hi

    def __repr__(self):
        return 'bytes(%r,%s..%s)' % (self.src, self.lo, self.hi)


class FnV:
    __slots__ = ('fid',)

    def __init__(self, fid):
        self.fid = fid

    def __repr__(self):
        return 'fn#%d' % self.fid


class FnOpq:
    """An unknown function (user supplied)."""
    __slots__ = ('term', 'unsafe')

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return 'fn%r' % (self.term,)


class CloPtr:
    """A closure turned into a function pointer."""
    __slots__ = ('clo',)

    def __init__(self, clo):
        self.clo = clo


class MapV:
    """base: opaque map term or None; entries: (key, Cell), later ones win"""
    __slots__ = ('base', 'entries', 'vty')

    def __init__(self, base, entries, vty):
        self.base, self.entries, self.vty = base, entries, vty

    def __repr__(self):
        return 'Map(%r,%r)' % (self.base, [(k, c and c.v) for k, c in self.entries])


class SetV:
    """parts: StrV/values, and opaque ('set', term) parts; minus: removed keys"""
    __slots__ = ('parts', 'minus')

    def __init__(self, parts, minus=()):
        self.parts, self.minus = parts, minus

    def __repr__(self):
        return 'Set(%r%s)' % (self.parts, ' minus %r' % (self.minus,) if self.minus else '')


class Obj:
    """Any other modelled object: iterators, formatters, ..."""
    __slots__ = ('k', 'd')

    def __init__(self, k, **d):
        self.k, self.d = k, d

    def __repr__(self):
        return '%s%r' % (self.k, self.d)


class Opq:
    __slots__ = ('term', 'ty')

    def __init__(self, term, ty):
        self.term, self.ty = term, ty

    def __repr__(self):
        return 'Opq%r' % (self.term,)


class Unk:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % self.why


FULL = frozenset(range(257))
EOF = 256
NONEOF = frozenset(range(256))
BLANK = frozenset((9, 10, 12, 13, 32))
CONT = frozenset(range(0x80, 0xC0))
ASCII = frozenset(range(128))
LEAD = frozenset(range(0xC2, 0xF5))
VALID = FULL - frozenset((0xC0, 0xC1)) - frozenset(range(0xF5, 0x100))
NOCONT = VALID - CONT
RELS = frozenset(('lt', 'eq', 'gt', 'un'))
CMP = {'Lt': frozenset(('lt',)), 'Le': frozenset(('lt', 'eq')), 'Gt': frozenset(('gt',)),
       'Ge': frozenset(('gt', 'eq')), 'Eq': frozenset(('eq',)), 'Ne': frozenset(('lt', 'gt', 'un'))}
FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', 'un': 'un'}


def frel(a, b):
    if a != a or b != b:
        return 'un'
    return 'lt' if a < b else 'gt' if a > b else 'eq'


def fpred(p, x):
    k = p[0]
    if k == 'isnan':
        return x != x
    if k == 'isinf':
        return x in (math.inf, -math.inf)
    if k == 'isfin':
        return x == x and x not in (math.inf, -math.inf)
    if k == 'signneg':
        return math.copysign(1.0, x) < 0
    if k == 'cmp':
        return frel(x, p[1]) in p[2]
    if k == 'fcmp':       # comparison of f(x) with a constant
        return frel(ffun(p[1], x), p[2]) in p[3]
    raise ValueError(k)


def ffun(n, x):
    """Exact elementary functions of the float domain."""
    if n == 'id':
        return x
    if x != x:
        return x
    if n == 'neg':
        return -x
    if n == 'abs':
        return abs(x)
    if x in (math.inf, -math.inf):
        return math.nan if n in ('fract', 'rem1', 'rem2') else x
    if n in ('rem1', 'rem2'):
        return math.fmod(x, float(n[3:]))
    if n == 'fract':
        return math.copysign(x - math.trunc(x), x) if x - math.trunc(x) == 0 else x - math.trunc(x)
    if n == 'trunc':
        return math.copysign(float(math.trunc(x)), x)
    if n == 'floor':
        return math.copysign(float(math.floor(x)), x) if math.floor(x) == 0 else float(math.floor(x))
    if n == 'ceil':
        return math.copysign(float(math.ceil(x)), x) if math.ceil(x) == 0 else float(math.ceil(x))
    if n == 'round':
        r = math.floor(abs(x) + 0.5)
        if abs(x) == 0.49999999999999994:
            r = 0
        return math.copysign(float(r), x)
    raise ValueError(n)


class Facts:
    def __init__(self):
        self.variants = {}     # term -> frozenset of variant indices
        self.bytes = {}        # position -> frozenset of byte values / EOF
        self.bools = {}        # boolean term -> bool
        self.ints = {}         # int symbol -> (lo, hi)
        self.fl = {}           # float term -> list of (pred, truth)
        self.frel = {}         # (a, b) -> set of relations
        self.strlit = {}       # str atom -> literal it equals
        self.strneg = {}       # str atom -> set of literals it differs from
        self.anchors = {}      # anchor symbol -> (base position, minimal distance)
        self.segs = {}         # start position -> (anchor, class)
        self.lens = {}         # sequence term -> length
        self.consts = []       # readable log of decisions


class NoState(Exception):
    pass


class Path:
    """What a path ended with."""
    def __init__(self, kind, info, interp):
        self.kind, self.info, self.ip = kind, info, interp
        self.facts = interp.facts
        self.log = interp.facts.consts
        self.events = interp.events
        self.where = interp.where()


class Interp:
    MAXSTEPS = 60000

    def __init__(self, prog, models, script=(), hooks=None, opts=None):
        self.p = prog
        self.models = models
        self.script = script
        self.pos = 0
        self.choices = []        # (taken, number of options)
        self.facts = Facts()
        self.hooks = hooks or {}
        self.opts = opts or {}
        self.stack = []          # (fn, line)
        self.frames = []
        self.bbs = []
        self.nochoose = 0
        self.steer = False
        self.events = []
        self.memo = {}
        self.steps = 0
        self.fresh_n = 0
        self.taint = []
        self.covered = self.opts.get('covered')
        self.loop_hook = self.opts.get('loop_hook')
        self.recur_hook = self.opts.get('recur_hook')
        self.loopmax = self.opts.get('loopmax', 2000)
        self.entries = []       # recursive functions that were entered: (depth, function, arguments)
        self.unk_calls = self.opts.get('unk_calls')
        self.nchoices = 0
        self.lazy = []

    def where(self):
        return ' > '.join('%s' % (f['path'],) + (':%s' % l if l else '') for f, l in self.stack[-4:])

    def site(self):
        for f, l in reversed(self.stack):
            if f['krate'] == self.p.crate:
                return f['path'], l
        return ('?', None)

    def lazy_add(self, f):
        self.lazy.append(f)
        return len(self.lazy) - 1

    # ---------------------------------------------------------- choices
    def choose(self, n, label=None):
        if n == 1:
            return 0
        if self.nochoose:
            raise NoChoice()
        if self.steer:
            return 0
        if self.pos < len(self.script):
            k = self.script[self.pos]
        else:
            k = 0
        self.pos += 1
        self.choices.append((k, n))
        self.nchoices += 1
        if self.nchoices > 5000:
            raise PathEnd('unknown', 'a path with more than 5000 decisions')
        lim = self.opts.get('maxchoices')
        if lim and self.nchoices > lim:
            raise PathEnd('bound', 'too many choices')
        return k

    def note(self, s):
        self.facts.consts.append(s)

    def fresh(self, p):
        self.fresh_n += 1
        return '%s%d' % (p, self.fresh_n)

    # ---------------------------------------------------------- byte facts
    def cls(self, pos):
        f = self.facts
        c = f.bytes.get(pos)
        if c is None:
            c = FULL
            l = lin(pos)
            # end of input is monotone along a common anchor
            for q, qc in f.bytes.items():
                ql = lin(q)
                if ql.t == l.t:
                    if qc == frozenset((EOF,)) and ql.c < l.c:
                        c = frozenset((EOF,))
                    elif EOF not in qc and ql.c > l.c:
                        c = c - {EOF}
            if c is FULL or c == FULL:
                for a, (b, m) in f.anchors.items():
                    bl = lin(b)
                    if bl.t == l.t and bl.c <= l.c < bl.c + m:
                        c = c - {EOF}
            c = c & self.utf8_ok(l)
            cap = self.opts.get('byte_domain')
            if cap:
                c = c & cap
            f.bytes[pos] = c
        return c

    def utf8_ok(self, l):
        """The bytes valid UTF-8 allows at a position, from what is known just before it."""
        f = self.facts
        if not l.t and l.c == 0:
            return NOCONT
        p = f.bytes.get(lin_norm(dict(l.t), l.c - 1))
        if p is not None:
            if p <= ASCII:
                return NOCONT
            if p <= LEAD:
                return CONT
        if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1:
            if any(a == l.t[0][0] and c <= ASCII for a, c in f.segs.values()):
                return NOCONT
        return VALID

    def set_cls(self, pos, c):
        if not c:
            raise PathEnd('infeasible')
        self.facts.bytes[pos] = c

    def pred_class(self, pos, call):
        """The bytes at pos (which exists) for which call() holds, if that is a function of the byte alone."""
        by = self.facts.bytes
        had = by.get(pos)
        c = self.cls(pos) - {EOF}
        n = len(self.stack), len(self.frames), len(self.bbs), len(self.facts.consts)
        v = None
        self.nochoose += 1
        try:
            by[pos] = c
            v = call()
        except (NoChoice, PathEnd):
            del self.stack[n[0]:], self.frames[n[1]:], self.bbs[n[2]:], self.facts.consts[n[3]:]
        finally:
            self.nochoose -= 1
            if had is None:
                by.pop(pos, None)
            else:
                by[pos] = had
        if isinstance(v, int):
            return c if v else frozenset()
        if isinstance(v, BF) and v.pos == pos:
            return frozenset(b for b in c if v.tab[b])
        return None

    def cls_at(self, pos):
        """cls, with what the positions of other anchors say about the end of the input."""
        c = self.cls(pos)
        if EOF in c and len(c) > 1:
            l = lin(pos)
            for q, qc in self.facts.bytes.items():
                ql = lin(q)
                if ql.t == l.t:
                    continue
                if EOF not in qc:
                    lo = self.bounds0(lin_add(ql, l, -1))[0]
                    if lo is not None and lo >= 0:
                        c = c - {EOF}
                        break
                elif len(qc) == 1:
                    lo = self.bounds0(lin_add(l, ql, -1))[0]
                    if lo is not None and lo >= 0:
                        c = frozenset((EOF,))
                        break
            self.facts.bytes[pos] = c
        return c

    def split(self, pos, subset):
        """Is the byte at pos in subset? Decides, forking if needed."""
        c = self.cls_at(pos)
        y = c & subset
        n = c - subset
        if not n:
            return True
        if not y:
            return False
        if self.choose(2) == 0:
            self.facts.bytes[pos] = y
            self.note('byte %s in %s' % (pos, show_cls(y)))
            return True
        self.facts.bytes[pos] = n
        self.note('byte %s in %s' % (pos, show_cls(n)))
        return False

    def split_groups(self, pos, groups):
        """groups: list of (key, set) covering the class; picks one"""
        c = self.cls_at(pos)
        gs = [(k, c & s) for k, s in groups]
        gs = [(k, s) for k, s in gs if s]
        if not gs:
            raise PathEnd('infeasible')
        i = self.choose(len(gs))
        if len(gs) > 1:
            self.facts.bytes[pos] = gs[i][1]
            self.note('byte %s in %s' % (pos, show_cls(gs[i][1])))
        return gs[i][0]

    def bf_val(self, v):
        """The integer a byte function has, forking over its values."""
        if v.pos is None:
            raise PathEnd('unknown', 'byte function without position')
        c = self.cls(v.pos)
        vals = {}
        for b in c:
            if b != EOF:
                vals.setdefault(v.tab[b], set()).add(b)
        if len(vals) == 1:
            return next(iter(vals))
        return self.split_groups(v.pos, [(k, frozenset(s)) for k, s in sorted(vals.items())])

    # ---------------------------------------------------------- integers
    def bounds(self, l):
        """(lower, upper) of a linear integer; None: unbounded"""
        lo, hi = self.bounds0(l)
        if lo is not None and lo != hi and isinstance(l, Lin):
            bs = self.facts.bools
            for _ in range(3):
                z = bs.get(('zero', lin_add(l, -lo)))
                if z is None:
                    z = bs.get(('zero', lin_mul(lin_add(l, -lo), -1)))
                if z is None:
                    break
                if z:
                    return lo, lo
                lo += 1
        return lo, hi

    def bounds0(self, l, depth=0):
        l = lin(l)
        lo = hi = l.c
        if not l.t:
            return lo, hi
        if depth == 0 and self.facts.bools.get(('neg', l)) is False:
            return 0, self.bounds0(l, 1)[1]
        # anchors: replace the newest one by its base plus the minimal distance
        f = self.facts
        syms = dict(l.t)
        anch = [a for a in syms if a in f.anchors]
        if anch:
            anch.sort(key=lambda a: int(a[1:]) if a[1:].isdigit() else 0)
            a = anch[-1]
            k = syms[a]
            b, m = f.anchors[a]
            rest = lin_add(l, Lin(((a, 1),), 0), -k)
            repl = lin_add(rest, lin_mul(lin_add(b, m), k))
            if k > 0:
                return self.bounds0(repl, depth + 1)[0], None
            return None, self.bounds0(repl, depth + 1)[1]
        for s, k in l.t:
            a, b = f.ints.get(s, (0, None) if s == 'LEN' else (None, None))
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def decide_neg(self, l):
        """l < 0 ?"""
        if not isinstance(l, Lin):
            return l < 0
        d = dict(l.t)
        if d.get('LEN') in (1, -1) and len(d) <= 2:
            k = d['LEN']
            rest = lin_add(l, Lin((('LEN', 1),), 0), -k)
            if k == -1:
                # rest - LEN < 0  <=>  byte(rest) exists
                lo = self.bounds(rest)[0]
                if lo is not None and lo >= 0:
                    return self.split(rest, NONEOF)
            else:
                # LEN - r < 0 <=> LEN < r <=> not exists byte(r-1)   (r>=1)
                r = lin_mul(rest, -1)
                lo = self.bounds(r)[0]
                if r == 0:
                    return False
                if lo is not None and lo >= 0 and self.is_pos(r):
                    return False
                if lo is not None and lo >= 1:
                    return not self.split(lin_add(r, -1), NONEOF)
        lo, hi = self.bounds(l)
        if lo is not None and lo >= 0:
            return False
        if hi is not None and hi < 0:
            return True
        t = ('neg', l)
        if t in self.facts.bools:
            return self.facts.bools[t]
        r = self.implied_neg(l)
        if r is not None:
            return r
        # a single symbol with an interval: refine it
        r = self.choose(2) == 0
        self.facts.bools[t] = r
        self.note('%s %s 0' % (l, '<' if r else '>='))
        if len(l.t) == 1 and l.t[0][0] not in self.facts.anchors:
            s, k = l.t[0]
            a, b = self.facts.ints.get(s, (None, None))
            if k == 1:      # s < -c  or s >= -c
                if r:
                    b = -l.c - 1 if b is None else min(b, -l.c - 1)
                else:
                    a = -l.c if a is None else max(a, -l.c)
            elif k == -1:   # -s < -c <=> s > c ; else s <= c
                if r:
                    a = l.c + 1 if a is None else max(a, l.c + 1)
                else:
                    b = l.c if b is None else min(b, l.c)
            self.facts.ints[s] = (a, b)
            if a is not None and b is not None and a > b:
                raise PathEnd('infeasible')
        return r

    def implied_neg(self, l):
        """l < 0, from what is known of integers that differ from l or -l by a constant."""
        for k, v in self.facts.bools.items():
            if not isinstance(k, tuple) or k[0] != 'neg' or not isinstance(k[1], Lin) or len(k[1].t) != len(l.t):
                continue
            o = k[1]
            if o.t == l.t:
                if v and l.c <= o.c:
                    return True
                if not v and l.c >= o.c:
                    return False
            else:
                d = lin_add(o, l)
                if isinstance(d, int):
                    if v and d >= -1:
                        return False
                    if not v and d < 0:
                        return True
        return None

    def is_pos(self, l):
        """Known to be a position at or before the end of the input."""
        l = lin(l)
        if l.t and l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 and l.t[0][0] in self.facts.anchors:
            return True
        if not l.t and l.c == 0:
            return True
        c = self.cls(lin_norm(dict(l.t), l.c - 1))
        return EOF not in c

    def decide_zero(self, l):
        if not isinstance(l, Lin):
            return l == 0
        d = dict(l.t)
        if d.get('LEN') in (1, -1) and len(d) <= 2:
            k = d['LEN']
            rest = lin_mul(lin_add(l, Lin((('LEN', 1),), 0), -k), -k)  # position compared with LEN
            if self.is_pos(rest) or True:
                lo = self.bounds(rest)[0]
                if lo is not None and lo >= 0 and self.is_pos(rest):
                    return not self.split(rest, NONEOF)
        lo, hi = self.bounds(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if lo == 0 and hi == 0:
            return True
        t = ('zero', l)
        if t in self.facts.bools:
            return self.facts.bools[t]
        r = self.choose(2) == 0
        self.facts.bools[t] = r
        self.note('%s %s 0' % (l, '==' if r else '!='))
        if r and len(l.t) == 1 and l.t[0][1] in (1, -1) and l.t[0][0] not in self.facts.anchors:
            s, k = l.t[0]
            self.facts.ints[s] = (-l.c * k, -l.c * k)
        elif not r and len(l.t) == 1 and l.t[0][1] in (1, -1):
            s, k = l.t[0]
            v = -l.c * k
            a, b = self.facts.ints.get(s, (None, None))
            if a == v:
                a = v + 1
            if b == v:
                b = v - 1
            self.facts.ints[s] = (a, b)
            if a is not None and b is not None and a > b:
                raise PathEnd('infeasible')
        return r

    def int_val(self, v):
        """A concrete integer, if it is one."""
        if isinstance(v, int):
            return v
        if isinstance(v, Lin):
            lo, hi = self.bounds(v)
            if lo is not None and lo == hi:
                return lo
        if isinstance(v, BF):
            return self.bf_val(v)
        return None

    # ---------------------------------------------------------- floats
    def fdom(self, t):
        """Constraints on the base term of t, and the function applied to it."""
        fn = 'id'
        chain = []
        while True:
            if t[0] == 'neg':
                chain.append('neg')
                t = t[1]
            elif t[0] == 'fn' and t[1] in ('fract', 'trunc', 'floor', 'ceil', 'round', 'abs') and len(t) == 3:
                chain.append(t[1])
                t = t[2]
            elif t[0] == 'sub' and t[2] == ('fn', 'trunc', t[1]):
                chain.append('fract')
                t = t[1]
            elif t[0] == 'rem' and t[2][0] == 'c' and bits2f(t[2][1]) in (1.0, 2.0):
                chain.append('rem%d' % bits2f(t[2][1]))
                t = t[1]
            else:
                return t, tuple(reversed(chain))

    @staticmethod
    def apply(chain, x):
        for n in chain:
            x = ffun(n, x)
        return x

    def cands(self, base):
        """Representatives of every cell of the partition of the doubles."""
        preds = self.facts.fl.get(base, [])
        cs = {0.0, 1.0}
        for (p, tr) in preds:
            if p[0] == 'cmp':
                cs.add(p[2])
        return self._cands(preds, cs)

    def _cands(self, preds, cs):
        cs = {c for c in cs if c == c and abs(c) != math.inf}
        pts = set()
        extra = set()
        for c in cs:
            extra |= {-c, c + 1, c - 1}
        cs |= extra
        s = sorted(cs)
        pts.update(s)
        for a, b in zip(s, s[1:]):
            pts.add((a + b) / 2)
            m = float(math.floor((a + b) / 2))
            if a < m < b:
                pts.add(m)
            h = m + 0.5
            if a < h < b:
                pts.add(h)
            q = a + (b - a) * 0.25
            pts.add(q)
            pts.add(math.nextafter(b, -math.inf))
            pts.add(math.nextafter(a, math.inf))
        pts |= {s[0] - 10, s[0] - 10.5, s[-1] + 10, s[-1] + 10.5, 1e300, -1e300, math.inf, -math.inf, math.nan,
                -0.0, 0.5, -0.5}
        out = []
        for x in pts:
            if all(self.fholds(p, x) == tr for p, tr in preds):
                out.append(x)
        if 0.0 in pts and not any(x == 0 and math.copysign(1, x) < 0 for x in out):
            if all(self.fholds(p, -0.0) == tr for p, tr in preds):
                out.append(-0.0)
        return out

    def fholds(self, p, x):
        if p[0] == 'cmp':
            return frel(self.apply(p[1], x), p[2]) in p[3]
        if p[0] == 'rel':
            return frel(self.apply(p[1], x), self.apply(p[2], x)) in p[3]
        if p[0] == 'int':
            y = self.apply(p[1], x)
            return y == y and abs(y) != math.inf and int(y) == p[2]
        if p[0] == 'fit':
            y = self.apply(p[1], x)
            return y == y and abs(y) != math.inf and p[2] <= int(y) <= p[3]
        if p[0] == 'f2i':
            y = self.apply(p[1], x)
            i = 0 if y != y else int(max(-1e30, min(1e30, y)))
            return frel(max(p[4], min(p[5], i)), p[3]) in CMP[p[2]]
        return fpred(p[0:1] + p[2:], self.apply(p[1], x))

    def fdecide(self, base, p):
        preds = self.facts.fl.setdefault(base, [])
        for q, tr in preds:
            if q == p:
                return tr
        cs = {0.0, 1.0}
        for (q, tr) in preds + [(p, None)]:
            if q[0] == 'cmp' or q[0] == 'int':
                cs.add(float(q[2]))
            elif q[0] == 'f2i':
                cs.add(float(q[3]))
            elif q[0] == 'fit':
                cs |= {float(q[2]), float(q[3])}
        pts = self._cands(preds, cs)
        y = any(self.fholds(p, x) for x in pts)
        n = any(not self.fholds(p, x) for x in pts)
        if not y and not n:
            raise PathEnd('infeasible')
        if y and n:
            r = self.choose(2) == 0
            self.note('%s%s%s(%s)' % ('' if r else 'not ', p[0], p[2:], fstr(base)))
        else:
            r = y
        preds.append((p, r))
        return r

    def fcmp(self, op, a, b):
        """Decides a comparison of float terms."""
        allowed = CMP[op]
        a, b = self.fold(a), self.fold(b)
        if a[0] == 'c' and b[0] == 'c':
            return frel(bits2f(a[1]), bits2f(b[1])) in allowed
        if a[0] == 'c':
            a, b = b, a
            allowed = frozenset(FLIP[r] for r in allowed)
        if b[0] == 'c':
            base, chain = self.fdom(a)
            return self.fdecide(base, ('cmp', chain, bits2f(b[1]), allowed))
        (u, cu), (w, cw) = self.fdom(a), self.fdom(b)
        if u == w and cu != cw:
            return self.fdecide(u, ('rel', cu, cw, allowed))
        if b < a:
            a, b = b, a
            allowed = frozenset(FLIP[r] for r in allowed)
        cur = self.facts.frel.get((a, b), RELS if a != b else frozenset(('eq', 'un')))
        y, n = cur & allowed, cur - allowed
        if not n:
            return True
        if not y:
            return False
        r = self.choose(2) == 0
        self.facts.frel[(a, b)] = y if r else n
        self.note('%s %s %s' % (fstr(a), '/'.join(sorted(y if r else n)), fstr(b)))
        return r

    def fold(self, t):
        """Replaces float atoms known to be a constant."""
        if t[0] == 'c':
            return t
        base, chain = self.fdom(t)
        preds = self.facts.fl.get(base)
        return t

    # ---------------------------------------------------------- booleans
    def truth(self, v):
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, BF):
            if v.pos is not None:
                return bool(self.bf_val(v))
        if isinstance(v, SymB):
            return self.decide(v.t)
        if isinstance(v, Lin):
            return not self.decide_zero(v)
        if isinstance(v, Unk):
            raise PathEnd('unknown', 'branch on ' + v.why)
        raise PathEnd('unknown', 'branch on %r' % (v,))

    def decide(self, t):
        k = t[0]
        if k == 'not':
            return not self.decide(t[1])
        if k == 'and':
            return self.decide(t[1]) and self.decide(t[2])
        if k == 'or':
            return self.decide(t[1]) or self.decide(t[2])
        if k == 'xor':
            return self.decide(t[1]) != self.decide(t[2])
        if k == 'const':
            return t[1]
        if k == 'fcmp':
            return self.fcmp(t[1], t[2], t[3])
        if k == 'fpred':
            x = t[2]
            if x[0] == 'c':
                return fpred((t[1],), bits2f(x[1]))
            base, chain = self.fdom(x)
            return self.fdecide(base, (t[1], chain))
        if k == 'f2icmp':
            base, chain = self.fdom(t[2])
            return self.fdecide(base, ('f2i', chain, t[1], t[3], t[4], t[5]))
        if k == 'neg':
            return self.decide_neg(t[1])
        if k == 'zero':
            return self.decide_zero(t[1])
        if k == 'bf':
            return bool(self.bf_val(t[1]))
        if k == 'streq':
            return self.streq(t[1], t[2])
        if k == 'lazy':
            if t not in self.facts.bools:
                self.facts.bools[t] = bool(self.lazy[t[1]]())
            return self.facts.bools[t]
        h = self.opts.get('decide')
        if h:
            r = h(self, t)
            if r is not None:
                return r
        if t in self.facts.bools:
            return self.facts.bools[t]
        r = self.choose(2) == 0
        self.facts.bools[t] = r
        self.note('%s%s' % ('' if r else 'not ', tstr(t)))
        return r

    # ---------------------------------------------------------- strings
    def canon_str(self, s):
        parts = []
        for p in s.parts:
            l = self.facts.strlit.get(p)
            while l is not None:
                p, l = l, self.facts.strlit.get(l)
            parts.append(p)
        return mkstr(parts)

    def str_merged(self):
        """Closes the facts about opaque texts under an equality just learnt."""
        fa = self.facts
        for x, ls in list(fa.strneg.items()):
            c = self.canon_str(StrV((x,)))
            if c.lit() is not None:
                if c.lit() in ls:
                    raise PathEnd('infeasible')
            elif c.parts != (x,):
                fa.strneg.setdefault(c.parts[0], set()).update(ls)
        for t, r in list(fa.bools.items()):
            if t[0] != 'streq':
                continue
            a, b = self.canon_str(t[1]), self.canon_str(t[2])
            if (a, b) == (t[1], t[2]):
                continue
            la, lb = a.lit(), b.lit()
            if a == b or (la is not None and lb is not None):
                if r != (a == b):
                    raise PathEnd('infeasible')
                continue
            if la is not None:
                a, b, la, lb = b, a, lb, la
            if lb is not None and len(a.parts) == 1:
                if not r:
                    fa.strneg.setdefault(a.parts[0], set()).add(lb)
                continue
            fa.bools[('streq',) + tuple(sorted((a, b), key=lambda x: repr(x.parts)))] = r

    def streq(self, a, b):
        a, b = self.canon_str(a), self.canon_str(b)
        if a == b:
            return True
        la, lb = a.lit(), b.lit()
        if la is not None and lb is not None:
            return la == lb
        if la is not None:
            a, b, la, lb = b, a, lb, la
        if len(a.parts) == 1 and lb is not None:
            atom = a.parts[0]
            if lb in self.facts.strneg.get(atom, ()):
                return False
            h = self.opts.get('str_can')
            if h and not h(self, atom, lb):
                return False
            sym = ('n', ('len', a))
            if sym in self.facts.ints:
                lo, hi = self.bounds(Lin(((sym, 1),), 0))
                if not lo <= len(lb.encode()) <= hi:
                    return False
            r = self.choose(2) == 0
            self.note('%s %s %r' % (tstr(atom), '==' if r else '!=', lb))
            if r:
                self.facts.strlit[atom] = lb
                self.str_merged()
            else:
                self.facts.strneg.setdefault(atom, set()).add(lb)
            return r
        t = ('streq',) + tuple(sorted((a, b), key=lambda x: repr(x.parts)))
        if t in self.facts.bools:
            return self.facts.bools[t]
        r = self.choose(2) == 0
        self.facts.bools[t] = r
        self.note('%s %s %s' % (tstr(a), '==' if r else '!=', tstr(b)))
        if r and len(a.parts) == 1 and len(b.parts) == 1 and a.parts[0][0] == 's' and b.parts[0][0] == 's':
            self.facts.strlit[t[2].parts[0]] = t[1].parts[0]
            self.str_merged()
        return r

    def strless(self, a, b):
        """a < b, in the byte order of strings"""
        a, b = self.canon_str(a), self.canon_str(b)
        if self.streq(a, b):
            return False
        a, b = self.canon_str(a), self.canon_str(b)
        la, lb = a.lit(), b.lit()
        if la is not None and lb is not None:
            return la.encode() < lb.encode()
        if la == '' or lb == '':
            return la == ''
        less = {}
        lits = []
        for k, v in self.facts.bools.items():
            if k[0] == 'slt':
                x, y = (self.canon_str(x) for x in (k[1:] if v else (k[2], k[1])))
                less.setdefault(x, set()).add(y)
                lits += [z for z in (x, y) if z.lit() is not None]
        lits += [x for x in (a, b) if x.lit() is not None]
        lits = sorted(set(lits), key=lambda x: x.lit().encode())
        for x, y in zip(lits, lits[1:]):
            less.setdefault(x, set()).add(y)
        for x, y, r in ((a, b, True), (b, a, False)):
            seen, todo = set(), [x]
            while todo:
                for z in less.get(todo.pop(), ()):
                    if z not in seen:
                        seen.add(z)
                        todo.append(z)
            if y in seen:
                return r
        r = self.choose(2) == 0
        self.facts.bools[('slt', a, b)] = r
        self.note('%s %s %s' % (tstr(a), '<' if r else '>', tstr(b)))
        return r

    # ---------------------------------------------------------- opaque values
    def opq(self, term, tid):
        t = self.p.T[tid]
        k = t['k']
        if k == 'float':
            return F(('v', term))
        if k == 'bool':
            return SymB(('b', term))
        if k == 'int':
            s = ('n', term)
            if s not in self.facts.ints:
                w = t['bits']
                self.facts.ints[s] = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t['signed'] else (0, (1 << w) - 1)
            return Lin(((s, 1),), 0)
        if k in ('ref', 'ptr'):
            to = self.p.T[t['to']]
            if to['k'] == 'str':
                return StrV((('s', term),))
            if to['k'] == 'dyn':
                return DynV(FnOpq(term), None)
            if to['k'] == 'slice':
                return Ref(self.memo_cell(('*', term), lambda: SeqOpq(('*', term), to['elem'])))
            return Ref(self.memo_cell(('*', term), lambda: self.opq(('*', term), t['to'])))
        if k == 'str':
            return StrV((('s', term),))
        if k == 'fnptr':
            return FnOpq(term)
        if k == 'fndef':
            return FnV(t['fn'])
        if k in ('slice',):
            return SeqOpq(term, t['elem'])
        if k == 'array':
            return Seq(tuple(self.opq(('el', term, i), t['elem']) for i in range(t['len'])))
        if k == 'char':
            return Opq(term, tid)
        if k == 'adt':
            p = t['path']
            if t.get('box'):
                inner = t['args'][0]
                it = self.p.T[inner]
                if it['k'] == 'slice':
                    return BoxV(self.memo_cell(('box', term), lambda: SeqOpq(term, it['elem'])))
                return BoxV(self.memo_cell(('box', term), lambda: self.opq(term, inner)))
            if p == 'alloc::vec::Vec':
                return SeqOpq(term, t['args'][0])
            if p == 'alloc::string::String':
                return StrV((('s', term),))
            if p == 'std::collections::hash::map::HashMap':
                return MapV(term, (), t['args'][1])
            if p == 'std::collections::hash::set::HashSet':
                return SetV((('set', term),))
            if p.endswith('::Arc') or p.endswith('::Rc'):
                inner = t['args'][0]
                it = self.p.T[inner]
                if it['k'] == 'dyn':
                    return ArcV(self.memo_cell(('arc', term), lambda: FnOpq(term)), term)
                return ArcV(self.memo_cell(('arc', term), lambda: self.opq(('arc', term), inner)), term)
        return Opq(term, tid)

    def memo_cell(self, key, mk):
        c = self.memo.get(key)
        if c is None:
            c = self.memo[key] = Cell(mk())
        return c

    def opq_variants(self, o):
        t = self.p.T[o.ty]
        vs = self.facts.variants.get(o.term)
        if vs is None:
            vs = frozenset(range(len(t['variants']))) if t['k'] == 'adt' and t['adt'] == 'enum' else frozenset((0,))
            h = self.opts.get('variants')
            if h:
                vs = h(self, o, vs)
            self.facts.variants[o.term] = vs
        return vs

    def variant_of(self, v):
        """The variant of an enum value, forking if needed."""
        if isinstance(v, Adt):
            return v.var
        if isinstance(v, Opq):
            vs = sorted(self.opq_variants(v))
            if len(vs) == 1:
                return vs[0]
            k = vs[self.choose(len(vs))]
            self.facts.variants[v.term] = frozenset((k,))
            t = self.p.T[v.ty]
            self.note('%s is %s' % (tstr(v.term), t['variants'][k]['name']))
            h = self.opts.get('refined')
            if h:
                h(self, v, k)
            return k
        raise PathEnd('unknown', 'variant of %r' % (v,))

    def is_variant(self, v, k):
        """Decides whether v is of variant k with a two-way split."""
        if isinstance(v, Adt):
            return v.var == k
        vs = self.opq_variants(v)
        if k not in vs:
            return False
        if len(vs) == 1:
            return True
        if self.choose(2) == 0:
            self.facts.variants[v.term] = frozenset((k,))
            self.note('%s is %s' % (tstr(v.term), self.p.T[v.ty]['variants'][k]['name']))
            return True
        self.facts.variants[v.term] = vs - {k}
        return False

    def opq_field(self, o, variant, i):
        t = self.p.T[o.ty]
        if t['k'] == 'tuple':
            return self.opq(('f', o.term, 0, i), t['elems'][i])
        if t['k'] == 'closure':
            return self.opq(('f', o.term, 0, i), t['ups'][i])
        fs = t['variants'][variant]['fields']
        return self.opq(('f', o.term, variant, i), fs[i][1])

    def expand(self, v, variant=None):
        """An opaque value as a constructor of opaque fields."""
        if isinstance(v, Opq):
            t = self.p.T[v.ty]
            if variant is None:
                variant = self.variant_of(v) if t['k'] == 'adt' and t['adt'] == 'enum' else 0
            if t['k'] == 'adt':
                n = len(t['variants'][variant]['fields'])
            elif t['k'] == 'tuple':
                n = len(t['elems'])
            elif t['k'] == 'closure':
                n = len(t['ups'])
            else:
                raise PathEnd('unknown', 'expand %r' % (v,))
            return Adt(v.ty, variant, tuple(self.opq_field(v, variant, i) for i in range(n)))
        return v

    def seq_len(self, v, label=None):
        """The length of a sequence value; opaque ones get one."""
        if isinstance(v, Seq):
            return len(v.items)
        if isinstance(v, SeqOpq):
            return len(self.seq(v).items)
        raise PathEnd('unknown', 'length of %r' % (v,))

    def seq(self, v):
        if isinstance(v, Seq):
            return v
        if isinstance(v, SeqOpq):
            n = self.facts.lens.get(v.term)
            if n is None:
                h = self.opts.get('seq_lens')
                ls = h(self, v) if h else (0, 1, 2, 3)
                ls = list(ls)
                n = ls[self.choose(len(ls))]
                self.facts.lens[v.term] = n
                self.note('len(%s) = %d' % (tstr(v.term), n))
            return Seq(tuple(self.opq(('el', v.term, i), v.elem) for i in range(n)))
        raise PathEnd('unknown', 'sequence %r' % (v,))

    # ---------------------------------------------------------- memory
    def read_path(self, v, path):
        for st in path:
            v = self.step(v, st)
        return v

    def step(self, v, st):
        k = st[0]
        if k == 'f':
            if isinstance(v, Adt):
                if st[1] >= len(v.fs):
                    raise PathEnd('unknown', 'field %d of %r' % (st[1], v))
                return v.fs[st[1]]
            if isinstance(v, Opq):
                t = self.p.T[v.ty]
                var = 0
                if t['k'] == 'adt' and t['adt'] == 'enum':
                    if len(st) > 2 and st[2] is not None:
                        var = st[2]
                    else:
                        vs = self.opq_variants(v)
                        if len(vs) != 1:
                            raise PathEnd('unknown', 'field of unresolved enum %r' % (v,))
                        var = next(iter(vs))
                return self.opq_field(v, var, st[1])
            if isinstance(v, BoxV):
                return v
            if isinstance(v, Obj) and v.k == 'span':
                return v.d['off'] if st[1] == 0 else v.d['len']
            if isinstance(v, Unk):
                return v
            if isinstance(v, (Ref, StrV)):
                return v
            raise PathEnd('unknown', 'field %s of %r' % (st[1], v))
        if k == 'i':
            if isinstance(v, BytesV):
                return self.bytes_at(v, st[1])
            s = self.seq(v)
            if not isinstance(st[1], int) or not 0 <= st[1] < len(s.items):
                raise PathEnd('unknown', 'index %r' % (st[1],))
            return s.items[st[1]]
        raise PathEnd('unknown', 'step %r' % (st,))

    def write_path(self, v, path, nv):
        if not path:
            return nv
        st = path[0]
        if st[0] == 'f':
            if isinstance(v, Opq):
                v = self.expand(v, st[2] if len(st) > 2 else None)
            if isinstance(v, _Un):
                v = Adt(None, st[2] if len(st) > 2 and st[2] is not None else 0, ())
            if isinstance(v, Adt):
                fs = list(v.fs)
                while len(fs) <= st[1]:
                    fs.append(UNINIT)
                fs[st[1]] = self.write_path(fs[st[1]], path[1:], nv)
                return Adt(v.ty, v.var, tuple(fs))
            raise PathEnd('unknown', 'write field of %r' % (v,))
        if st[0] == 'i':
            s = self.seq(v)
            it = list(s.items)
            if not isinstance(st[1], int) or not 0 <= st[1] < len(it):
                raise PathEnd('unknown', 'write index %r' % (st[1],))
            it[st[1]] = self.write_path(it[st[1]], path[1:], nv)
            return Seq(tuple(it))
        raise PathEnd('unknown', 'write %r' % (st,))

    def load(self, ref):
        v = self.read_path(ref.cell.v, ref.path)
        if ref.sub is not None:
            s = self.seq(v)
            return Seq(s.items[ref.sub[0]:ref.sub[1]])
        return v

    def store(self, ref, nv):
        ref.cell.v = self.write_path(ref.cell.v, ref.path, nv)

    def bytes_at(self, b, i):
        return BF(lin_add(b.lo, i), IDENT)

    def place(self, fr, pl):
        """(cell, path, sub) of a place"""
        cell, path, sub = fr[pl[0]], (), None
        var = None
        for e in pl[1]:
            if e == '*':
                if cell.unsized is not None and not path:
                    continue
                v = self.read_path(cell.v, path)
                if isinstance(v, Ref):
                    cell, path, sub = v.cell, v.path, v.sub
                elif isinstance(v, BoxV):
                    cell, path, sub = v.cell, (), None
                elif isinstance(v, ArcV):
                    cell, path, sub = v.cell, (), None
                elif isinstance(v, (StrV, BytesV, DynV, FnV, FnOpq)):
                    cell, path, sub = Cell(v, unsized=v), (), None
                elif isinstance(v, Unk):
                    raise PathEnd('unknown', 'deref of ' + v.why)
                else:
                    raise PathEnd('unknown', 'deref of %r' % (v,))
                var = None
                continue
            k = e[0]
            if k == 'f':
                path = path + (('f', e[1], var),)
                var = None
            elif k == 'v':
                var = e[1]
            elif k == 'i':
                i = fr[e[1]].v
                if sub is not None:
                    iv = self.int_val(i)
                    i = iv + sub[0] if iv is not None else None
                    sub = None
                path = path + (('i', self.index(cell, path, i)),)
            elif k == 'c':
                off = e[1]
                if sub is not None:
                    off = (sub[1] - off) if e[3] else sub[0] + off
                    sub = None
                elif e[3]:
                    off = self.seq_len(self.read_path(cell.v, path)) - off
                path = path + (('i', off),)
            elif k == 's':
                n = self.seq_len(self.read_path(cell.v, path))
                lo, hi = (0, n) if sub is None else sub
                sub = (lo + e[1], (hi - e[2]) if e[3] else lo + e[2])
            elif k == 'oc':
                pass
            else:
                raise PathEnd('unknown', 'projection %r' % (e,))
        return cell, path, sub

    def index(self, cell, path, i):
        if isinstance(i, int):
            return i
        v = self.read_path(cell.v, path)
        if isinstance(v, BytesV):
            return i
        iv = self.int_val(i)
        if iv is not None:
            return iv
        if isinstance(i, Lin):
            # an index bounded by the length: enumerate
            n = self.seq_len(v)
            lo, hi = self.bounds(i)
            lo = 0 if lo is None else max(lo, 0)
            hi = n - 1 if hi is None else min(hi, n - 1)
            if hi - lo <= 600 and len(i.t) == 1 and i.t[0][1] == 1:
                k = lo + self.choose(hi - lo + 1)
                s = i.t[0][0]
                self.facts.ints[s] = (k - i.c, k - i.c)
                self.note('%s = %d' % (tstr(s), k - i.c))
                return k
        if isinstance(i, Obj) and i.k == 'f2i':
            n = self.seq_len(v)
            vals = self.f2i_values(i.d['t'], 0, n - 1)
            if vals is not None:
                k = vals[self.choose(len(vals))]
                base, chain = self.fdom(i.d['t'])
                self.facts.fl.setdefault(base, []).append((('int', chain, k), True))
                self.note('int(%s) = %d' % (fstr(base), k))
                return k
        raise PathEnd('unknown', 'index %r' % (i,))

    def f2i_values(self, t, lo, hi):
        base, chain = self.fdom(t)
        if hi - lo > 600:
            return None
        preds = self.facts.fl.get(base, [])
        out = []
        for k in range(lo, hi + 1):
            for x in (float(k), k + 0.5, math.nextafter(float(k + 1), 0)):
                for y in (x,):
                    if all(self.fholds(p, y) == tr for p, tr in preds) and int(self.apply(chain, y)) == k:
                        out.append(k)
                        break
                else:
                    continue
                break
        return out

    def read_place(self, fr, pl):
        if not pl[1]:
            v = fr[pl[0]].v
            if v is UNINIT:
                raise PathEnd('unknown', 'read of uninitialised local')
            return v
        cell, path, sub = self.place(fr, pl)
        v = self.read_path(cell.v, path)
        if sub is not None:
            return Seq(self.seq(v).items[sub[0]:sub[1]])
        return v

    def write_place(self, fr, pl, v):
        if not pl[1]:
            fr[pl[0]].v = v
            return
        cell, path, sub = self.place(fr, pl)
        cell.v = self.write_path(cell.v, path, v)

    def mkref(self, cell, path, sub):
        if cell.unsized is not None and not path:
            return cell.unsized
        if not path and sub is None:
            pass
        elif path:
            # text and byte views are values of their own
            pass
        return Ref(cell, path, sub)

    # ---------------------------------------------------------- constants
    def const(self, o):
        tid, v = o[1], o[2]
        if v == 'zst':
            return self.zst(tid)
        if v is None:
            return Unk('constant')
        if isinstance(v, int):
            return v
        key = id(o)
        c = self.memo.get(('k', key))
        if c is not None:
            return c
        hexs, ptrs = v
        r = self.decode(bytes.fromhex(hexs.replace('__', '00')), {p: a for p, a in ptrs}, 0, tid)
        self.memo[('k', key)] = r
        return r

    def zst(self, tid):
        t = self.p.T[tid]
        k = t['k']
        if k == 'fndef':
            return FnV(t['fn']) if t.get('fn') is not None else Obj('fndef', ty=tid)
        if k == 'closure':
            return Adt(tid, 0, tuple(self.zst(u) for u in t['ups']))
        if k == 'tuple':
            return Adt(tid, 0, tuple(self.zst(e) for e in t['elems']))
        if k == 'adt':
            if t['adt'] == 'struct':
                p = t['path']
                if p == 'alloc::vec::Vec':
                    return Seq(())
                return Adt(tid, 0, tuple(self.zst(f[1]) for f in t['variants'][0]['fields']))
            return Adt(tid, 0, ())
        if k == 'array':
            return Seq(())
        return Adt(tid, 0, ())

    def decode(self, b, ptrs, off, tid):
        t = self.p.T[tid]
        k = t['k']
        lay = t.get('layout') or {}
        if k == 'int':
            n = t['bits'] // 8
            return int.from_bytes(b[off:off + n], 'little', signed=t['signed'])
        if k in ('bool', 'char'):
            return int.from_bytes(b[off:off + lay['size']], 'little')
        if k == 'float':
            if t['bits'] == 64:
                return F(('c', int.from_bytes(b[off:off + 8], 'little')))
            return Unk('float width')
        if k in ('ref', 'ptr'):
            to = self.p.T[t['to']]
            a = ptrs.get(off)
            addr = int.from_bytes(b[off:off + 8], 'little')
            if to['k'] == 'str':
                n = int.from_bytes(b[off + 8:off + 16], 'little')
                if a is None:
                    return StrV(())
                m = bytes.fromhex(self.p.A[a]['body'][0])
                return mkstr([m[addr:addr + n].decode('utf-8', 'replace')])
            if to['k'] == 'slice':
                n = int.from_bytes(b[off + 8:off + 16], 'little')
                if a is None:
                    return Ref(Cell(Seq(())))
                al = self.p.A[a]
                m = bytes.fromhex(al['body'][0])
                ps = {p: q for p, q in al['body'][1]}
                st = self.p.T[to['elem']]['layout']['size']
                return Ref(self.memo_cell(('alloc', a, addr, n), lambda: Seq(
                    tuple(self.decode(m, ps, addr + i * st, to['elem']) for i in range(n)))))
            if to['k'] == 'dyn':
                return Unk('dyn constant')
            if a is None:
                return Ref(Cell(self.zst(t['to']))) if to.get('layout', {}).get('size') == 0 else Unk('pointer constant')
            al = self.p.A[a]
            if al['k'] == 'static':
                return Ref(self.memo_cell(('static', al['path']), lambda: Unk('static ' + al['path'])))
            if al['k'] == 'fn':
                return FnV(al['fn'])
            if al['k'] != 'mem':
                return Unk('pointer constant')
            m = bytes.fromhex(al['body'][0])
            ps = {p: q for p, q in al['body'][1]}
            return Ref(self.memo_cell(('alloc', a, addr, t['to']), lambda: self.decode(m, ps, addr, t['to'])))
        if k == 'fnptr':
            a = ptrs.get(off)
            if a is not None and self.p.A[a]['k'] == 'fn':
                return FnV(self.p.A[a]['fn'])
            return Unk('function constant')
        if k == 'tuple':
            return Adt(tid, 0, tuple(self.decode(b, ptrs, off + o, e) for o, e in zip(lay['fields'], t['elems'])))
        if k == 'closure':
            return Adt(tid, 0, tuple(self.decode(b, ptrs, off + o, e) for o, e in zip(lay['fields'], t['ups'])))
        if k == 'array':
            st = self.p.T[t['elem']]['layout']['size']
            return Seq(tuple(self.decode(b, ptrs, off + i * st, t['elem']) for i in range(t['len'])))
        if k == 'fndef':
            return self.zst(tid)
        if k == 'adt':
            if lay['size'] == 0:
                return self.zst(tid)
            vs = lay['variants']
            p = t['path']
            if p == 'alloc::vec::Vec':
                return Seq(())
            if p == 'alloc::string::String':
                return StrV(())
            if 'single' in vs:
                v = vs['single']
                if t['adt'] == 'enum' and not t['variants'][v]['fields']:
                    return Adt(tid, v, ())
                return Adt(tid, v, tuple(self.decode(b, ptrs, off + o, f[1]) for o, f in
                                         zip(lay['fields'], t['variants'][v]['fields'])))
            tg = int.from_bytes(b[off + vs['tagoff']:off + vs['tagoff'] + vs['tagsize']], 'little')
            enc = vs['enc']
            if enc == 'direct':
                v = next((i for i, x in enumerate(t['variants'])
                          if int(x['discr']) & ((1 << 8 * vs['tagsize']) - 1) == tg), None)
                if v is None:
                    return Unk('discriminant')
            else:
                isptr = (off + vs['tagoff']) in ptrs
                rel = (tg - enc['start']) & ((1 << (8 * vs['tagsize'])) - 1)
                v = enc['untagged'] if isptr or rel > enc['hi'] - enc['lo'] else enc['lo'] + rel
            return Adt(tid, v, tuple(self.decode(b, ptrs, off + o, f[1]) for o, f in
                                     zip(vs['offs'][v], t['variants'][v]['fields'])))
        return Unk('constant of type ' + t['name'])

    # ---------------------------------------------------------- operands
    def operand(self, fr, o):
        k = o[0]
        if k == 'p' or k == 'm':
            pl = o[1]
            if not pl[1]:
                v = fr[pl[0]].v
                if v is UNINIT:
                    raise PathEnd('unknown', 'read of uninitialised local')
                return v
            return self.read_place(fr, pl)
        if k == 'k':
            return self.const(o)
        if k == 'rc':
            return 0
        raise PathEnd('unknown', 'operand %r' % (o,))

    def optype(self, fn, o):
        """type id of an operand when it is cheap to know"""
        if o[0] == 'k':
            return o[1]
        pl = o[1]
        tid = fn['body']['locals'][pl[0]]
        var = 0
        for e in pl[1]:
            t = self.p.T[tid]
            if e == '*':
                if t['k'] in ('ref', 'ptr'):
                    tid = t['to']
                elif t['k'] == 'adt' and t.get('box'):
                    tid = t['args'][0]
                else:
                    return None
            elif e[0] == 'f':
                tid = e[2]
            elif e[0] in ('i', 'c'):
                if t['k'] not in ('slice', 'array'):
                    return None
                tid = t['elem']
            elif e[0] in ('v', 'oc'):
                pass
            else:
                return None
        return tid

    def wrap(self, v, tid):
        t = self.p.T[tid]
        if t['k'] == 'int':
            w = t['bits']
            v &= (1 << w) - 1
            if t['signed'] and v >> (w - 1):
                v -= 1 << w
        elif t['k'] == 'bool':
            v &= 1
        elif t['k'] == 'char':
            v &= 0xffffffff
        return v

    def fits(self, v, tid):
        t = self.p.T[tid]
        w = t['bits']
        if t['signed']:
            return -(1 << (w - 1)) <= v < 1 << (w - 1)
        return 0 <= v < 1 << w

    def cmpint(self, op, a, b):
        """Comparison of integers (concrete, linear or byte functions)."""
        if isinstance(a, bool):
            a = int(a)
        if isinstance(a, int) and isinstance(b, int):
            return int({'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op])
        if isinstance(a, BF) or isinstance(b, BF):
            r = self.bfbin(lambda x, y: self.cmpint(op, x, y), a, b, op)
            if r is not None:
                return r
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            d = lin_add(a, b, -1)
            if isinstance(d, int):
                return self.cmpint(op, d, 0)
            if op == 'Eq':
                return SymB(('zero', d))
            if op == 'Ne':
                return SymB(('not', ('zero', d)))
            if op == 'Lt':
                return SymB(('neg', d))
            if op == 'Ge':
                return SymB(('not', ('neg', d)))
            m = lin_mul(d, -1)
            if op == 'Gt':
                return SymB(('neg', m))
            if op == 'Le':
                return SymB(('not', ('neg', m)))
        if isinstance(a, Obj) and a.k == 'f2i' and isinstance(b, int):
            t = self.p.T[a.d['ty']]
            w = t['bits']
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t['signed'] else (0, (1 << w) - 1)
            return SymB(('f2icmp', op, a.d['t'], b, lo, hi))
        if isinstance(b, Obj) and b.k == 'f2i' and isinstance(a, int):
            return self.cmpint({'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op), b, a)
        return None

    def bfbin(self, f, a, b, key=None):
        pa = a.pos if isinstance(a, BF) else None
        pb = b.pos if isinstance(b, BF) else None
        if pa is not None and pb is not None and pa != pb:
            a = self.bf_val(a)
            return self.bfbin(f, a, b, key)
        pos = pa if pa is not None else pb
        cl = self.cls(pos)
        if key is not None:
            key = (key, a.tab if isinstance(a, BF) else a, b.tab if isinstance(b, BF) else b, cl)
            r = BFMEMO.get(key, key)
            if r is not key:
                return BF(pos, r) if isinstance(r, tuple) else r
            r = self.bfbin(f, a, b)
            BFMEMO[key] = r.tab if isinstance(r, BF) else r
            return r
        tab = []
        for i in range(256):
            if i not in cl:
                tab.append(0)
                continue
            x = a.tab[i] if isinstance(a, BF) else a
            y = b.tab[i] if isinstance(b, BF) else b
            if not isinstance(x, int) or not isinstance(y, int):
                return None
            tab.append(f(x, y))
        vals = {tab[i] for i in cl if i != EOF}
        if len(vals) == 1:
            return next(iter(vals))
        return BF(pos, tuple(tab))

    def binop(self, op, a, b, tid, checked=False):
        t = self.p.T[tid]
        if isinstance(a, Unk):
            return a
        if isinstance(b, Unk):
            return b
        if t['k'] == 'float':
            return self.fbin(op, a, b)
        if isinstance(a, Obj) and a.k == 'disc':
            a = self.discr_force(a)
        if isinstance(b, Obj) and b.k == 'disc':
            b = self.discr_force(b)
        base = op.replace('Unchecked', '')
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if t['k'] == 'bool' and (isinstance(a, SymB) or isinstance(b, SymB)):
                a, b = int(self.truth(a)), int(self.truth(b))
            if isinstance(a, (FnV, FnOpq, Ref, CloPtr)) or isinstance(b, (FnV, FnOpq, Ref, CloPtr)):
                r = self.ptreq(a, b)
                return r if base == 'Eq' else self.bnot(r)
            if t['k'] == 'char' and (isinstance(a, Opq) or isinstance(b, Opq)):
                if base in ('Eq', 'Ne'):
                    r = self.opqeq(a, b)
                    return r if base == 'Eq' else self.bnot(r)
                return SymB(('ccmp', base, vkey(a), vkey(b)))
            r = self.cmpint(base, a, b)
            if r is None:
                return Unk('%s of %r, %r' % (op, a, b))
            return r
        if t['k'] == 'bool':
            return self.boolbin(base, a, b)
        if base == 'Cmp':
            return Unk('three-way comparison')
        if base == 'Offset':
            if isinstance(a, Ref) and isinstance(b, int):
                return Obj('ptroff', ref=a, off=b)
            return Unk('pointer offset')
        if isinstance(a, int) and isinstance(b, int):
            return self.intbin(base, a, b, tid)
        if isinstance(a, BF) or isinstance(b, BF):
            r = self.bfbin(lambda x, y: self.intbin(base, x, y, tid), a, b, (base, tid))
            if r is not None:
                return r
            if isinstance(a, BF):
                a = self.bf_val(a)
            if isinstance(b, BF):
                b = self.bf_val(b)
            return self.binop(op, a, b, tid)
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            if base == 'Add':
                return lin_add(a, b)
            if base == 'Sub':
                return lin_add(a, b, -1)
            if base == 'Mul':
                if isinstance(a, int):
                    return lin_mul(b, a)
                if isinstance(b, int):
                    return lin_mul(a, b)
        return Unk('%s of %r, %r' % (op, a, b))

    def intbin(self, base, a, b, tid):
        t = self.p.T[tid]
        if base == 'Add':
            r = a + b
        elif base == 'Sub':
            r = a - b
        elif base == 'Mul':
            r = a * b
        elif base == 'Div':
            if b == 0:
                return 0
            r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        elif base == 'Rem':
            if b == 0:
                return 0
            r = abs(a) % abs(b) * (1 if a >= 0 else -1)
        elif base == 'BitAnd':
            r = a & b
        elif base == 'BitOr':
            r = a | b
        elif base == 'BitXor':
            r = a ^ b
        elif base == 'Shl':
            r = a << (b % t.get('bits', 64))
        elif base == 'Shr':
            r = a >> (b % t.get('bits', 64))
        else:
            raise PathEnd('unknown', 'operation ' + base)
        return self.wrap(r, tid)

    def boolbin(self, base, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[base]
        if isinstance(a, BF) or isinstance(b, BF):
            if isinstance(a, (BF, int)) and isinstance(b, (BF, int)):
                r = self.bfbin(lambda x, y: {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[base], a, b)
                if r is not None:
                    return r

        def tm(x):
            if isinstance(x, SymB):
                return x.t
            if isinstance(x, BF):
                return ('bf', x)
            if isinstance(x, int):
                return ('const', bool(x))
            raise PathEnd('unknown', 'boolean operation on %r' % (x,))
        return SymB(({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[base], tm(a), tm(b)))

    def bnot(self, v):
        if isinstance(v, int):
            return 1 - (v & 1)
        if isinstance(v, SymB):
            return SymB(v.t[1] if v.t[0] == 'not' else ('not', v.t))
        if isinstance(v, BF):
            return BF(v.pos, tuple(1 - (x & 1) for x in v.tab))
        if isinstance(v, Unk):
            return v
        raise PathEnd('unknown', 'not of %r' % (v,))

    def ptreq(self, a, b):
        if isinstance(a, FnV) and isinstance(b, FnV):
            return int(a.fid == b.fid)
        ka, kb = vkey(a), vkey(b)
        if ka == kb:
            return 1
        return SymB(('ptreq',) + tuple(sorted((ka, kb), key=repr)))

    def opqeq(self, a, b):
        ka, kb = vkey(a), vkey(b)
        if ka == kb:
            return 1
        return SymB(('veq',) + tuple(sorted((ka, kb), key=repr)))

    def fbin(self, op, a, b):
        if not isinstance(a, F) or not isinstance(b, F):
            return Unk('float operation')
        x, y = a.t, b.t
        if op in CMP:
            if x[0] == 'c' and y[0] == 'c':
                return int(frel(bits2f(x[1]), bits2f(y[1])) in CMP[op])
            return SymB(('fcmp', op, x, y))
        n = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem'}.get(op)
        if n is None:
            return Unk('float ' + op)
        return F(fterm(n, x, y))

    # ---------------------------------------------------------- rvalues
    def rvalue(self, fn, fr, r, tid):
        k = r[0]
        if k == 'use':
            return self.operand(fr, r[1])
        if k == 'ref' or k == 'addr':
            pl = r[2] if k == 'ref' else r[1]
            if isinstance(pl, bool) or isinstance(pl, int):
                pl = r[2]
            cell, path, sub = self.place(fr, pl)
            if cell.unsized is not None and not path:
                return cell.unsized
            return Ref(cell, path, sub)
        if k == 'bin' or k == 'cbin':
            a, b = self.operand(fr, r[2]), self.operand(fr, r[3])
            ot = self.optype(fn, r[2])
            if ot is None:
                ot = self.optype(fn, r[3])
            op = r[1]
            if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
                k, op = 'cbin', op[:3]
            if k == 'cbin':
                return self.checked(op, a, b, ot, tid)
            if op == 'Cmp' and not isinstance(a, Unk) and not isinstance(b, Unk):
                for i, o in enumerate(('Lt', 'Eq')):
                    c = self.binop(o, a, b, ot)
                    if isinstance(c, Unk):
                        return c
                    if self.truth(c):
                        return Adt(tid, i, ())
                return Adt(tid, 2, ())
            return self.binop(op, a, b, ot)
        if k == 'un':
            v = self.operand(fr, r[2])
            op = r[1]
            if isinstance(v, Unk):
                return v
            ot = self.optype(fn, r[2])
            if op == 'Not':
                if self.p.T[ot]['k'] == 'bool':
                    return self.bnot(v)
                if isinstance(v, int):
                    return self.wrap(~v, ot)
                if isinstance(v, BF):
                    return BF(v.pos, tuple(self.wrap(~x, ot) for x in v.tab))
                return Unk('bit not')
            if op == 'Neg':
                if isinstance(v, F):
                    return F(fterm('neg', v.t))
                if isinstance(v, int):
                    return self.wrap(-v, ot)
                if isinstance(v, Lin):
                    return lin_mul(v, -1)
                return Unk('negation')
            if op == 'PtrMetadata':
                if isinstance(v, BytesV):
                    return self.bytes_len(v)
                if isinstance(v, StrV):
                    return self.str_len(v)
                if isinstance(v, Ref):
                    if v.sub is not None:
                        return v.sub[1] - v.sub[0]
                    return self.seq_len(self.load(v))
                return Unk('metadata of %r' % (v,))
            return Unk('unary ' + op)
        if k == 'cast':
            return self.cast(fn, fr, r, tid)
        if k == 'disc':
            d = self.discr(self.read_place(fr, r[1]))
            return self.wrap(d, tid) if isinstance(d, int) else d
        if k == 'len':
            v = self.read_place(fr, r[1])
            if isinstance(v, BytesV):
                return self.bytes_len(v)
            return self.seq_len(v)
        if k == 'agg':
            ops = tuple(self.operand(fr, o) for o in r[4])
            kind = r[1]
            if kind in ('array',):
                return Seq(ops)
            if kind == 'rawptr':
                return ops[0]
            t = self.p.T[r[2]] if r[2] is not None else None
            if t is not None and t['k'] == 'adt' and t['adt'] == 'union':
                return ops[0]
            return Adt(r[2] if r[2] is not None else tid, r[3] or 0, ops)
        if k == 'rep':
            v = self.operand(fr, r[1])
            n = r[2] if isinstance(r[2], int) else self.p.T[tid].get('len')
            if not isinstance(n, int):
                return Unk('repeat')
            return Seq((v,) * n)
        if k == 'cfd':
            return self.read_place(fr, r[1])
        raise PathEnd('unknown', 'rvalue %s' % k)

    def discr(self, v):
        if isinstance(v, Unk):
            raise PathEnd('unknown', 'discriminant of ' + v.why)
        if isinstance(v, Opq):
            if v.ty in self.opts.get('group_tys', ()) and len(self.opq_variants(v)) > 1:
                return Obj('disc', of=v)
            var = self.variant_of(v)
            t = self.p.T[v.ty]
            return int(t['variants'][var]['discr'])
        if isinstance(v, Adt):
            t = self.p.T[v.ty]
            if t['k'] != 'adt':
                return 0
            return int(t['variants'][v.var]['discr'])
        if isinstance(v, Obj) and v.k == 'lazyenum':
            return self.discr(v.d['force']())
        raise PathEnd('unknown', 'discriminant of %r' % (v,))

    def discr_force(self, d):
        o = d.d['of']
        return int(self.p.T[o.ty]['variants'][self.variant_of(o)]['discr'])

    def checked(self, op, a, b, ot, tid):
        t = self.p.T[ot]
        r = self.binop_raw(op, a, b, ot)
        if isinstance(r, Unk):
            return Adt(tid, 0, (r, Unk(r.why)))
        if isinstance(r, int):
            return Adt(tid, 0, (self.wrap(r, ot), int(not self.fits(r, ot))))
        if isinstance(r, BF):
            cl = self.cls(r.pos)
            ov = tuple(int(i in cl and not self.fits(x, ot)) for i, x in enumerate(r.tab))
            o = BF(r.pos, ov) if any(ov) else 0
            return Adt(tid, 0, (BF(r.pos, tuple(self.wrap(x, ot) for x in r.tab)), o))
        # linear: overflow conditions
        w = t['bits']
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t['signed'] else (0, (1 << w) - 1)
        l, h = self.bounds(r)
        under = None
        if l is None or l < lo:
            under = ('neg', lin_add(r, -lo))
        over = None
        if h is not None and h > hi:
            over = ('neg', lin_add(hi, r, -1))
        elif h is None and w < 64:
            over = ('neg', lin_add(hi, r, -1))
        # positions and lengths never reach the range of usize
        if under and over:
            c = SymB(('or', under, over))
        elif under:
            c = SymB(under)
        elif over:
            c = SymB(over)
        else:
            c = 0
        return Adt(tid, 0, (r, c))

    def binop_raw(self, op, a, b, ot):
        if isinstance(a, int) and isinstance(b, int):
            return a + b if op == 'Add' else a - b if op == 'Sub' else a * b
        if isinstance(a, BF) or isinstance(b, BF):
            if isinstance(a, (BF, int)) and isinstance(b, (BF, int)):
                f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y}[op]
                r = self.bfbin(f, a, b)
                if r is not None:
                    return r
            if isinstance(a, BF):
                a = self.bf_val(a)
            if isinstance(b, BF):
                b = self.bf_val(b)
            return self.binop_raw(op, a, b, ot)
        return self.binop(op, a, b, ot)

    def cast(self, fn, fr, r, tid):
        kind, v = r[1], self.operand(fr, r[2])
        if isinstance(v, Unk):
            return v
        to = self.p.T[tid]
        ft = self.optype(fn, r[2])
        frm = self.p.T[ft] if ft is not None else None
        if kind.startswith('Coerce'):
            if 'Unsize' in kind:
                dt = to
                inner = self.p.T[to['to']] if to['k'] in ('ref', 'ptr') else \
                    self.p.T[to['args'][0]] if to['k'] == 'adt' and to['args'] and isinstance(to['args'][0], int) else None
                if inner is not None and inner['k'] == 'dyn':
                    st = None
                    if frm is not None:
                        st = frm['to'] if frm['k'] in ('ref', 'ptr') else frm['args'][0]
                    if isinstance(v, DynV):
                        return v
                    if isinstance(v, BoxV):
                        return BoxV(Cell(Obj('dynbox', v=v, ty=st)))
                    if isinstance(v, ArcV):
                        return ArcV(Cell(DynV(Ref(v.cell), st)), v.id)
                    return DynV(v, st)
                return v
            if 'Closure' in kind:
                return CloPtr(v)
            return v
        if kind in ('IntToInt',):
            if isinstance(v, int):
                return self.wrap(v, tid)
            if isinstance(v, BF):
                return BF(v.pos, tuple(self.wrap(x, tid) for x in v.tab))
            if isinstance(v, SymB):
                if to['k'] == 'int':
                    return int(self.truth(v))
                return v
            if isinstance(v, Lin):
                if to['k'] == 'int':
                    lo, hi = self.bounds(v)
                    w = to['bits']
                    l2, h2 = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if to['signed'] else (0, (1 << w) - 1)
                    if w >= 64 or (lo is not None and lo >= l2 and hi is not None and hi <= h2):
                        return v
                    if not self.decide_neg(lin_add(h2, v, -1)) and not self.decide_neg(lin_add(v, -l2)):
                        return v
                return Unk('narrowing of %r' % (v,))
            if isinstance(v, (Adt, Opq)):
                return self.wrap(self.discr(v), tid)
            if isinstance(v, Obj) and v.k == 'f2i':
                old = self.p.T[v.d['ty']]
                if old['bits'] - bool(old['signed']) > to['bits'] - bool(to['signed']) or old['signed'] and not to['signed']:
                    return Unk('narrowing of %r' % (v,))
                return v
        if kind == 'IntToFloat':
            if isinstance(v, int):
                return fconst(float(v))
            if isinstance(v, BF):
                return fconst(float(self.bf_val(v)))
            return F(('i2f', vkey(v)))
        if kind == 'FloatToInt':
            if isinstance(v, F):
                if v.t[0] == 'c':
                    x = bits2f(v.t[1])
                    t = to
                    lo, hi = (-(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1) if t['signed'] else (0, (1 << t['bits']) - 1)
                    if x != x:
                        return 0
                    return max(lo, min(hi, int(x) if abs(x) != math.inf else (hi if x > 0 else lo)))
                return Obj('f2i', t=v.t, ty=tid)
        if kind == 'FloatToFloat':
            if frm and to['bits'] == frm['bits']:
                return v
            return F(('fn', 'as_f%d' % to['bits'], v.t))
        if kind.startswith('Ptr') or kind.startswith('FnPtr'):
            return v
        if 'Transmute' in kind or kind.startswith('Subtype'):
            if isinstance(v, BoxV) and to['k'] in ('ptr', 'ref'):
                c = v.cell
                if isinstance(c.v, Obj) and c.v.k == 'dynbox':
                    return DynV(Ref(c.v.d['v'].cell), c.v.d['ty'])
                return Ref(c)
            if to['k'] == 'adt' and to.get('box') and isinstance(v, Ref):
                return BoxV(v.cell)
            if frm is not None and frm['k'] == to['k']:
                return v
            if to['k'] == 'char' and isinstance(v, (int, BF)):
                return v
            if to['k'] in ('ptr', 'ref'):
                return v
            if to['k'] == 'float' and isinstance(v, int):
                return F(('c', v)) if to['bits'] == 64 else Unk('transmute')
            if to['k'] == 'int' and frm is not None and frm['k'] == 'float' and isinstance(v, F) and v.t[0] == 'c':
                return v.t[1]
            if to['k'] == 'adt' and isinstance(v, (BytesV, StrV)):
                return v
            return Unk('transmute to ' + to['name'])
        raise PathEnd('unknown', 'cast %s of %r' % (kind, v))

    def bytes_len(self, b):
        if b.hi is not None:
            return lin_add(b.hi, b.lo, -1)
        return lin_add(Lin((('LEN', 1),), 0), b.lo, -1)

    def is_name(self, p):
        """Whether a piece of text is the name of a variable of an expression."""
        t = getattr(self, 'tree', None)
        return (t is not None and isinstance(p, tuple) and len(p) == 2 and p[0] == 's' and isinstance(p[1], tuple)
                and len(p[1]) == 4 and p[1][0] == 'f' and p[1][2] == t.V['var'] and p[1][3] == 0)

    def str_len(self, s):
        l = s.lit()
        if l is not None:
            return len(l.encode())
        if len(s.parts) == 1:
            p = s.parts[0]
            if p[0] == 'slice':
                return self.bytes_len(BytesV(p[1], p[2], p[3]))
            if p == ('s', 'input'):
                return Lin((('LEN', 1),), 0)
        sym = ('n', ('len', s))
        self.facts.ints.setdefault(sym, (int(len(s.parts) == 1 and self.is_name(s.parts[0])), (1 << 63) - 1))
        return Lin(((sym, 1),), 0)

    # ---------------------------------------------------------- running
    def call(self, fid, args, destty=None, line=None):
        f = self.p.F[fid]
        h = self.hooks.get(fid)
        if h is not None:
            r = h(self, f, args)
            if r is not NotImplemented:
                return r
        if self.recur_hook is not None and f['body']:
            r = self.recur_hook(self, f, args)
            if r is not NotImplemented:
                return r
        if f['body']:
            m = self.models.override(f)
            if m is not None:
                r = m(self, f, args)
                if r is not NotImplemented:
                    if f['unsafe'] and self.stack and self.stack[-1][0]['krate'] == self.p.crate:
                        self.contract(f)
                    return r
            return self.run(f, args)
        r = self.models.call(self, f, args, destty)
        if f['unsafe'] and self.stack and self.stack[-1][0]['krate'] == self.p.crate:
            self.contract(f)
        return r

    def contract(self, f):
        """A call of a function with a safety contract came back."""
        g = self.stack[-1][0]['path']
        n = f['path'].rsplit('::', 1)[1]
        if n in CONTRACT:
            LEDGER[0].safe.add('%s: the contract of %s holds' % (g, f['path']))
        elif f['foreign'] and all(self.p.T[x]['k'] == 'float' for x in f['sig']):
            LEDGER[0].safe.add('%s: %s takes and returns plain numbers' % (g, f['path']))
        elif 'fmt::' not in f['path']:
            LEDGER[0].unchecked.add((g, f['path']))

    def state(self, f, fr, bb):
        """Everything the rest of a loop depends on, or None."""
        st = self.snapshot([(l, fr[l].v) for l in sorted(live_in(f['body'])[bb])])
        return None if st is None else (st, self.nchoices, self.fresh_n)

    def snapshot(self, vals):
        """Values with everything reachable from them, in a form that can be compared; None if that is not known."""
        seen, out, todo = {}, [], []

        def cell(c):
            if id(c) not in seen:
                seen[id(c)] = len(seen)
                todo.append(c)
            return ('cell', seen[id(c)])

        def go(v, depth=0):
            if depth > 40:
                raise NoState()
            if isinstance(v, Ref):
                return ('ref', cell(v.cell), v.path, v.sub)
            if isinstance(v, BoxV):
                return ('box', cell(v.cell))
            if isinstance(v, Cell):
                return cell(v)
            if isinstance(v, Adt):
                return ('adt', v.ty, v.var) + tuple(go(x, depth + 1) for x in v.fs)
            if isinstance(v, Seq):
                return ('seq',) + tuple(go(x, depth + 1) for x in v.items)
            if isinstance(v, (int, float, Lin, BF, F, StrV, SymB, str, bool, FnV, FnOpq, Opq, SeqOpq, BytesV, SetV, MapV,
                              ArcV, DynV, CloPtr, _Un)) or v is None:
                if isinstance(v, DynV):
                    return ('dyn', go(v.ptr, depth + 1))
                if isinstance(v, CloPtr):
                    return ('clo', go(v.clo, depth + 1))
                return vkey(v)
            if isinstance(v, (tuple, list)):
                return tuple(go(x, depth + 1) for x in v)
            if isinstance(v, dict):
                return tuple((repr(k), go(x, depth + 1)) for k, x in sorted(v.items(), key=lambda kv: repr(kv[0])))
            if isinstance(v, Obj):
                return ('obj', v.k, go(v.d, depth + 1))
            if callable(v) and not hasattr(v, '__dict__') or type(v).__name__ in ('function', 'method', 'builtin_function_or_method'):
                return ('py', id(v))
            if type(v).__module__ == 'models' and hasattr(v, '__dict__'):
                return (type(v).__name__, go(v.__dict__, depth + 1))
            raise NoState()
        try:
            for l, v in vals:
                out.append((l, go(v)))
            i = 0
            while i < len(todo):
                out.append((i, go(todo[i].v)))
                i += 1
        except NoState:
            return None
        return tuple(out)

    def again(self, f, args):
        """A recursive function is entered: with the arguments of a call that is still going on, it never ends."""
        n = len(self.stack)
        while self.entries and (self.entries[-1][0] >= n or self.stack[self.entries[-1][0]][0] is not self.entries[-1][1]):
            self.entries.pop()
        key = self.snapshot(list(enumerate(args)))
        k = 0
        for _, g, x in self.entries:
            if g is f:
                k += 1
                if x is not None and x == key:
                    raise PathEnd('hang', 'it calls itself again with the same arguments')
        if k > 12:
            raise PathEnd('unknown', 'depth of the recursion of ' + f['path'])
        self.entries.append((n, f, key))

    def run(self, f, args):
        b = f['body']
        if len(self.stack) > 120:
            raise PathEnd('unknown', 'call depth')
        n = len(b['locals'])
        fr = [Cell(UNINIT) for _ in range(n)]
        if b.get('spread') is not None and b['spread']:
            # the last argument is passed as a tuple and spread
            sp = b['spread']
            if len(args) != b['argc']:
                args = list(args[:sp - 1]) + [Adt(b['locals'][sp], 0, tuple(args[sp - 1:]))]
        if len(args) != b['argc']:
            # closures called through Fn traits: (env, tuple)
            if len(args) == 2 and isinstance(args[1], Adt) and len(args[1].fs) == b['argc'] - 1:
                args = [args[0]] + list(args[1].fs)
            else:
                raise PathEnd('unknown', 'argument count of ' + f['path'])
        elif len(args) == 2 and isinstance(args[1], Adt) and len(args[1].fs) == 1 and args[1].ty is not None \
                and args[1].ty != b['locals'][2] and self.p.T[args[1].ty]['k'] == 'tuple' and '{closure#' in f['path']:
            args = [args[0], args[1].fs[0]]
        for i, a in enumerate(args):
            fr[i + 1].v = a
        if self.loop_hook is None and f['krate'] == self.p.crate and self.p.recursive(f['id']):
            self.again(f, args)
        self.stack.append((f, None))
        self.frames.append(fr)
        self.bbs.append(0)
        if self.covered is not None:
            self.covered.add(f['id'])
        visits, states = {}, {}
        blocks = b['blocks']
        locs = b['locals']
        bb = 0
        while True:
            c = visits.get(bb, 0) + 1
            visits[bb] = c
            self.bbs[-1] = bb
            if self.loop_hook is not None and bb in loop_heads(b):
                self.loop_hook(self, f, fr, bb, c)
            elif self.loop_hook is None and bb in loop_heads(b):
                LEDGER[0].loops.add((f['path'], bb))
                if c > 1:
                    st = self.state(f, fr, bb)
                    if st is not None and states.get(bb) == st:
                        raise PathEnd('hang', 'a loop comes round to the same state and never ends')
                    states[bb] = st
            if c > self.loopmax:
                raise PathEnd('unknown', 'loop bound in ' + f['path'])
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise PathEnd('unknown', 'step bound in ' + f['path'])
            blk = blocks[bb]
            for s in blk['s']:
                k = s[0]
                if k == '=':
                    pl, rv, tid, line = s[1], s[2], s[3], s[4] if len(s) > 4 else None
                    self.stack[-1] = (f, line)
                    v = self.rvalue(f, fr, rv, tid)
                    if not pl[1]:
                        fr[pl[0]].v = v
                    else:
                        self.write_place(fr, pl, v)
                elif k == 'sd':
                    v = self.read_place(fr, s[1])
                    if isinstance(v, Adt):
                        self.write_place(fr, s[1], Adt(v.ty, s[2], v.fs))
                    else:
                        raise PathEnd('unknown', 'set discriminant')
                elif k == 'assume':
                    pass
                else:
                    raise PathEnd('unknown', 'statement ' + k)
            t = blk['t']
            k = t[0]
            if k == 'goto':
                bb = t[1]
            elif k == 'switch':
                bb = self.switch(f, fr, t)
            elif k == 'call':
                self.stack[-1] = (f, t[7])
                args = [self.operand(fr, o) for o in t[3]]
                if t[2] is not None:
                    r = self.call(t[2], args, t[8])
                else:
                    fv = self.operand(fr, t[1])
                    r = self.call_value(fv, args)
                tgt = t[5]
                if tgt is None:
                    raise PathEnd('panic', 'diverging call in ' + f['path'])
                self.write_place(fr, t[4], r)
                bb = tgt
            elif k == 'assert':
                self.stack[-1] = (f, t[7])
                v = self.operand(fr, t[1])
                if isinstance(v, Unk):
                    raise PathEnd('unknown', 'assertion on ' + v.why)
                if self.truth(v) != bool(t[2]):
                    raise PathEnd('panic', '%s' % (t[3],))
                bb = t[5]
            elif k == 'drop':
                bb = t[2]
            elif k == 'ret':
                self.stack.pop()
                self.frames.pop()
                self.bbs.pop()
                return fr[0].v
            elif k == 'unreach':
                raise PathEnd('infeasible', 'unreachable')
            else:
                raise PathEnd('unknown', 'terminator ' + k)

    def switch(self, f, fr, t):
        v = self.operand(fr, t[1])
        if isinstance(v, bool):
            v = int(v)
        targets = t[2]
        if isinstance(v, Unk):
            raise PathEnd('unknown', 'branch on ' + v.why)
        if isinstance(v, SymB):
            v = int(self.decide(v.t))
        if isinstance(v, Obj) and v.k == 'disc':
            o = v.d['of']
            vts = self.p.T[o.ty]['variants']
            tg = {int(a): b for a, b in targets}
            g = {}
            for k in sorted(self.opq_variants(o)):
                g.setdefault(tg.get(int(vts[k]['discr']), t[3]), []).append(k)
            gs = sorted(g.items())
            bb, ks = gs[self.choose(len(gs))]
            if len(gs) > 1:
                self.facts.variants[o.term] = frozenset(ks)
                self.note('%s is %s' % (tstr(o.term), '/'.join(vts[k]['name'] for k in ks)))
                h = self.opts.get('refined')
                if h:
                    h(self, o, ks)
            return bb
        if isinstance(v, BF):
            if self.opts.get('regions') and not v.pos is None:
                return self.region(f, fr, t, v)
            c = self.cls(v.pos)
            key = (id(t), v.tab, c)
            gs = SWMEMO.get(key)
            if gs is None:
                g = {}
                tg = {int(a): b for a, b in targets}
                for x in c:
                    if x != EOF:
                        g.setdefault(self.target(tg, v.tab[x], t[3]), set()).add(x)
                gs = SWMEMO[key] = [(k, frozenset(s)) for k, s in sorted(g.items())]
            if not gs:
                raise PathEnd('infeasible')
            return self.split_groups(v.pos, gs)
        if isinstance(v, Lin):
            for a, b in targets:
                if self.decide_zero(lin_add(v, -int(a))):
                    return b
            return t[3]
        if isinstance(v, Opq):
            # a character: compare with each constant
            for a, b in targets:
                if self.truth(self.opqeq(v, int(a))):
                    return b
            return t[3]
        if not isinstance(v, int):
            raise PathEnd('unknown', 'branch on %r' % (v,))
        return self.target({int(a): b for a, b in targets}, v, t[3])

    @staticmethod
    def target(tg, v, default):
        """Where a switch goes on v: its values are written as the unsigned bits."""
        if v >= 0:
            return tg.get(v, default)
        for w in (8, 16, 32, 64, 128):
            b = tg.get(v & ((1 << w) - 1))
            if b is not None and v >= -1 << (w - 1):
                return b
        return default

    def region(self, f, fr, t, v):
        """Branches on one input byte are followed for all its values at once, up to the blocks that do more than
        compare it; values that meet again in one block are not told apart."""
        pos, body = v.pos, f['body']
        c0 = self.cls(pos)
        heads, live = loop_heads(body), live_in(body)
        exits = {}
        budget = [300]

        def groups(t, v, c):
            if not isinstance(v, BF):
                for a, b in t[2]:
                    if int(a) == v:
                        return [(b, c)]
                return [(t[3], c)]
            key = (id(t), v.tab, c)
            gs = SWMEMO.get(key)
            if gs is None:
                g = {}
                tg = {int(a): b for a, b in t[2]}
                for x in c:
                    if x != EOF:
                        g.setdefault(self.target(tg, v.tab[x], t[3]), set()).add(x)
                gs = SWMEMO[key] = [(k, frozenset(s)) for k, s in sorted(g.items())]
            return gs

        def walk(bb, c, env):
            while True:
                budget[0] -= 1
                nxt = None
                if bb not in heads and budget[0] > 0:
                    nxt = step(bb, c, env)
                if nxt is None:
                    exits.setdefault(bb, []).append((c, env))
                    return
                gs, env = nxt
                if len(gs) == 1:
                    bb = gs[0][0]
                    continue
                for b, s in gs:
                    walk(b, s, env)
                return

        def step(bb, c, env):
            blk = body['blocks'][bb]
            t = blk['t']
            if t[0] not in ('goto', 'switch'):
                return None
            env = dict(env)
            fr2 = fr
            if env:
                fr2 = list(fr)
                for l, x in env.items():
                    fr2[l] = Cell(x)
            self.facts.bytes[pos] = c
            for s in blk['s']:
                if s[0] != '=' or s[1][1]:
                    return None
                x = self.pure(f, fr, fr2, env, s[2], s[3], pos)
                if x is None:
                    return None
                if fr2 is fr:
                    fr2 = list(fr)
                env[s[1][0]] = x
                fr2[s[1][0]] = Cell(x)
            if t[0] == 'goto':
                return [(t[1], c)], env
            o = t[1]
            if o[0] in ('p', 'm'):
                if o[1][1]:
                    return None
                x = fr2[o[1][0]].v
            else:
                x = self.operand(fr2, o)
            if isinstance(x, bool):
                x = int(x)
            if not (isinstance(x, int) or isinstance(x, BF) and x.pos == pos):
                return None
            return groups(t, x, c), env

        for b, s in groups(t, v, c0):
            walk(b, s, {})
        self.facts.bytes[pos] = c0
        out = []
        for bb, l in sorted(exits.items()):
            ls = sorted({x for _, env in l for x in env if x in live[bb]})
            rows = [(c, tuple(env.get(x, fr[x].v) for x in ls)) for c, env in l]
            merged = {}
            for c, vals in rows:
                key = tuple('#' if isinstance(x, (int, BF)) else id(x) for x in vals)
                merged.setdefault(key, []).append((c, vals))
            for rs in merged.values():
                cs = frozenset().union(*[c for c, _ in rs])
                vals = []
                for i in range(len(ls)):
                    xs = [r[1][i] for r in rs]
                    if all(x is xs[0] or (isinstance(x, int) and isinstance(xs[0], int) and x == xs[0]) for x in xs):
                        vals.append(xs[0])
                        continue
                    tab = [0] * 256
                    for (c, _), x in zip(rs, xs):
                        for y in c:
                            if y != EOF:
                                tab[y] = x.tab[y] if isinstance(x, BF) else int(x)
                    vals.append(BF(pos, tuple(tab)))
                out.append((bb, cs, ls, vals))
        if not out:
            raise PathEnd('infeasible')
        i = self.split_groups(pos, [(i, o[1]) for i, o in enumerate(out)])
        bb, _, ls, vals = out[i]
        for l, x in zip(ls, vals):
            fr[l].v = x
        return bb

    def pure(self, f, fr, fr2, env, r, tid, pos):
        """The value of an assignment that only computes with the byte at pos, or None."""
        def val(o):
            if o[0] in ('p', 'm'):
                pl = o[1]
                if pl[1]:
                    if pl[0] in env:
                        return None
                    try:
                        cell = self.place(fr, pl)[0]
                    except PathEnd:
                        return None
                    if any(fr[l] is cell for l in env):
                        return None
                    x = self.read_place(fr, pl)
                else:
                    x = fr2[pl[0]].v
            else:
                x = self.operand(fr2, o)
            if isinstance(x, bool):
                return int(x)
            if isinstance(x, int) or isinstance(x, BF) and x.pos == pos:
                return x
            return None
        k = r[0]
        if k == 'use':
            return val(r[1])
        if k == 'bin':
            if val(r[2]) is None or val(r[3]) is None or r[1] == 'Cmp' or 'Overflow' in r[1]:
                return None
        elif k in ('un', 'cast'):
            if val(r[2]) is None:
                return None
        else:
            return None
        ls = {o[1][0] for o in r[2:] if isinstance(o, (list, tuple)) and o and o[0] in ('p', 'm')}
        x = self.rvalue(f, fr2 if ls & set(env) else fr, r, tid)
        if isinstance(x, bool):
            x = int(x)
        return x if isinstance(x, int) or isinstance(x, BF) and x.pos == pos else None

    def call_value(self, fv, args):
        """Calls a function value with plain arguments."""
        if isinstance(fv, Ref):
            inner = self.load(fv)
            return self.call_callable(inner, args, fv)
        return self.call_callable(fv, args, None)

    def call_callable(self, fv, args, ref):
        if isinstance(fv, FnV):
            g = self.p.F[fv.fid]
            if g['body'] and g['kind'] == 'shim' and g['body']['spread'] == 2 and g['body']['argc'] == 2:
                # a captureless closure as a function pointer
                ls = g['body']['locals']
                if self.p.T[ls[1]]['k'] == 'closure':
                    args = [Adt(ls[1], 0, ()), Adt(ls[2], 0, tuple(args))]
            return self.call(fv.fid, args)
        if isinstance(fv, CloPtr):
            return self.call_closure(fv.clo, args, None)
        if isinstance(fv, Adt) and fv.ty is not None and self.p.T[fv.ty]['k'] == 'closure':
            return self.call_closure(fv, args, ref)
        if isinstance(fv, DynV):
            if isinstance(fv.ptr, FnOpq):
                return self.call_opaque(fv.ptr, args)
            return self.call_value(fv.ptr, args)
        if isinstance(fv, FnOpq):
            return self.call_opaque(fv, args)
        if isinstance(fv, (BoxV, ArcV)):
            return self.call_callable(fv.cell.v, args, Ref(fv.cell))
        if isinstance(fv, Ref):
            return self.call_value(fv, args)
        if isinstance(fv, Obj) and fv.k == 'dynbox':
            return self.call_callable(fv.d['v'], args, None)
        raise PathEnd('unknown', 'call of %r' % (fv,))

    def call_closure(self, clo, args, ref):
        t = self.p.T[clo.ty]
        if t.get('fn') is None:
            raise PathEnd('unknown', 'closure without body')
        g = self.p.F[t['fn']]
        if not g['body']:
            raise PathEnd('unknown', 'closure without body')
        et = self.p.T[g['body']['locals'][1]] if g['body']['argc'] >= 1 else None
        if et is not None and et['k'] in ('ref', 'ptr'):
            env = ref if ref is not None else Ref(Cell(clo))
        else:
            env = clo
        return self.call(t['fn'], [env] + list(args))

    def call_opaque(self, fv, args):
        h = self.opts.get('opaque_call')
        if h:
            return h(self, fv, args)
        raise PathEnd('unknown', 'call of opaque function')


def fterm(n, x, y=None):
    """A float operation, folded when exact on constants."""
    if n == 'neg':
        if x[0] == 'c':
            return ('c', x[1] ^ (1 << 63))
        if x[0] == 'neg':
            return x[1]
        return ('neg', x)
    if x[0] == 'c' and y[0] == 'c':
        a, b = bits2f(x[1]), bits2f(y[1])
        r = None
        if n == 'add':
            r = a + b
        elif n == 'sub':
            r = a - b
        elif n == 'mul':
            r = a * b
        elif n == 'div':
            if b != 0 and a == a and b == b:
                try:
                    r = a / b
                except OverflowError:
                    r = None
            else:
                r = fdiv(a, b)
        elif n == 'rem':
            r = frem(a, b)
        if r is not None:
            if r != r:
                return NANT
            return ('c', f2bits(r))
    return (n, x, y)


def fdiv(a, b):
    if a != a or b != b:
        return math.nan
    if b == 0:
        if a == 0:
            return math.nan
        return math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))
    return a / b


def frem(a, b):
    if a != a or b != b or abs(a) == math.inf or b == 0:
        return math.nan
    if abs(b) == math.inf:
        return a
    return math.fmod(a, b)


NANT = ('c', f2bits(math.nan))


def tstr(t):
    """Short text of an opaque term."""
    if isinstance(t, tuple) and t:
        k = t[0]
        if k == 'f' and len(t) == 4:
            return '%s.%s' % (tstr(t[1]), t[3])
        if k == 'el':
            return '%s[%s]' % (tstr(t[1]), t[2])
        if k in ('*', 'o', 'fo', 'v', 'n', 's', 'map') and len(t) >= 2:
            return tstr(t[1])
        if k in ('ev', 'evok', 'everr') and len(t) == 3:
            return '%s(%s)' % (k, tstr(t[2]))
        if k == 'has':
            return '%s has %s' % (tstr(t[1]), tstr(t[2]))
        if k == 'mapval':
            return '%s[%s]' % (tstr(t[1]), tstr(t[2]))
        if k == 'S':
            return 'simplified(%s)' % tstr(t[1])
        if k == 'SF':
            return 'substituted(%s)' % tstr(t[1])
        if k == 'eqel':
            return '%s == %s' % (tstr(t[1]), tstr(t[2]))
        if k == 'streq':
            return '%s == %s' % (tstr(t[1]), tstr(t[2]))
        if k in ('c',):
            return fstr(t)
        return '(' + ' '.join(tstr(x) for x in t) + ')'
    if isinstance(t, StrV):
        return '+'.join(repr(p) if isinstance(p, str) else tstr(p) for p in t.parts)
    if isinstance(t, F):
        return fstr(t.t)
    return str(t)


def vkey(v):
    """A hashable identity of a value."""
    if isinstance(v, (int, Lin, BF, F, StrV, SymB, str, tuple)):
        return v
    if isinstance(v, Opq):
        return ('o', v.term)
    if isinstance(v, FnOpq):
        return ('fo', v.term)
    if isinstance(v, FnV):
        return ('fn', v.fid)
    if isinstance(v, Adt):
        return ('adt', v.ty, v.var) + tuple(vkey(x) for x in v.fs)
    if isinstance(v, Seq):
        return ('seq',) + tuple(vkey(x) for x in v.items)
    if isinstance(v, SeqOpq):
        return ('seqo', v.term)
    if isinstance(v, Ref):
        return ('ref', vkey(v.cell.v), v.path, v.sub)
    if isinstance(v, BoxV):
        return ('box', vkey(v.cell.v))
    if isinstance(v, ArcV):
        return ('arc', v.id)
    if isinstance(v, DynV):
        return ('dyn', vkey(v.ptr))
    if isinstance(v, CloPtr):
        return ('clo', vkey(v.clo))
    if isinstance(v, MapV):
        return ('map', v.base) + tuple((k and vkey(k), c and vkey(c.v)) for k, c in v.entries)
    if isinstance(v, SetV):
        return ('set', tuple(vkey(p) for p in v.parts), tuple(vkey(p) for p in v.minus))
    if isinstance(v, BytesV):
        return ('bytes', v.src, v.lo, v.hi)
    if isinstance(v, Obj):
        return ('obj', v.k) + tuple((k, vkey(x) if not callable(x) else id(x)) for k, x in sorted(v.d.items()))
    if isinstance(v, list):
        return tuple(vkey(x) for x in v)
    if isinstance(v, _Un):
        return ('uninit',)
    if v is None:
        return ('none',)
    return ('unk', id(v))


@functools.lru_cache(None)
def show_cls(c):
    if len(c) > 128:
        n = FULL - c
        return 'not{%s}' % show_set(n)
    return '{%s}' % show_set(c)


def show_set(c):
    out = []
    run = []
    for x in sorted(c) + [None]:
        if run and x is not None and x == run[-1] + 1 and x != EOF:
            run.append(x)
            continue
        if run:
            def one(y):
                return 'EOF' if y == EOF else chr(y) if 33 <= y < 127 else '\\x%02x' % y
            out.append(one(run[0]) if len(run) == 1 else one(run[0]) + '-' + one(run[-1]))
        run = [x]
    return ' '.join(out)


DEADLINE = [None]     # when set: the time at which every exploration gives up


STRICT = bool(os.environ.get('XPRS_STRICT'))


class Ledger:
    """What every exploration of a run found out about undefined behaviour and endless loops."""

    def __init__(self):
        self.ub, self.hang, self.lost = {}, {}, {}
        self.safe = set()         # calls of functions with a safety contract whose contract was checked
        self.unchecked = set()    # and those without a model of it
        self.loops = set()

    def end(self, r):
        w = r.where.split(' > ')[-1] if r.where else ''
        fn = re.sub(r':[^:]*:\d+$|:\d+$', '', w)
        text = '%s at %s (%s)' % (r.info, r.where, '; '.join(r.log)[-300:] or 'always')
        if r.kind == 'ub':
            self.ub.setdefault('%s:%s' % (fn, r.info), text)
        elif r.kind == 'hang':
            self.hang.setdefault(fn, text)
        else:
            self.lost.setdefault(fn, text)


LEDGER = [Ledger()]

# functions with a safety contract that the models check
CONTRACT = ('from_utf8_unchecked', 'from_utf8_unchecked_mut', 'get_unchecked', 'get_unchecked_mut', 'unwrap_unchecked',
            'to_int_unchecked', 'unreachable_unchecked', 'assert_unchecked', 'from_u32_unchecked',
            'unchecked_sub')


def explore(mk, body, max_paths=20000, deadline=None):
    """Runs body(interp) along every path; mk(script) makes an interpreter.
    Yields Path objects (infeasible ones are skipped)."""
    import time
    script = []
    n = 0
    deadline = deadline or DEADLINE[0]
    while True:
        ip = mk(script)
        try:
            v = body(ip)
            r = Path('return', v, ip)
        except PathEnd as e:
            r = Path(e.kind, e.info, ip)
        except RecursionError:
            r = Path('unknown', 'analysis recursion', ip)
        except Exception as e:
            # a value of a shape the analysis does not know: no answer on this path
            if STRICT or type(e).__module__ != 'builtins':
                raise
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            r = Path('unknown', 'analysis: %s at %s:%d' % (repr(e)[:120], tb.tb_frame.f_code.co_name, tb.tb_lineno), ip)
        n += 1
        imp = ip.opts.get('impossible')
        if r.kind != 'infeasible' and not (imp and imp(ip)):
            if r.kind in ('ub', 'hang', 'unknown'):
                LEDGER[0].end(r)
            yield r
        ch = ip.choices
        while ch and ch[-1][0] + 1 >= ch[-1][1]:
            ch.pop()
        if not ch:
            return
        script = [k for k, _ in ch[:-1]] + [ch[-1][0] + 1]
        if n >= max_paths or (deadline and time.time() > deadline):
            r = Path('budget', 'path budget', ip)
            LEDGER[0].end(r)
            yield r
            return
