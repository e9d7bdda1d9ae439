"""Models of the standard library (and of the few dependency functions) the crate calls."""
import math
import re
from absint import (ASCII, Adt, BF, BLANK, CONT, BoxV, ArcV, BytesV, Cell, CloPtr, DynV, EOF, F, FnOpq, FnV, FULL, IDENT, Lin,
                    MapV, NONEOF, Obj, Opq, PathEnd, Ref, Seq, SeqOpq, SetV, StrV, SymB, UNINIT, Unk, fconst, fterm,
                    lin, lin_add, lin_mul, mkstr, vkey, _Un)
from ir import bits2f
from absint import tstr
from mir import live_in

END = object()


# --------------------------------------------------------------- iterators
class It:
    """An iterator: next() gives a value or END."""

    def next(self, ip):
        raise NotImplementedError

    def back(self, ip):
        raise PathEnd('unknown', 'reverse iteration of ' + type(self).__name__)

    def clone(self):
        raise PathEnd('unknown', 'clone of ' + type(self).__name__)

    def left(self, ip):
        """How many items are left, or None."""
        return None


class ModelLoop:
    """The state of a loop inside a model: an iterator and values carried from turn to turn."""

    def __init__(self, ip, it, *vals):
        self.ip, self.it, self.v, self.n = ip, it, list(vals), 0
        self.hook = ip.opts.get('model_loop')

    def head(self):
        self.n += 1
        if self.hook is not None:
            self.hook(self.ip, self)
        elif self.n > 1000:
            raise PathEnd('bound', 'loop in a library function')

    def next(self):
        self.head()
        return self.it.next(self.ip)


class ListIt(It):
    def __init__(self, items, lo=0, hi=None):
        self.items, self.lo, self.hi = items, lo, len(items) if hi is None else hi

    def next(self, ip):
        if self.lo >= self.hi:
            return END
        self.lo += 1
        return self.items[self.lo - 1]

    def back(self, ip):
        if self.lo >= self.hi:
            return END
        self.hi -= 1
        return self.items[self.hi]

    def clone(self):
        return ListIt(self.items, self.lo, self.hi)

    def left(self, ip):
        return self.hi - self.lo


class LazyListIt(It):
    """A list whose length is decided at the first use."""

    def __init__(self, force):
        self.force, self.l = force, None

    def get(self):
        if self.l is None:
            self.l = ListIt(self.force())
        return self.l

    def next(self, ip):
        return self.get().next(ip)

    def back(self, ip):
        return self.get().back(ip)

    def clone(self):
        c = LazyListIt(self.force)
        c.l = self.l.clone() if self.l else None
        return c

    def left(self, ip):
        return self.get().left(ip)


class BytesIt(It):
    def __init__(self, b, off=0):
        self.b, self.off = b, off

    def next(self, ip):
        n = ip.bytes_len(self.b)
        if not ip.decide_neg(lin_add(self.off, n, -1)):
            return END
        v = ip.bytes_at(self.b, self.off)
        self.off = lin_add(self.off, 1)
        return Ref(Cell(v))

    def clone(self):
        return BytesIt(self.b, self.off)


class CharsIt(It):
    """Characters of a text that is a slice of the input or a literal."""

    def __init__(self, s, off=0, indices=False):
        self.s, self.off, self.indices = s, off, indices

    def next(self, ip):
        s = ip.canon_str(self.s)
        l = s.lit()
        if l is not None:
            if self.off >= len(l):
                return END
            self.off += 1
            return ord(l[self.off - 1])
        p = s.parts[0] if len(s.parts) == 1 else None
        if p is not None and p[0] == 'slice':
            pos = lin_add(p[2], self.off)
            if p[3] is not None and not ip.decide_neg(lin_add(pos, p[3], -1)):
                return END
            if p[3] is None and not ip.split(pos, NONEOF):
                return END
            if ip.split(pos, ASCII):
                self.off = lin_add(self.off, 1)
                return BF(pos, IDENT)
            if ip.truth(SymB(('chardone', self.off))) if False else False:
                return END
            self.off = Unk('offset after a wide character')
            return Opq(('charat', pos), ip.opts.get('char_ty', -1))
        if p is not None and p[0] == 's' and p[1] == 'input':
            self.s = StrV((('slice', 'input', 0, None),))
            return self.next(ip)
        raise PathEnd('unknown', 'characters of %r' % (s,))

    def clone(self):
        return CharsIt(self.s, self.off)


class RangeIt(It):
    def __init__(self, lo, hi, ty, incl=False):
        self.lo, self.hi, self.ty, self.incl = lo, hi, ty, incl

    def next(self, ip):
        if self.hi is not None:
            c = ip.cmpint('Le' if self.incl else 'Lt', self.lo, self.hi)
            if c is None:
                raise PathEnd('unknown', 'range bounds')
            if not ip.truth(c):
                return END
        v = self.lo
        self.lo = lin_add(self.lo, 1)
        return v

    def back(self, ip):
        c = ip.cmpint('Le' if self.incl else 'Lt', self.lo, self.hi)
        if not ip.truth(c):
            return END
        if self.incl:
            v = self.hi
            self.hi = lin_add(self.hi, -1)
            return v
        self.hi = lin_add(self.hi, -1)
        return self.hi

    def clone(self):
        return RangeIt(self.lo, self.hi, self.ty, self.incl)


class RefRangeIt(It):
    """A Range used as an iterator in place."""

    def __init__(self, ref, kind):
        self.ref, self.kind = ref, kind

    def next(self, ip):
        a = ip.expand(ip.load(self.ref))
        if self.kind == 'RangeInclusive':
            if a.fs[2] == 1 or not ip.truth(ip.cmpint('Le', a.fs[0], a.fs[1])):
                return END
            last = ip.truth(ip.cmpint('Eq', a.fs[0], a.fs[1]))
            ip.store(self.ref, Adt(a.ty, a.var, (a.fs[0] if last else lin_add(a.fs[0], 1), a.fs[1], int(last))))
            return a.fs[0]
        it = RangeIt(a.fs[0], a.fs[1] if self.kind == 'Range' else None, None)
        v = it.next(ip)
        ip.store(self.ref, Adt(a.ty, a.var, (it.lo,) + tuple(a.fs[1:])))
        return v


class UserIt(It):
    def __init__(self, ref, fid):
        self.ref, self.fid = ref, fid

    def next(self, ip):
        r = ip.call(self.fid, [self.ref])
        if ip.variant_of(r) == 0:
            return END
        return ip.step(ip.expand(r, 1), ('f', 0, 1))


class Adapter(It):
    def __init__(self, kind, inner, f=None, **d):
        self.kind, self.inner, self.f, self.d = kind, inner, f, d
        self.fcell = Cell(f) if f is not None else None

    def call(self, ip, args):
        return ip.call_callable(self.fcell.v, args, Ref(self.fcell))

    def clone(self):
        d = dict(self.d)
        for k in ('other', 'cur', 'curb'):
            if isinstance(d.get(k), It):
                d[k] = d[k].clone()
        a = Adapter(self.kind, self.inner.clone(), self.f, **d)
        if self.fcell:
            a.fcell = Cell(self.fcell.v)
        return a

    def left(self, ip):
        if self.kind in ('map', 'copied', 'cloned', 'enumerate', 'rev'):
            return self.inner.left(ip)
        return None

    def byte_while(self, ip):
        """take_while over the rest of the input: its end and a byte that does not match are the same to the caller."""
        it, by = self.inner, True
        if isinstance(it, Adapter) and it.kind in ('copied', 'cloned'):
            it, by = it.inner, False
        if not isinstance(it, BytesIt) or it.b.hi is not None:
            return None
        pos = lin_add(it.b.lo, it.off)
        if EOF not in ip.cls(pos):
            return None
        x = Ref(Cell(BF(pos, IDENT))) if by else BF(pos, IDENT)
        T = ip.pred_class(pos, lambda: self.call(ip, [Ref(Cell(x))]))
        if T is None:
            return None
        if not ip.split(pos, T):
            return END
        return it.next(ip) if by else deref(ip, it.next(ip))

    def pull(self, ip, back):
        return self.inner.back(ip) if back else self.inner.next(ip)

    def next(self, ip, back=False):
        k, d = self.kind, self.d
        if k == 'rev':
            return self.pull(ip, not back)
        if k == 'map':
            x = self.pull(ip, back)
            return x if x is END else self.call(ip, [x])
        if k in ('copied', 'cloned'):
            x = self.pull(ip, back)
            return x if x is END else deref(ip, x)
        if k in ('fuse', 'by_ref'):
            return self.pull(ip, back)
        if k == 'filter':
            L = ModelLoop(ip, self.inner)
            while True:
                L.head()
                x = self.pull(ip, back)
                if x is END or ip.truth(self.call(ip, [Ref(Cell(x))])):
                    return x
        if k == 'filter_map':
            L = ModelLoop(ip, self.inner)
            while True:
                L.head()
                x = self.pull(ip, back)
                if x is END:
                    return x
                r = self.call(ip, [x])
                if ip.variant_of(r) == 1:
                    return ip.step(ip.expand(r, 1), ('f', 0, 1))
        if k == 'inspect':
            x = self.pull(ip, back)
            if x is not END:
                self.call(ip, [Ref(Cell(x))])
            return x
        if k == 'peekable':
            if 'peeked' in d and not back:
                return d.pop('peeked')
            return self.pull(ip, back)
        if back:
            if k == 'enumerate':
                n = self.inner.left(ip)
                x = self.inner.back(ip)
                if x is END:
                    return x
                return Adt(d['ty'], 0, (d['n'] + n - 1, x))
            if k == 'chain':
                x = d['other'].back(ip)
                return x if x is not END else self.inner.back(ip)
            if k == 'zip':
                raise PathEnd('unknown', 'reverse zip')
            raise PathEnd('unknown', 'reverse ' + k)
        if k == 'enumerate':
            x = self.inner.next(ip)
            if x is END:
                return x
            d['n'] = lin_add(d['n'], 1)
            return Adt(d['ty'], 0, (lin_add(d['n'], -1), x))
        if k == 'zip':
            x = self.inner.next(ip)
            if x is END:
                return x
            y = d['other'].next(ip)
            if y is END:
                return y
            return Adt(d['ty'], 0, (x, y))
        if k == 'chain':
            x = self.inner.next(ip)
            return x if x is not END else d['other'].next(ip)
        if k == 'take':
            n = ip.int_val(d['n'])
            if n is None:
                raise PathEnd('unknown', 'take of unknown count')
            if n <= 0:
                return END
            d['n'] = n - 1
            return self.inner.next(ip)
        if k == 'skip':
            n = ip.int_val(d['n'])
            if n is None:
                raise PathEnd('unknown', 'skip of unknown count')
            d['n'] = 0
            for _ in range(n):
                if self.inner.next(ip) is END:
                    return END
            return self.inner.next(ip)
        if k == 'step_by':
            if d['first']:
                d['first'] = False
                return self.inner.next(ip)
            for _ in range(d['n'] - 1):
                if self.inner.next(ip) is END:
                    return END
            return self.inner.next(ip)
        if k == 'take_while':
            if d.get('done'):
                return END
            r = self.byte_while(ip)
            if r is not None:
                if r is END:
                    d['done'] = True
                return r
            x = self.inner.next(ip)
            if x is END:
                return x
            if ip.truth(self.call(ip, [Ref(Cell(x))])):
                return x
            d['done'] = True
            return END
        if k == 'skip_while':
            L = ModelLoop(ip, self.inner)
            while not d.get('done'):
                x = L.next()
                if x is END:
                    return x
                if not ip.truth(self.call(ip, [Ref(Cell(x))])):
                    d['done'] = True
                    return x
            return self.inner.next(ip)
        if k == 'map_while':
            x = self.inner.next(ip)
            if x is END:
                return x
            r = self.call(ip, [x])
            if ip.variant_of(r) == 1:
                return ip.step(ip.expand(r, 1), ('f', 0, 1))
            return END
        if k == 'cycle':
            x = self.inner.next(ip)
            if x is END:
                self.inner = d['orig'].clone()
                x = self.inner.next(ip)
            return x
        if k == 'flat_map':
            while True:
                if d.get('cur') is not None:
                    x = d['cur'].next(ip)
                    if x is not END:
                        return x
                    d['cur'] = None
                y = self.inner.next(ip)
                if y is END:
                    return y
                if self.f is not None:
                    y = self.call(ip, [y])
                d['cur'] = to_it(ip, y)
        if k == 'scan':
            x = self.inner.next(ip)
            if x is END:
                return x
            r = self.call(ip, [Ref(d['state']), x])
            if ip.variant_of(r) == 1:
                return ip.step(ip.expand(r, 1), ('f', 0, 1))
            return END
        raise PathEnd('unknown', 'iterator adapter ' + k)

    def back(self, ip):
        return self.next(ip, True)


def deref(ip, v):
    """The value behind a reference (text and byte views are their own)."""
    if isinstance(v, Ref):
        return copyv(ip.load(v))
    return v


def strip(ip, v):
    while isinstance(v, Ref):
        v = ip.load(v)
    return v


def copyv(v):
    """A copy that shares no mutable cell with the original."""
    if isinstance(v, BoxV):
        c = v.cell.v
        if isinstance(c, Obj) and c.k == 'dynbox':
            return v
        return BoxV(Cell(copyv(c)))
    if isinstance(v, Adt):
        if any(isinstance(x, (BoxV, Adt, Seq, MapV, It)) for x in v.fs):
            return Adt(v.ty, v.var, tuple(copyv(x) for x in v.fs))
        return v
    if isinstance(v, Seq):
        return Seq(tuple(copyv(x) for x in v.items))
    if isinstance(v, MapV):
        return MapV(v.base, tuple((k, c and Cell(copyv(c.v))) for k, c in v.entries), v.vty)
    if isinstance(v, It):
        return v.clone()
    return v


def text(ip, v):
    v = strip(ip, v)
    if isinstance(v, StrV):
        return v
    if isinstance(v, (BoxV, ArcV)):
        return text(ip, v.cell.v)
    if isinstance(v, Obj) and v.k == 'cow':
        return v.d['s']
    raise PathEnd('unknown', 'text %r' % (v,))


def slice_items(ip, v):
    """Element references of a slice (or array, vector) reference, or of its value."""
    if isinstance(v, Ref):
        x = ip.read_path(v.cell.v, v.path)
        if isinstance(x, (Seq, SeqOpq)):
            n = ip.seq_len(x)
            lo, hi = v.sub if v.sub is not None else (0, n)
            return [Ref(v.cell, v.path + (('i', i),)) for i in range(lo, hi)]
        if isinstance(x, (Ref, BoxV, ArcV)):
            return slice_items(ip, x if isinstance(x, Ref) else Ref(x.cell))
    if isinstance(v, (Seq, SeqOpq)):
        c = Cell(v)
        return [Ref(c, (('i', i),)) for i in range(ip.seq_len(v))]
    raise PathEnd('unknown', 'slice %r' % (v,))


def slice_len(ip, v):
    if isinstance(v, BytesV):
        return ip.bytes_len(v)
    if isinstance(v, Ref):
        if v.sub is not None:
            return v.sub[1] - v.sub[0]
        return slice_len(ip, ip.load(v))
    if isinstance(v, (Seq, SeqOpq)):
        return ip.seq_len(v)
    if isinstance(v, BoxV):
        return slice_len(ip, v.cell.v)
    raise PathEnd('unknown', 'length of %r' % (v,))


class SetIt(LazyListIt):
    """The elements of a set (kept whole as long as nobody looks)"""

    def __init__(self, ip, s, ref):
        self.s, self.ref, self.ip = s, ref, ip
        LazyListIt.__init__(self, lambda: [Ref(Cell(k)) if ref else k for k in set_items(ip, s)])

    def clone(self):
        c = SetIt(self.ip, self.s, self.ref)
        c.l = self.l.clone() if self.l else None
        return c


def whole_set(it):
    """The set an iterator runs over, if it is one and nothing has been taken yet."""
    while isinstance(it, Adapter) and it.kind in ('copied', 'cloned', 'fuse', 'rev') :
        it = it.inner
    if isinstance(it, Adapter) and it.kind == 'chain':
        x, y = whole_set(it.inner), whole_set(it.d['other'])
        return SetV(x.parts + tuple(p for p in y.parts if p not in x.parts)) if x and y else None
    if isinstance(it, SetIt) and it.l is None and not it.s.minus:
        return it.s
    return None


class MapIt(It):
    """The entries of a map (only consumed as a whole)"""
    def __init__(self, m):
        self.m = m

    def next(self, ip):
        raise PathEnd('unknown', 'iteration of a map')

    def clone(self):
        return self


def to_it(ip, v, ty=None):
    if isinstance(v, It):
        return v
    if isinstance(v, Seq):
        return ListIt(list(v.items))
    if isinstance(v, SeqOpq):
        return LazyListIt(lambda: list(ip.seq(v).items))
    if isinstance(v, BytesV):
        return BytesIt(v)
    if isinstance(v, SetV):
        return SetIt(ip, v, False)
    if isinstance(v, MapV):
        return MapIt(v)
    if isinstance(v, Ref):
        x = ip.read_path(v.cell.v, v.path)
        if isinstance(x, It):
            return x
        if isinstance(x, (Seq, SeqOpq)):
            return LazyListIt(lambda: slice_items(ip, v))
        if isinstance(x, SetV):
            return SetIt(ip, x, True)
        if isinstance(x, (Ref, BoxV)):
            return to_it(ip, x)
        if isinstance(x, BytesV):
            return BytesIt(x)
        if isinstance(x, Adt) and x.ty is not None:
            t = ip.p.T[x.ty]
            if t['k'] == 'adt' and t['path'].startswith('core::ops::range::'):
                return RefRangeIt(v, t['path'].rsplit('::', 1)[1])
            if (x.ty, 'next') in ip.p.aux:
                return UserIt(v, ip.p.aux[(x.ty, 'next')])
            if t['k'] == 'adt' and t['path'] == 'core::option::Option':
                return opt_it(ip, x, v)
    if isinstance(v, BoxV):
        return to_it(ip, v.cell.v)
    if isinstance(v, (Adt, Opq)):
        if isinstance(v, Opq):
            v = ip.expand(v)
        t = ip.p.T[v.ty]
        if t['k'] == 'adt':
            n = t['path'].rsplit('::', 1)[1]
            if t['path'].startswith('core::ops::range::'):
                if n == 'Range':
                    return RangeIt(v.fs[0], v.fs[1], v.ty)
                if n == 'RangeFrom':
                    return RangeIt(v.fs[0], None, v.ty)
                if n == 'RangeInclusive':
                    return RangeIt(v.fs[0], v.fs[1], v.ty, True)
            if t['path'] == 'core::option::Option':
                return ListIt([v.fs[0]] if v.var == 1 else [])
            if t['path'] == 'core::result::Result':
                return ListIt([v.fs[0]] if v.var == 0 else [])
        if (v.ty, 'next') in ip.p.aux:
            return UserIt(Ref(Cell(v)), ip.p.aux[(v.ty, 'next')])
        if (v.ty, 'into_iter') in ip.p.aux:
            f = ip.p.F[ip.p.aux[(v.ty, 'into_iter')]]
            if f['body']:
                return to_it(ip, ip.call(f['id'], [v]))
    raise PathEnd('unknown', 'iterator %r' % (v,))


def opt_it(ip, x, ref):
    return ListIt([Ref(ref.cell, ref.path + (('f', 0, 1),))] if x.var == 1 else [])


# --------------------------------------------------------------- sets
def part_items(ip, p):
    """The members of an opaque set: those known to be in it, and opaque others."""
    n = ip.facts.lens.get(p)
    known, out = [], []
    for t, r in ip.facts.bools.items():
        if t[0] == 'in' and t[1] == p:
            (known if r else out).append(t[2])
    if n is None:
        h = ip.opts.get('set_lens')
        ls = list(h(ip, p)) if h else [0, 1, 2]
        uniq = []
        for k in known:
            if not any(ip.streq(k, x) for x in uniq):
                uniq.append(k)
        ls = [x for x in ls if x >= len(uniq)] or [len(uniq)]
        n = ls[ip.choose(len(ls))]
        ip.facts.lens[p] = n
        ip.note('|%s| = %d' % (tstr(p[1]), n))
    known = list(dict.fromkeys(ip.canon_str(k) for k in known))
    sels = [StrV((('s', ('sel', p, i)),)) for i in range(n)]
    if known:
        sels = known + sels[len(known):]
    if out:
        for s in sels[len(known):]:
            for k in out:
                x, y = ip.canon_str(s), ip.canon_str(k)
                if x != y and x.lit() is None and y.lit() is None:
                    ip.facts.bools[('streq',) + tuple(sorted((x, y), key=lambda v: repr(v.parts)))] = False
    return sels


def set_items(ip, s):
    out = []
    for p in s.parts:
        if isinstance(p, tuple) and p and p[0] == 'set':
            for k in part_items(ip, p):
                if all(not ip.streq(k, m) for m in s.minus):
                    out.append(k)
        else:
            if not any(ip.streq(p, q) for q in out):
                out.append(p)
    return out


def set_has(ip, s, k):
    if any(ip.streq(k, m) for m in s.minus):
        return False
    for p in s.parts:
        if not (isinstance(p, tuple) and p and p[0] == 'set') and ip.streq(k, p):
            return True
    for p in s.parts:
        if isinstance(p, tuple) and p and p[0] == 'set':
            if len(k.parts) == 1 and isinstance(k.parts[0], tuple) and k.parts[0][0] == 's' and \
                    isinstance(k.parts[0][1], tuple) and k.parts[0][1][:2] == ('sel', p):
                return True
            n = ip.facts.lens.get(p)
            if n == 0:
                continue
            t = ('in', p, ip.canon_str(k))
            if isinstance(n, int) and t not in ip.facts.bools:
                if any(ip.streq(k, x) for x in part_items(ip, p)):
                    return True
                continue
            if ip.decide(t):
                return True
    return False


def set_add(s, k):
    if k in s.parts and not s.minus:
        return s
    return SetV(s.parts + (k,), tuple(m for m in s.minus if m != k))


def set_term(s):
    """A canonical hashable form."""
    return (tuple(sorted((p for p in set(s.parts)), key=repr)), tuple(sorted(set(s.minus), key=repr)))


def set_diff(ip, a, b):
    """a without the members of b"""
    t = ('set', ('diff', set_term(a), set_term(b)))
    if not a.minus and t not in ip.facts.lens and all(
            not (isinstance(p, tuple) and p and p[0] == 'set') or p in ip.facts.lens for p in a.parts):
        items = set_items(ip, a)
        return SetV(tuple(k for k in items if not set_has(ip, b, k)))
    return SetV((t,))


def map_get(ip, m, k):
    """The cell of key k, or None"""
    for key, cell in reversed(m.entries):
        if key is None:         # all the entries of another map
            c = map_get(ip, cell.v, k)
            if c is not None:
                return c
        elif ip.streq(k, key):
            return cell         # None: removed
    if m.base is None:
        return None
    k = ip.canon_str(k)
    h = ip.opts.get('map_has')
    r = h(ip, m, k) if h else None
    if r is None:
        r = ip.decide(('has', m.base, k))
    if not r:
        return None
    return ip.memo_cell(('mapval', m.base, k), lambda: ip.opq(('mapval', m.base, k), m.vty))


# --------------------------------------------------------------- formatting
def fmt_new(alt=False):
    return Obj('fmt', parts=[], alt=alt)


def fmt_of(ip, v):
    f = strip(ip, v)
    if isinstance(f, Obj) and f.k == 'fmt':
        return f
    raise PathEnd('unknown', 'formatter %r' % (f,))


def display(ip, tid, v, out, kind='display', spec=None):
    """Appends the text of v (a reference to a value of type tid)."""
    h = ip.opts.get('display')
    if h and h(ip, tid, v, out, kind):
        return
    t = ip.p.T[tid]
    k = t['k']
    if k == 'ref':
        x = v
        if isinstance(v, Ref):
            x = ip.load(v)
        return display(ip, t['to'], x, out, kind, spec)
    if k == 'str' or (k == 'adt' and t['path'] == 'alloc::string::String'):
        s = text(ip, v)
        if kind == 'display':
            out.extend(s.parts)
        else:
            out.append(('sdebug', s))
        return
    if k == 'adt' and (t.get('box') or t['path'].endswith('::Arc') or t['path'].endswith('::Cow')):
        x = strip(ip, v)
        if isinstance(x, (BoxV, ArcV)):
            return display(ip, t['args'][0], Ref(x.cell), out, kind, spec)
    val = strip(ip, v)
    if k == 'int' and isinstance(val, Obj) and val.k == 'f2i' and kind in ('display', 'debug'):
        ft = ip.p.T[val.d['ty']]
        w = ft['bits'] - int(bool(ft['signed']))
        out.append(('f2itext', val.d['t'], -(1 << w) if ft['signed'] else 0, (1 << w) - 1))
        return
    if k == 'int':
        n = ip.int_val(val)
        out.append(str(n) if n is not None else ('int', vkey(val)))
        return
    if k == 'bool':
        out.append('true' if ip.truth(val) else 'false')
        return
    if k == 'char':
        out.extend(char_text(ip, val).parts if kind == 'display' else [('cdebug', vkey(val))])
        return
    if k == 'float':
        out.append(('f64', val.t, kind))
        return
    if k == 'adt' and t['path'] == 'core::fmt::Arguments':
        fmt_args(ip, val, out)
        return
    fid = ip.p.aux.get((tid, kind))
    if fid is None and k == 'adt':
        fid = fmt_impl(ip.p, t['path'], kind)
    if fid is not None and ip.p.F[fid]['body']:
        f = Obj('fmt', parts=out, alt=False)
        ref = v if isinstance(v, Ref) else Ref(Cell(v))
        r = ip.call(fid, [ref, Ref(Cell(f))])
        if isinstance(r, (Adt, Opq)) and ip.variant_of(r) == 1:
            raise PathEnd('panic', 'formatting error')
        return
    out.append((kind, vkey(val)))


def fmt_impl(p, path, kind):
    """The function that formats a type, by its name."""
    tab = getattr(p, 'fmt_impls', None)
    if tab is None:
        tab = p.fmt_impls = {}
        for f in p.F.values():
            m = re.match(r'<([\w:]+)(?:<.*>)? as [\w:]*::(Display|Debug)>::fmt$', f['path'])
            if m and f['body'] and len(f['sig'] or ()) == 3:
                tab.setdefault((m[1], m[2].lower()), f['id'])
    return tab.get((path, kind))


def char_text(ip, c):
    if isinstance(c, int):
        return StrV((chr(c),))
    if isinstance(c, BF):
        cl = ip.cls(c.pos)
        vals = {c.tab[b] for b in cl if b != EOF}
        if len(vals) == 1:
            return StrV((chr(next(iter(vals))),))
        return StrV((('char', c),))
    return StrV((('char', vkey(c)),))


def fmt_args(ip, a, out):
    if a.k == 'args_str':
        out.append(a.d['s'])
        return
    t, args = a.d['tmpl'], a.d['args']
    i = n = 0
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(t[i:i + b]).decode('utf-8', 'replace'))
            i += b
        elif b == 0x80:
            l = t[i] | t[i + 1] << 8
            out.append(bytes(t[i + 2:i + 2 + l]).decode('utf-8', 'replace'))
            i += 2 + l
        else:
            spec = []
            flags = 0
            if b & 1:
                flags = int.from_bytes(bytes(t[i:i + 4]), 'little')
                i += 4
                spec.append(('flags', flags))
            if b & 2:
                spec.append(('width', t[i] | t[i + 1] << 8))
                i += 2
            if b & 4:
                spec.append(('prec', t[i] | t[i + 1] << 8))
                i += 2
            if flags & 1 << 28 and not b & 4:
                spec.append(('prec', 0))
            if b & 8:
                n = t[i] | t[i + 1] << 8
                i += 2
            if n >= len(args):
                raise PathEnd('unknown', 'format argument')
            x = args[n]
            n += 1
            if spec and any(s[1] or s[0] == 'prec' for s in spec if s[0] != 'flags') or b & 0x30:
                sub = []
                display(ip, x.d['ty'], x.d['v'], sub, x.d['kind'])
                out.append(('spec', tuple(spec), mkstr(sub)))
            else:
                display(ip, x.d['ty'], x.d['v'], out, x.d['kind'])


# --------------------------------------------------------------- floats
PRED = {'is_nan': 'isnan', 'is_infinite': 'isinf', 'is_finite': 'isfin', 'is_sign_negative': 'signneg'}
F1 = {'abs', 'sqrt', 'cbrt', 'exp', 'exp2', 'exp_m1', 'ln', 'ln_1p', 'log10', 'log2', 'sin', 'cos', 'tan', 'asin',
      'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'floor', 'ceil', 'round', 'trunc', 'fract',
      'gamma', 'signum', 'to_degrees', 'to_radians', 'round_ties_even'}
F2 = {'powf', 'atan2', 'hypot', 'min', 'max', 'log', 'copysign', 'div_euclid', 'rem_euclid', 'maximum', 'minimum',
      'midpoint', 'powi'}


def f64_method(ip, f, m, args):
    x = strip(ip, args[0])
    if not isinstance(x, F):
        raise PathEnd('unknown', 'float %r' % (x,))
    if m in PRED:
        return pred(ip, PRED[m], x.t)
    if m == 'is_sign_positive':
        return ip.bnot(pred(ip, 'signneg', x.t))
    if m == 'recip':
        return F(fterm('div', fconst(1.0).t, x.t))
    if m in F1:
        if x.t[0] == 'c' and m in ('abs', 'floor', 'ceil', 'round', 'trunc', 'fract'):
            from absint import ffun
            return fconst(ffun(m, bits2f(x.t[1])))
        return F(('fn', m, x.t))
    if m in F2:
        y = strip(ip, args[1])
        if not isinstance(y, F):
            n = ip.int_val(y)
            if n is None:
                raise PathEnd('unknown', 'float argument')
            y = fconst(float(n))
        return F(('fn', m, x.t, y.t))
    if m == 'mul_add':
        return F(('fn', m, x.t, strip(ip, args[1]).t, strip(ip, args[2]).t))
    if m == 'clamp':
        lo, hi = strip(ip, args[1]), strip(ip, args[2])
        if not ip.fcmp('Le', lo.t, hi.t):
            raise PathEnd('panic', 'clamp bounds')
        if ip.fcmp('Lt', x.t, lo.t):
            return lo
        if ip.fcmp('Gt', x.t, hi.t):
            return hi
        return x
    if m == 'to_int_unchecked':
        ip.events.append(('f2i', x.t, ip.site()))
        h = ip.opts.get('f2i')
        if h:
            h(ip, x.t, f)
        return ip_f2i(ip, x, f)
    if m == 'to_bits':
        return x.t[1] if x.t[0] == 'c' else Unk('bits of a float')
    if m == 'from_bits':
        return Unk('float from bits')
    if m == 'total_cmp':
        return Unk('total_cmp')
    raise PathEnd('unknown', 'float method ' + m)


def ip_f2i(ip, x, f):
    ty = ip.p.T[f['sig'][-1]]
    w = ty['bits']
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if ty['signed'] else (0, (1 << w) - 1)
    if x.t[0] == 'c':
        y = bits2f(x.t[1])
        if y != y or abs(y) == math.inf or not lo <= int(y) <= hi:
            raise PathEnd('ub', 'unchecked conversion of %r to an integer' % y)
        return int(y)
    base, chain = ip.fdom(x.t)
    if not ip.fdecide(base, ('fit', chain, lo, hi)):
        raise PathEnd('ub', 'unchecked conversion to an integer of a number that may be out of range or not a number')
    return Obj('f2i', t=x.t, ty=f['sig'][-1])


def pred(ip, k, t):
    from absint import fpred
    if t[0] == 'c':
        return int(fpred((k,), bits2f(t[1])))
    return SymB(('fpred', k, t))


# --------------------------------------------------------------- the table
class Models:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}

    def override(self, f):
        """Functions with a body that are modelled all the same."""
        from absint import CONTRACT
        if f['unsafe'] and f['krate'] in ('core', 'alloc', 'std') and f['path'].rsplit('::', 1)[1] in CONTRACT:
            return self.lookup(f) or None
        return None

    def unwrap_unchecked(self, ip, f, a):
        t = ip.p.T[f['sig'][0]]
        want = 1 if t['path'] == 'core::option::Option' else 0
        v = ip.expand(a[0])
        if v.var != want:
            raise PathEnd('ub', 'unwrap_unchecked of nothing')
        return v.fs[0]

    def call(self, ip, f, args, destty=None):
        path = f['path']
        h = self.cache.get(path)
        if h is None:
            h = self.cache[path] = self.lookup(f)
        if h is False:
            raise PathEnd('unknown', 'no model for ' + path)
        hk = ip.opts.get('on_call')
        if hk:
            hk(ip, f, args)
        return h(ip, f, args)

    def lookup(self, f):
        path = f['path']
        m = path.rsplit('::', 1)[1]
        mm = re.match(r'^<(.*) as ([^<>]*(?:<.*>)?)>::(\w+)$', path)
        st = tr = None
        if mm:
            st, tr = mm.group(1), mm.group(2)
            tr0 = re.sub(r'<.*', '', tr)
        if f['kind'] == 'intrinsic':
            return getattr(self, 'i_' + m, False)
        if f['kind'] == 'virtual':
            return self.virtual
        if f['foreign']:
            return self.foreign
        if re.match(r'core::num::<impl u\w+>::unchecked_sub$', path):
            return self.int_unchecked_sub
        if re.match(r'core::(option::Option|result::Result)::<.*>::unwrap_unchecked$', path):
            return self.unwrap_unchecked
        if path.startswith('core::panicking::') or path in ('core::option::unwrap_failed', 'core::option::expect_failed',
                                                            'core::result::unwrap_failed', 'std::rt::begin_panic',
                                                            'core::cell::panic_already_borrowed') \
                or path.startswith(('std::rt::', 'core::result::unwrap_failed', 'core::option::unwrap_failed',
                                    'core::option::expect_failed')) or path.startswith('core::slice::index::slice_') \
                or 'panic' in m and f['sig'] and self.p.T[f['sig'][-1]]['k'] == 'never':
            return self.panic
        if re.match(r'(core|std)::f64::<impl f64>::', path) or re.match(r'core::num::<impl f64>::', path):
            return lambda ip, f, a: f64_method(ip, f, m, a)
        if '::iterator::Iterator' in path or 'double_ended::DoubleEndedIterator' in path or \
                'exact_size::ExactSizeIterator' in path or path.startswith('core::iter::adapters::peekable::') or \
                path.startswith('core::slice::iter::Iter'):
            g = getattr(self, 'it_' + m, None)
            if g:
                return g
        if path.startswith('core::iter::sources::') or path.startswith('core::iter::'):
            g = getattr(self, 'itsrc_' + m, None)
            if g:
                return g
        if tr is not None:
            g = getattr(self, 'tr_%s_%s' % (tr0.rsplit('::', 1)[1], m), None)
            if g:
                return g
        if ' for ' in path:
            k = re.search(r'<impl ([\w:]+(?:<.*?>)?) for (.*)>::(\w+)$', path)
            if k:
                g = getattr(self, 'tr_%s_%s' % (re.sub(r'<.*', '', k.group(1)).rsplit('::', 1)[1], m), None)
                if g:
                    return g
        for pre, tag in PREFIX:
            if path.startswith(pre):
                g = getattr(self, tag + '_' + m, None)
                if g:
                    return g
        # a trait method named by the trait itself
        k = re.match(r'^[\w:]+::(\w+)::(\w+)$', path)
        if k:
            g = getattr(self, 'tr_%s_%s' % k.groups(), None)
            if g:
                return g
        return False

    # ---- ranges
    def range_new(self, ip, f, a):
        if 'RangeInclusive' not in f['path']:
            return NotImplemented
        return Adt(f['sig'][-1], 0, (a[0], a[1], 0))

    def range_start(self, ip, f, a):
        return Ref(a[0].cell, a[0].path + (0,), a[0].sub) if isinstance(a[0], Ref) and a[0].sub is None else NotImplemented

    def range_end(self, ip, f, a):
        return Ref(a[0].cell, a[0].path + (1,), a[0].sub) if isinstance(a[0], Ref) and a[0].sub is None else NotImplemented

    def range_contains(self, ip, f, a):
        v = ip.expand(ip.load(a[0]))
        n = ip.p.T[v.ty]['path'].rsplit('::', 1)[1]
        x = a[1]
        while isinstance(x, Ref):
            x = ip.load(x)
        lo = v.fs[0] if n in ('Range', 'RangeFrom', 'RangeInclusive') else None
        hi = {'Range': 1, 'RangeInclusive': 1, 'RangeTo': 0, 'RangeToInclusive': 0}.get(n)
        hi = None if hi is None else v.fs[hi]

        def le(p, q, op):
            if isinstance(p, (int, Lin)) and isinstance(q, (int, Lin)):
                return ip.truth(ip.cmpint(op, p, q))
            if isinstance(p, F) and isinstance(q, F):
                return ip.truth(ip.fcmp(op, p, q))
            raise PathEnd('unknown', 'range contains')
        if lo is not None and not le(lo, x, 'Le'):
            return 0
        return int(hi is None or le(x, hi, 'Le' if 'Inclusive' in n else 'Lt'))

    def range_is_empty(self, ip, f, a):
        v = ip.expand(ip.load(a[0]))
        n = ip.p.T[v.ty]['path'].rsplit('::', 1)[1]
        if len(v.fs) == 3 and v.fs[2] == 1:
            return 1
        return int(not ip.truth(ip.cmpint('Le' if n == 'RangeInclusive' else 'Lt', v.fs[0], v.fs[1])))

    # ---- panics, foreign, virtual
    def panic(self, ip, f, a):
        msg = ''
        for x in a:
            try:
                if isinstance(x, StrV) and x.lit() is not None:
                    msg = x.lit()
                elif isinstance(x, Obj) and x.k == 'args_str':
                    msg = str(x.d['s'])
            except Exception:
                pass
        raise PathEnd('panic', f['path'].rsplit('::', 1)[1] + (': ' + msg if msg else ''))

    def foreign(self, ip, f, a):
        n = f['path'].rsplit('::', 1)[1]
        if all(isinstance(x, F) for x in a):
            return F(('fn', {'tgamma': 'gamma'}.get(n, 'ext_' + n)) + tuple(x.t for x in a))
        raise PathEnd('unknown', 'foreign function ' + f['path'])

    def virtual(self, ip, f, a):
        m = f['path'].rsplit('::', 1)[1]
        if m in ('call', 'call_mut', 'call_once'):
            return self.fn_call(ip, f, a)
        if m == 'fmt':
            return Adt(f['sig'][-1], 0, (Adt(None, 0, ()),))
        v = strip(ip, a[0])
        if isinstance(a[0], DynV):
            v = a[0].ptr
            if m == 'next':
                return self.it_next(ip, f, [v])
        raise PathEnd('unknown', 'virtual call ' + f['path'])

    def fn_call(self, ip, f, a):
        args = a[1]
        if isinstance(args, Opq):
            args = ip.expand(args)
        return ip.call_callable(strip_fn(ip, a[0]), list(args.fs), a[0] if isinstance(a[0], Ref) else None)

    tr_Fn_call = tr_FnMut_call_mut = tr_FnOnce_call_once = fn_call

    # ---- intrinsics and integer helpers
    def i_saturating_sub(self, ip, f, a):
        x, y = a
        ty = f['args'][0]
        if isinstance(x, int) and isinstance(y, int):
            lo = 0 if not ip.p.T[ty]['signed'] else -(1 << (ip.p.T[ty]['bits'] - 1))
            return max(lo, x - y)
        if not isinstance(x, (int, Lin)) or not isinstance(y, (int, Lin)):
            if isinstance(x, BF):
                x = ip.bf_val(x)
            if isinstance(y, BF):
                y = ip.bf_val(y)
            if not isinstance(x, (int, Lin)) or not isinstance(y, (int, Lin)):
                return Unk('saturating_sub')
        d = lin_add(x, y, -1)
        if isinstance(d, int):
            return max(d, 0)
        return 0 if ip.decide_neg(d) else d

    def i_saturating_add(self, ip, f, a):
        t = ip.p.T[f['args'][0]]
        if isinstance(a[0], int) and isinstance(a[1], int):
            hi = (1 << (t['bits'] - (1 if t['signed'] else 0))) - 1
            return min(hi, a[0] + a[1])
        return lin_add(a[0], a[1]) if isinstance(a[0], (int, Lin)) and isinstance(a[1], (int, Lin)) else Unk('saturating_add')

    def _wrapping(self, ip, f, a, op):
        t = f['args'][0]
        r = ip.binop_raw(op, a[0], a[1], t)
        if isinstance(r, int):
            return ip.wrap(r, t)
        if isinstance(r, BF):
            return BF(r.pos, tuple(ip.wrap(x, t) for x in r.tab))
        return r

    def i_wrapping_sub(self, ip, f, a):
        return self._wrapping(ip, f, a, 'Sub')

    def i_wrapping_add(self, ip, f, a):
        return self._wrapping(ip, f, a, 'Add')

    def i_wrapping_mul(self, ip, f, a):
        return self._wrapping(ip, f, a, 'Mul')

    i_unchecked_add, i_unchecked_sub, i_unchecked_mul = i_wrapping_add, i_wrapping_sub, i_wrapping_mul

    def i_integer_min(self, ip, f, a):
        x, y = [ip.bf_val(v) if isinstance(v, BF) else v for v in a]
        return x if ip.truth(ip.cmpint('Le', x, y)) else y

    def i_integer_max(self, ip, f, a):
        x, y = [ip.bf_val(v) if isinstance(v, BF) else v for v in a]
        return y if ip.truth(ip.cmpint('Le', x, y)) else x

    def int_unchecked_sub(self, ip, f, a):
        x, y = [ip.bf_val(v) if isinstance(v, BF) else v for v in a]
        if ip.p.T[f['sig'][-1]]['signed'] or not all(isinstance(v, (int, Lin)) for v in (x, y)):
            return NotImplemented
        if ip.truth(ip.cmpint('Lt', x, y)):
            raise PathEnd('ub', 'unchecked_sub below zero')
        return lin_add(x, y, -1)

    def i_likely(self, ip, f, a):
        return a[0]

    i_unlikely = i_black_box = i_likely

    def i_cold_path(self, ip, f, a):
        return Adt(f['sig'][-1] if f['sig'] else None, 0, ())

    i_assert_inhabited = i_assert_zero_valid = i_cold_path

    def i_discriminant_value(self, ip, f, a):
        return ip.discr(strip(ip, a[0]))

    def i_abort(self, ip, f, a):
        raise PathEnd('panic', 'abort')

    def i_unreachable(self, ip, f, a):
        ip.events.append(('unreachable_unchecked', ip.site()))
        raise PathEnd('ub', 'unreachable_unchecked')

    def i_ub_checks(self, ip, f, a):
        return 0

    def i_is_val_statically_known(self, ip, f, a):
        return 0

    def i_size_of(self, ip, f, a):
        return ip.p.T[f['args'][0]]['layout']['size']

    def i_transmute(self, ip, f, a):
        return a[0]

    def i_write_via_move(self, ip, f, a):
        ip.store(a[0], a[1])
        return Adt(None, 0, ())

    def i_read_via_copy(self, ip, f, a):
        return ip.load(a[0])

    def i_three_way_compare(self, ip, f, a):
        return self._ordering(ip, f['sig'][-1], a[0], a[1])

    def i_fabs(self, ip, f, a):
        return f64_method(ip, f, 'abs', a)

    i_fabsf64 = i_fabs

    def i_caller_location(self, ip, f, a):
        return Unk('location')

    # ---- orderings
    def _ordering(self, ip, ty, x, y):
        """Ordering has discriminants -1, 0, 1 = variants 0, 1, 2"""
        if isinstance(x, F) and isinstance(y, F):
            raise PathEnd('unknown', 'total order of floats')
        if isinstance(x, SymB) or isinstance(y, SymB):
            x, y = int(ip.truth(x)), int(ip.truth(y))
        if isinstance(x, StrV) and isinstance(y, StrV):
            return Adt(ty, 1 if ip.streq(x, y) else 0 if ip.strless(x, y) else 2, ())
        lt = ip.cmpint('Lt', x, y)
        if lt is None:
            raise PathEnd('unknown', 'comparison of %r and %r' % (x, y))
        if ip.truth(lt):
            return Adt(ty, 0, ())
        if ip.truth(ip.cmpint('Eq', x, y)):
            return Adt(ty, 1, ())
        return Adt(ty, 2, ())

    def tr_Ord_cmp(self, ip, f, a):
        return self._ordering(ip, f['sig'][-1], strip(ip, a[0]), strip(ip, a[1]))

    def tr_Ord_max(self, ip, f, a):
        if ip.truth(ip.cmpint('Lt', a[1], a[0])):
            return a[0]
        return a[1]

    def tr_Ord_min(self, ip, f, a):
        if ip.truth(ip.cmpint('Lt', a[1], a[0])):
            return a[1]
        return a[0]

    def tr_PartialOrd_partial_cmp(self, ip, f, a):
        x, y = strip(ip, a[0]), strip(ip, a[1])
        ty = f['sig'][-1]
        ot = ip.p.T[ty]['args'][0]
        if isinstance(x, F) and isinstance(y, F):
            if ip.fcmp('Lt', x.t, y.t):
                return Adt(ty, 1, (Adt(ot, 0, ()),))
            if ip.fcmp('Eq', x.t, y.t):
                return Adt(ty, 1, (Adt(ot, 1, ()),))
            if ip.fcmp('Gt', x.t, y.t):
                return Adt(ty, 1, (Adt(ot, 2, ()),))
            return Adt(ty, 0, ())
        if isinstance(x, (int, Lin, BF, SymB, StrV)) and isinstance(y, (int, Lin, BF, SymB, StrV)):
            return Adt(ty, 1, (self._ordering(ip, ot, x, y),))
        return Opq(('partial_cmp', vkey(x), vkey(y)), ty)

    def _pcmp(self, ip, f, a, op):
        x, y = strip(ip, a[0]), strip(ip, a[1])
        if isinstance(x, F) and isinstance(y, F):
            return ip.fbin(op, x, y)
        if isinstance(x, StrV) and isinstance(y, StrV):
            return int({'Lt': lambda: ip.strless(x, y), 'Gt': lambda: ip.strless(y, x),
                        'Le': lambda: not ip.strless(y, x), 'Ge': lambda: not ip.strless(x, y)}[op]())
        r = ip.cmpint(op, x, y)
        if r is None:
            raise PathEnd('unknown', 'comparison')
        return r

    def tr_PartialOrd_lt(self, ip, f, a):
        return self._pcmp(ip, f, a, 'Lt')

    def tr_PartialOrd_le(self, ip, f, a):
        return self._pcmp(ip, f, a, 'Le')

    def tr_PartialOrd_gt(self, ip, f, a):
        return self._pcmp(ip, f, a, 'Gt')

    def tr_PartialOrd_ge(self, ip, f, a):
        return self._pcmp(ip, f, a, 'Ge')

    # ---- equality
    def tr_PartialEq_eq(self, ip, f, a):
        x, y = a
        tid = f['sig'][0] if f['sig'] else None
        return self.eq(ip, tid, x, y)

    def tr_PartialEq_ne(self, ip, f, a):
        return ip.bnot(self.tr_PartialEq_eq(ip, f, a))

    def eq(self, ip, tid, x, y):
        """x and y: values (or references) of type tid"""
        t = ip.p.T[tid] if tid is not None else None
        if t is not None and t['k'] == 'ref':
            x2 = ip.load(x) if isinstance(x, Ref) else x
            y2 = ip.load(y) if isinstance(y, Ref) else y
            to = ip.p.T[t['to']]
            # user-defined equality needs references
            fid = ip.p.aux.get((t['to'], 'eq'))
            if fid is not None and ip.p.F[fid]['body'] and isinstance(x, Ref) and isinstance(y, Ref):
                return ip.call(fid, [x, y])
            return self.eq(ip, t['to'], x2, y2)
        if isinstance(x, StrV) or isinstance(y, StrV):
            return SymB(('streq', text(ip, x), text(ip, y)))
        if isinstance(x, BoxV) and isinstance(y, BoxV):
            return self.eq_inner(ip, t['args'][0] if t else None, x.cell, y.cell)
        if isinstance(x, (Seq, SeqOpq)) and isinstance(y, (Seq, SeqOpq)):
            et = (t.get('elem') if t['k'] in ('slice', 'array') else t['args'][0]) if t else None
            if ip.seq_len(x) != ip.seq_len(y):
                return 0
            cx, cy = Cell(ip.seq(x)), Cell(ip.seq(y))
            for i in range(len(cx.v.items)):
                if not ip.truth(self.eq_ref(ip, et, Ref(cx, (('i', i),)), Ref(cy, (('i', i),)))):
                    return 0
            return 1
        if isinstance(x, (Ref,)) or isinstance(y, Ref):
            return self.eq(ip, tid, strip(ip, x), strip(ip, y))
        if isinstance(x, F) and isinstance(y, F):
            return ip.fbin('Eq', x, y)
        if isinstance(x, (int, Lin, BF)) and isinstance(y, (int, Lin, BF)):
            r = ip.cmpint('Eq', x, y)
            if r is not None:
                return r
        if isinstance(x, SymB) or isinstance(y, SymB):
            return int(ip.truth(x) == ip.truth(y))
        if isinstance(x, SetV) and isinstance(y, SetV):
            if set_term(x) == set_term(y):
                return 1
            return SymB(('seteq', set_term(x), set_term(y)))
        if isinstance(x, MapV) and isinstance(y, MapV):
            return ip.opqeq(x, y)
        if isinstance(x, BytesV) and isinstance(y, (Seq,)):
            n = ip.bytes_len(x)
            if not ip.truth(ip.cmpint('Eq', n, len(y.items))):
                return 0
            for i, b in enumerate(y.items):
                if not ip.truth(ip.cmpint('Eq', ip.bytes_at(x, i), b)):
                    return 0
            return 1
        if isinstance(y, BytesV) and isinstance(x, (Seq,)):
            return self.eq(ip, None, y, x)
        if isinstance(x, (Adt, Opq)) and isinstance(y, (Adt, Opq)):
            if tid is not None:
                fid = ip.p.aux.get((tid, 'eq'))
                if fid is not None and ip.p.F[fid]['body']:
                    return ip.call(fid, [Ref(Cell(x)), Ref(Cell(y))])
            if t is not None and t['k'] == 'tuple':
                x, y = ip.expand(x), ip.expand(y)
                for e, p, q in zip(t['elems'], x.fs, y.fs):
                    if not ip.truth(self.eq(ip, e, p, q)):
                        return 0
                return 1
            if t is not None and t['k'] == 'adt' and t['path'] in ('core::option::Option', 'core::result::Result',
                                                                   'core::cmp::Ordering', 'core::ops::range::Range'):
                if ip.variant_of(x) != ip.variant_of(y):
                    return 0
                k = ip.variant_of(x)
                x, y = ip.expand(x, k), ip.expand(y, k)
                for (n, e), p, q in zip(t['variants'][k]['fields'], x.fs, y.fs):
                    if not ip.truth(self.eq(ip, e, p, q)):
                        return 0
                return 1
        return ip.opqeq(x, y)

    def eq_inner(self, ip, tid, cx, cy):
        return self.eq_ref(ip, tid, Ref(cx), Ref(cy))

    def eq_ref(self, ip, tid, rx, ry):
        fid = ip.p.aux.get((tid, 'eq')) if tid is not None else None
        if fid is not None and ip.p.F[fid]['body']:
            return ip.call(fid, [rx, ry])
        return self.eq(ip, tid, ip.load(rx), ip.load(ry))

    def slice_equal_same_length(self, ip, f, a):
        return self.eq(ip, None, strip(ip, a[0]), strip(ip, a[1]))

    # ---- clone, default, conversions
    def tr_Clone_clone(self, ip, f, a):
        v = a[0]
        if isinstance(v, Ref):
            x = ip.load(v)
            h = ip.opts.get('clone')
            return copyv(x)
        return v

    def tr_Clone_clone_from(self, ip, f, a):
        ip.store(a[0], copyv(strip(ip, a[1])))
        return Adt(None, 0, ())

    def default_of(self, ip, tid):
        t = ip.p.T[tid]
        k = t['k']
        fid = ip.p.aux.get((tid, 'default'))
        if fid is not None and ip.p.F[fid]['body']:
            return ip.call(fid, [])
        if k in ('int', 'bool', 'char'):
            return 0
        if k == 'float':
            return fconst(0.0)
        if k == 'adt':
            p = t['path']
            if p == 'alloc::vec::Vec':
                return Seq(())
            if p == 'alloc::string::String':
                return StrV(())
            if p.endswith('::HashMap'):
                return MapV(None, (), t['args'][1])
            if p.endswith('::HashSet'):
                return SetV(())
            if p == 'core::option::Option':
                return Adt(tid, 0, ())
            if t.get('box'):
                return BoxV(Cell(self.default_of(ip, t['args'][0])))
            if p.endswith('RandomState') or p.endswith('Global'):
                return Adt(tid, 0, ())
        if k == 'tuple':
            return Adt(tid, 0, tuple(self.default_of(ip, e) for e in t['elems']))
        if k == 'ref':
            to = ip.p.T[t['to']]
            if to['k'] == 'str':
                return StrV(())
            if to['k'] == 'slice':
                return Ref(Cell(Seq(())))
        raise PathEnd('unknown', 'default of ' + t['name'])

    def tr_Default_default(self, ip, f, a):
        return self.default_of(ip, f['sig'][-1])

    def tr_From_from(self, ip, f, a):
        ty = f['sig'][-1]
        t = ip.p.T[ty]
        v = a[0]
        if t['k'] == 'adt':
            p = t['path']
            if p == 'miette::protocol::SourceSpan':
                return self.span(ip, v)
            if p == 'alloc::string::String':
                if isinstance(strip(ip, v), (int, BF, Opq)):
                    return char_text(ip, strip(ip, v))
                return text(ip, v)
            if p.endswith('::HashMap'):
                return self.collect_into(ip, ty, to_it(ip, v))
            if p.endswith('::HashSet'):
                return self.collect_into(ip, ty, to_it(ip, v))
            if p == 'alloc::vec::Vec':
                if isinstance(v, BoxV):
                    return v.cell.v
                if isinstance(v, Ref):
                    return Seq(tuple(copyv(ip.load(x)) for x in slice_items(ip, v)))
                return v
            if p == 'core::option::Option':
                return Adt(ty, 1, (v,))
            if t.get('box'):
                it = ip.p.T[t['args'][0]]
                if isinstance(v, (Seq, SeqOpq)) or it['k'] != 'dyn':
                    return BoxV(Cell(v))
                return BoxV(Cell(Obj('dynbox', v=BoxV(Cell(v)), ty=f['sig'][0])))
            if p.endswith('::Arc') or p.endswith('::Rc'):
                if isinstance(v, BoxV):
                    return ArcV(v.cell, ip.fresh('arc'))
                return ArcV(Cell(v), ip.fresh('arc'))
            if p.endswith('::Cow'):
                return Obj('cow', s=text(ip, v))
        if t['k'] == 'char':
            return v
        if t['k'] == 'int':
            if isinstance(v, SymB):
                return int(ip.truth(v))
            return v
        if t['k'] == 'float':
            n = ip.int_val(v)
            if n is not None:
                return fconst(float(n))
            return F(('i2f', vkey(v)))
        raise PathEnd('unknown', 'conversion into ' + t['name'])

    def tr_Into_into(self, ip, f, a):
        return self.tr_From_from(ip, f, a)

    def span(self, ip, v):
        v = strip(ip, v)
        if isinstance(v, (int, Lin)):
            return Obj('span', off=v, len=0)
        if isinstance(v, Obj) and v.k == 'span':
            return v
        if isinstance(v, (Adt, Opq)):
            v = ip.expand(v)
            t = ip.p.T[v.ty]
            if t['k'] == 'tuple':
                return Obj('span', off=self._so(v.fs[0]), len=v.fs[1])
            n = t['path'].rsplit('::', 1)[1]
            if n == 'Range':
                d = lin_add(v.fs[1], v.fs[0], -1) if all(isinstance(x, (int, Lin)) for x in v.fs) else None
                if d is None:
                    raise PathEnd('unknown', 'span')
                if (d if isinstance(d, int) else 0) < 0:
                    d = 0
                elif isinstance(d, Lin) and ip.decide_neg(d):
                    d = 0
                return Obj('span', off=v.fs[0], len=d)
            if n == 'RangeInclusive':
                return Obj('span', off=v.fs[0], len=lin_add(lin_add(v.fs[1], v.fs[0], -1), 1))
            if n == 'SourceOffset':
                return Obj('span', off=v.fs[0], len=0)
        raise PathEnd('unknown', 'span of %r' % (v,))

    @staticmethod
    def _so(v):
        if isinstance(v, Obj) and v.k == 'span':
            return v.d['off']
        if isinstance(v, Adt) and len(v.fs) == 1:
            return v.fs[0]
        return v

    def miette_new(self, ip, f, a):
        if 'SourceSpan' in f['path']:
            return Obj('span', off=self._so(a[0]), len=a[1])
        return Obj('label', a=a)

    def miette_new_with_span(self, ip, f, a):
        return Obj('label', text=a[0], span=self.span(ip, a[1]))

    def miette_offset(self, ip, f, a):
        return strip(ip, a[0]).d['off']

    def miette_len(self, ip, f, a):
        return strip(ip, a[0]).d['len']

    def tr_Try_branch(self, ip, f, a):
        return NotImplemented

    def tr_AsRef_as_ref(self, ip, f, a):
        v = a[0]
        if isinstance(v, Ref):
            x = ip.load(v)
            if isinstance(x, ArcV):
                if isinstance(x.cell.v, DynV):
                    return x.cell.v
                if isinstance(x.cell.v, FnOpq):
                    return DynV(x.cell.v, None)
                return Ref(x.cell)
            if isinstance(x, BoxV):
                if isinstance(x.cell.v, Obj) and x.cell.v.k == 'dynbox':
                    return DynV(x.cell.v.d['v'], x.cell.v.d['ty'])
                return Ref(x.cell)
            if isinstance(x, StrV):
                return x
            return v
        return v

    tr_Deref_deref = tr_Borrow_borrow = tr_AsRef_as_ref

    def tr_DerefMut_deref_mut(self, ip, f, a):
        return self.tr_AsRef_as_ref(ip, f, a)

    tr_AsMut_as_mut = tr_BorrowMut_borrow_mut = tr_DerefMut_deref_mut

    def tr_AsDisplay_as_display(self, ip, f, a):
        return a[0]

    def tr_ToOwned_to_owned(self, ip, f, a):
        v = a[0]
        if isinstance(v, StrV):
            return v
        v2 = strip(ip, v)
        if isinstance(v2, (Seq, SeqOpq)):
            return copyv(ip.load(v)) if isinstance(v, Ref) else v
        return copyv(v2)

    tr_ToOwned_clone_into = None

    def tr_ToString_to_string(self, ip, f, a):
        out = []
        ty = f['args'][0] if f['args'] else ip.p.T[f['sig'][0]]['to']
        display(ip, ty, a[0], out)
        return mkstr(out)

    def tr_SpecToString_spec_to_string(self, ip, f, a):
        return self.tr_ToString_to_string(ip, f, a)

    def tr_FromStr_from_str(self, ip, f, a):
        return self.str_parse(ip, f, a)

    def tr_Drop_drop(self, ip, f, a):
        return Adt(None, 0, ())

    def tr_Index_index(self, ip, f, a):
        v, i = a
        x = v
        if isinstance(v, Ref):
            x = ip.load(v)
        if isinstance(x, MapV):
            c = map_get(ip, x, text(ip, i))
            if c is None:
                raise PathEnd('panic', 'missing key')
            return Ref(c)
        if isinstance(x, StrV):
            return self._str_index(ip, x, i)
        r = self._slice_get(ip, v, i)
        if r is None:
            raise PathEnd('panic', 'index out of range')
        return r

    tr_IndexMut_index_mut = tr_Index_index

    def tr_SliceIndex_index(self, ip, f, a):
        return self.tr_Index_index(ip, f, [a[1], a[0]])

    tr_SliceIndex_index_mut = tr_SliceIndex_index

    def tr_Hash_hash(self, ip, f, a):
        return Adt(None, 0, ())

    def tr_Debug_fmt(self, ip, f, a):
        fm = fmt_of(ip, a[1])
        display(ip, ip.p.T[f['sig'][0]]['to'], a[0], fm.d['parts'], 'debug')
        return Adt(f['sig'][-1], 0, (Adt(None, 0, ()),))

    def tr_Display_fmt(self, ip, f, a):
        fm = fmt_of(ip, a[1])
        display(ip, ip.p.T[f['sig'][0]]['to'], a[0], fm.d['parts'])
        return Adt(f['sig'][-1], 0, (Adt(None, 0, ()),))

    def tr_Write_write_str(self, ip, f, a):
        x = strip(ip, a[0])
        if isinstance(x, Obj) and x.k == 'fmt':
            return self.fmt_write_str(ip, f, a)
        ip.store(a[0], mkstr(text(ip, a[0]).parts + text(ip, a[1]).parts))
        return Adt(f['sig'][-1], 0, (Adt(None, 0, ()),))

    def tr_Write_write_fmt(self, ip, f, a):
        x = strip(ip, a[0])
        if isinstance(x, Obj) and x.k == 'fmt':
            return self.fmt_write_fmt(ip, f, a)
        out = []
        fmt_args(ip, strip(ip, a[1]), out)
        ip.store(a[0], mkstr(text(ip, a[0]).parts + tuple(out)))
        return Adt(f['sig'][-1], 0, (Adt(None, 0, ()),))

    def tr_Write_write_char(self, ip, f, a):
        x = strip(ip, a[0])
        if isinstance(x, Obj) and x.k == 'fmt':
            return self.fmt_write_char(ip, f, a)
        return self.string_push(ip, f, a)

    # ---- mem, ptr, hint
    def mem_replace(self, ip, f, a):
        old = ip.load(a[0])
        ip.store(a[0], a[1])
        return old

    def mem_take(self, ip, f, a):
        old = ip.load(a[0])
        ip.store(a[0], self.default_of(ip, f['sig'][-1]))
        return old

    def mem_swap(self, ip, f, a):
        x, y = ip.load(a[0]), ip.load(a[1])
        ip.store(a[0], y)
        ip.store(a[1], x)
        return Adt(None, 0, ())

    def mem_drop(self, ip, f, a):
        return Adt(None, 0, ())

    mem_forget = mem_drop

    def mem_size_of(self, ip, f, a):
        return ip.p.T[f['args'][0]]['layout']['size']

    def mem_discriminant(self, ip, f, a):
        return ip.discr(strip(ip, a[0]))

    def mem_transmute(self, ip, f, a):
        return a[0]

    def ptr_read(self, ip, f, a):
        return ip.load(a[0])

    def ptr_write(self, ip, f, a):
        ip.store(a[0], a[1])
        return Adt(None, 0, ())

    def ptr_eq(self, ip, f, a):
        return ip.ptreq(a[0], a[1])

    ptr_addr_eq = ptr_fn_addr_eq = ptr_eq

    def ptr_from_ref(self, ip, f, a):
        return a[0]

    ptr_from_mut = ptr_as_ref = ptr_from_ref

    def ptr_replace(self, ip, f, a):
        return self.mem_replace(ip, f, a)

    def ptr_drop_in_place(self, ip, f, a):
        return Adt(None, 0, ())

    def hint_must_use(self, ip, f, a):
        return a[0]

    hint_black_box = hint_must_use

    def hint_unreachable_unchecked(self, ip, f, a):
        return self.i_unreachable(ip, f, a)

    def hint_assert_unchecked(self, ip, f, a):
        if not ip.truth(a[0]):
            raise PathEnd('ub', 'assert_unchecked')
        return Adt(None, 0, ())

    # ---- Box, Arc
    def box_new(self, ip, f, a):
        return BoxV(Cell(a[0]))

    def box_new_uninit(self, ip, f, a):
        """Box<MaybeUninit<T>>: the union is the pair ((), ManuallyDrop<T>)."""
        u = ip.p.T[f['sig'][-1]]['args'][0]
        md = ip.p.T[u]['variants'][0]['fields'][1][1]
        return BoxV(Cell(Adt(u, 0, (Unk('uninit'), Adt(md, 0, (Unk('uninit'),))))))

    def box_box_assume_init_into_vec_unsafe(self, ip, f, a):
        v = a[0].cell.v.fs[1].fs[0]
        if isinstance(v, Unk):
            raise PathEnd('ub', 'uninitialised memory')
        return ip.seq(v)

    def box_into_inner(self, ip, f, a):
        return a[0].cell.v

    def box_leak(self, ip, f, a):
        return Ref(a[0].cell)

    box_into_raw = box_as_ptr = box_leak

    def box_from_raw(self, ip, f, a):
        return BoxV(a[0].cell)

    def box_as_ref(self, ip, f, a):
        return self.tr_AsRef_as_ref(ip, f, a)

    def arc_new(self, ip, f, a):
        return ArcV(Cell(a[0]), ip.fresh('arc'))

    def arc_ptr_eq(self, ip, f, a):
        x, y = strip(ip, a[0]), strip(ip, a[1])
        if vkey(x.id) == vkey(y.id):
            return 1
        return SymB(('ptreq',) + tuple(sorted((('arc', x.id), ('arc', y.id)), key=repr)))

    def arc_as_ptr(self, ip, f, a):
        x = strip(ip, a[0])
        return ArcV(x.cell, x.id)

    def arc_strong_count(self, ip, f, a):
        return ip.opq(('strong', ip.fresh('n')), f['sig'][-1])

    # ---- Vec and slices
    def vec_new(self, ip, f, a):
        return Seq(())

    vec_with_capacity = vec_new

    def vec_reserve(self, ip, f, a):
        return Adt(None, 0, ())

    vec_shrink_to_fit = vec_reserve_exact = vec_reserve

    def vec_push(self, ip, f, a):
        s = ip.seq(ip.load(a[0]))
        ip.store(a[0], Seq(s.items + (a[1],)))
        h = ip.opts.get('on_push')
        if h:
            h(ip, a[0])
        return Adt(None, 0, ())

    def vec_pop(self, ip, f, a):
        s = ip.seq(ip.load(a[0]))
        ty = f['sig'][-1]
        if not s.items:
            return Adt(ty, 0, ())
        ip.store(a[0], Seq(s.items[:-1]))
        return Adt(ty, 1, (s.items[-1],))

    def vec_insert(self, ip, f, a):
        s = ip.seq(ip.load(a[0]))
        i = ip.int_val(a[1])
        if i is None:
            raise PathEnd('unknown', 'insert index')
        if i > len(s.items):
            raise PathEnd('panic', 'insertion index')
        ip.store(a[0], Seq(s.items[:i] + (a[2],) + s.items[i:]))
        return Adt(None, 0, ())

    def vec_remove(self, ip, f, a):
        s = ip.seq(ip.load(a[0]))
        i = ip.int_val(a[1])
        if i is None:
            raise PathEnd('unknown', 'remove index')
        if i >= len(s.items):
            raise PathEnd('panic', 'removal index')
        ip.store(a[0], Seq(s.items[:i] + s.items[i + 1:]))
        return s.items[i]

    def vec_swap_remove(self, ip, f, a):
        s = ip.seq(ip.load(a[0]))
        i = ip.int_val(a[1])
        if i is None:
            raise PathEnd('unknown', 'remove index')
        if i >= len(s.items):
            raise PathEnd('panic', 'removal index')
        it = list(s.items)
        x = it[i]
        it[i] = it[-1]
        it.pop()
        ip.store(a[0], Seq(tuple(it)))
        return x

    def vec_truncate(self, ip, f, a):
        s = ip.seq(ip.load(a[0]))
        ip.store(a[0], Seq(s.items[:ip.int_val(a[1])]))
        return Adt(None, 0, ())

    def vec_clear(self, ip, f, a):
        ip.store(a[0], Seq(()))
        return Adt(None, 0, ())

    def vec_append(self, ip, f, a):
        ip.store(a[0], Seq(ip.seq(ip.load(a[0])).items + ip.seq(ip.load(a[1])).items))
        ip.store(a[1], Seq(()))
        return Adt(None, 0, ())

    def vec_extend_from_slice(self, ip, f, a):
        ip.store(a[0], Seq(ip.seq(ip.load(a[0])).items + tuple(copyv(ip.load(x)) for x in slice_items(ip, a[1]))))
        return Adt(None, 0, ())

    def tr_Extend_extend(self, ip, f, a):
        x = ip.load(a[0])
        it = to_it(ip, a[1])
        if isinstance(x, (Seq, SeqOpq)):
            items = list(ip.seq(x).items)
            while True:
                v = it.next(ip)
                if v is END:
                    break
                items.append(deref(ip, v) if isinstance(v, Ref) and '&' in f['path'].split(' as ')[1] else v)
            ip.store(a[0], Seq(tuple(items)))
        elif isinstance(x, SetV):
            w = whole_set(it)
            if w is not None and not x.minus:
                ip.store(a[0], SetV(x.parts + tuple(p for p in w.parts if p not in x.parts)))
                return Adt(None, 0, ())
            while True:
                v = it.next(ip)
                if v is END:
                    break
                x = set_add(x, text(ip, v))
            ip.store(a[0], x)
        elif isinstance(x, StrV):
            while True:
                v = it.next(ip)
                if v is END:
                    break
                v = strip(ip, v)
                x = mkstr(x.parts + (v.parts if isinstance(v, StrV) else char_text(ip, v).parts))
            ip.store(a[0], x)
        elif isinstance(x, MapV):
            es = x.entries
            if isinstance(it, MapIt):
                ip.store(a[0], MapV(x.base, es + ((None, Cell(it.m)),), x.vty))
                return Adt(None, 0, ())
            while True:
                v = it.next(ip)
                if v is END:
                    break
                v = ip.expand(v)
                es = es + ((text(ip, v.fs[0]), Cell(v.fs[1])),)
            ip.store(a[0], MapV(x.base, es, x.vty))
        else:
            raise PathEnd('unknown', 'extend')
        return Adt(None, 0, ())

    def vec_len(self, ip, f, a):
        return slice_len(ip, a[0])

    slice_len = vec_len

    def vec_is_empty(self, ip, f, a):
        n = slice_len(ip, a[0])
        return ip.cmpint('Eq', n, 0)

    slice_is_empty = vec_is_empty

    def vec_as_slice(self, ip, f, a):
        return a[0]

    vec_as_mut_slice = slice_as_slice = vec_as_slice

    def slice_from_ref(self, ip, f, a):
        return Ref(Cell(Seq((ip.load(a[0]),))))

    def vec_into_boxed_slice(self, ip, f, a):
        return BoxV(Cell(a[0]))

    def vec_drain(self, ip, f, a):
        s = ip.seq(ip.load(a[0]))
        r = ip.expand(a[1]) if isinstance(a[1], (Adt, Opq)) else None
        if r is not None and ip.p.T[r.ty]['path'].endswith('RangeFull'):
            ip.store(a[0], Seq(()))
            return ListIt(list(s.items))
        raise PathEnd('unknown', 'drain')

    def slice_into_vec(self, ip, f, a):
        b = a[0]
        if isinstance(b, BoxV):
            return b.cell.v
        raise PathEnd('unknown', 'into_vec')

    def slice_to_vec(self, ip, f, a):
        return Seq(tuple(copyv(ip.load(x)) for x in slice_items(ip, a[0])))

    def slice_iter(self, ip, f, a):
        return to_it(ip, a[0])

    slice_iter_mut = slice_iter

    def slice_first(self, ip, f, a):
        r = self._slice_get(ip, a[0], 0)
        ty = f['sig'][-1]
        return Adt(ty, 0, ()) if r is None else Adt(ty, 1, (r,))

    def slice_last(self, ip, f, a):
        n = slice_len(ip, a[0])
        ty = f['sig'][-1]
        if isinstance(n, int) and n == 0 or isinstance(n, Lin) and ip.decide_zero(n):
            return Adt(ty, 0, ())
        r = self._slice_get(ip, a[0], lin_add(n, -1))
        return Adt(ty, 0, ()) if r is None else Adt(ty, 1, (r,))

    def slice_get(self, ip, f, a):
        r = self._slice_get(ip, a[0], a[1])
        ty = f['sig'][-1]
        return Adt(ty, 0, ()) if r is None else Adt(ty, 1, (r,))

    slice_get_mut = slice_get

    def slice_get_unchecked(self, ip, f, a):
        r = self._slice_get(ip, a[0], a[1])
        if r is None:
            raise PathEnd('ub', 'get_unchecked out of range')
        return r

    slice_get_unchecked_mut = slice_get_unchecked

    def _bounds(self, ip, v, n):
        """(lo, hi) of a range value"""
        v = ip.expand(v)
        k = ip.p.T[v.ty]['path'].rsplit('::', 1)[1]
        if k == 'Range':
            return v.fs[0], v.fs[1]
        if k == 'RangeFrom':
            return v.fs[0], n
        if k == 'RangeTo':
            return 0, v.fs[0]
        if k == 'RangeFull':
            return 0, n
        if k == 'RangeInclusive':
            return v.fs[0], lin_add(v.fs[1], 1)
        if k == 'RangeToInclusive':
            return 0, lin_add(v.fs[0], 1)
        raise PathEnd('unknown', 'range ' + k)

    def _slice_get(self, ip, v, i):
        """Reference to the indexed part, or None if out of range."""
        x = v
        if isinstance(v, Ref):
            x = ip.load(v) if v.sub is None else v
            if isinstance(x, (BytesV,)):
                v = x
        if isinstance(v, BoxV):
            v = Ref(v.cell)
        if isinstance(i, (Adt, Opq)):
            n = slice_len(ip, v)
            lo, hi = self._bounds(ip, i, n)
            if not all(isinstance(z, (int, Lin)) for z in (lo, hi)):
                raise PathEnd('unknown', 'slice bounds')
            d = lin_add(hi, lo, -1)
            if ip.decide_neg(d) if isinstance(d, Lin) else d < 0:
                return None
            d = lin_add(n, hi, -1)
            if d != 0 and (ip.decide_neg(d) if isinstance(d, Lin) else d < 0):
                return None
            if isinstance(v, BytesV):
                open_end = v.hi is None and hi == n
                return BytesV(v.src, lin_add(v.lo, lo), None if open_end else lin_add(v.lo, hi))
            lo, hi = ip.int_val(lo), ip.int_val(hi)
            if lo is None or hi is None:
                raise PathEnd('unknown', 'slice bounds')
            base = v.sub[0] if v.sub is not None else 0
            return Ref(v.cell, v.path, (base + lo, base + hi))
        if isinstance(v, BytesV):
            n = ip.bytes_len(v)
            if not isinstance(i, (int, Lin)):
                raise PathEnd('unknown', 'byte index')
            if not ip.decide_neg(lin_add(i, n, -1)):
                return None
            return Ref(Cell(ip.bytes_at(v, i)))
        n = slice_len(ip, v)
        if isinstance(i, Obj) and i.k == 'f2i':
            if not isinstance(n, int) or not ip.truth(ip.cmpint('Lt', i, n)):
                return None
            k = ip.index(v.cell, v.path, i)
        else:
            if isinstance(i, Lin):
                c = ip.cmpint('Lt', i, n)
                if not ip.truth(c):
                    return None
                k = ip.index(v.cell, v.path, i)
            else:
                k = ip.int_val(i)
        if k is None:
            raise PathEnd('unknown', 'index %r' % (i,))
        if not 0 <= k < n:
            return None
        base = v.sub[0] if v.sub is not None else 0
        return Ref(v.cell, v.path + (('i', base + k),))

    def slice_join(self, ip, f, a):
        sep = text(ip, a[1])
        parts = []
        for i, x in enumerate(slice_items(ip, a[0])):
            if i:
                parts += list(sep.parts)
            parts += list(text(ip, ip.load(x)).parts)
        return mkstr(parts)

    def slice_concat(self, ip, f, a):
        parts = []
        for x in slice_items(ip, a[0]):
            parts += list(text(ip, ip.load(x)).parts)
        return mkstr(parts)

    def slice_contains(self, ip, f, a):
        et = f['args'][0]
        for x in slice_items(ip, a[0]):
            if ip.truth(self.eq_ref(ip, et, x, a[1] if isinstance(a[1], Ref) else Ref(Cell(a[1])))):
                return 1
        return 0

    def slice_split_first(self, ip, f, a):
        n = slice_len(ip, a[0])
        ty = f['sig'][-1]
        if isinstance(n, int) and n == 0 or isinstance(n, Lin) and ip.decide_zero(n):
            return Adt(ty, 0, ())
        tt = ip.p.T[ty]['args'][0]
        v = a[0]
        if isinstance(v, BytesV):
            return Adt(ty, 1, (Adt(tt, 0, (Ref(Cell(ip.bytes_at(v, 0))), BytesV(v.src, lin_add(v.lo, 1), v.hi))),))
        lo, hi = v.sub if v.sub is not None else (0, n)
        return Adt(ty, 1, (Adt(tt, 0, (Ref(v.cell, v.path + (('i', lo),)), Ref(v.cell, v.path, (lo + 1, hi)))),))

    def slice_swap(self, ip, f, a):
        items = slice_items(ip, a[0])
        i, j = ip.int_val(a[1]), ip.int_val(a[2])
        x, y = ip.load(items[i]), ip.load(items[j])
        ip.store(items[i], y)
        ip.store(items[j], x)
        return Adt(None, 0, ())

    def slice_reverse(self, ip, f, a):
        items = slice_items(ip, a[0])
        vs = [ip.load(x) for x in items]
        for x, v in zip(items, reversed(vs)):
            ip.store(x, v)
        return Adt(None, 0, ())

    def vec_dedup(self, ip, f, a):
        v = ip.seq(ip.load(a[0]))
        et = f['args'][0]
        out = []
        for x in v.items:
            if not out or not ip.truth(self.eq_ref(ip, et, Ref(Cell(out[-1])), Ref(Cell(x)))):
                out.append(x)
        ip.store(a[0], Seq(tuple(out)))
        return Adt(None, 0, ())

    def _sort(self, ip, a, less):
        items = slice_items(ip, a)
        out = []
        for x in [ip.load(x) for x in items]:
            lo, hi = 0, len(out)
            while lo < hi:
                m = (lo + hi) // 2
                if less(x, out[m]):
                    hi = m
                else:
                    lo = m + 1
            out.insert(lo, x)
        for r, v in zip(items, out):
            ip.store(r, v)
        return Adt(None, 0, ())

    def slice_sort(self, ip, f, a):
        return self._sort(ip, a[0], lambda x, y: self.less(ip, x, y))

    def slice_sort_by(self, ip, f, a):
        return self._sort(ip, a[0], lambda x, y: ip.variant_of(
            ip.call_callable(a[1], [Ref(Cell(x)), Ref(Cell(y))], Ref(Cell(a[1])))) == 0)

    def slice_sort_by_key(self, ip, f, a):
        key = lambda x: ip.call_callable(a[1], [Ref(Cell(x))], Ref(Cell(a[1])))
        return self._sort(ip, a[0], lambda x, y: self.less(ip, key(x), key(y)))

    slice_sort_unstable, slice_sort_unstable_by = slice_sort, slice_sort_by
    slice_sort_unstable_by_key = slice_sort_by_cached_key = slice_sort_by_key

    def less(self, ip, x, y):
        x, y = strip(ip, x), strip(ip, y)
        if isinstance(x, StrV) and isinstance(y, StrV):
            return ip.strless(x, y)
        if isinstance(x, (int, Lin, BF, SymB)) and isinstance(y, (int, Lin, BF, SymB)):
            return ip.truth(ip.cmpint('Lt', x, y))
        if isinstance(x, Adt) and isinstance(y, Adt) and ip.p.T.get(x.ty, {}).get('k') == 'tuple':
            for p, q in zip(x.fs, y.fs):
                if self.less(ip, p, q):
                    return True
                if self.less(ip, q, p):
                    return False
            return False
        raise PathEnd('unknown', 'order of %r and %r' % (x, y))

    def tr_IntoIterator_into_iter(self, ip, f, a):
        v = a[0]
        if isinstance(v, Ref):
            x = ip.read_path(v.cell.v, v.path)
            if isinstance(x, It):
                return v       # by reference
        return to_it(ip, v)

    def array_map(self, ip, f, a):
        s = ip.seq(a[0])
        c = Cell(a[1])
        return Seq(tuple(ip.call_callable(c.v, [x], Ref(c)) for x in s.items))

    def array_each_ref(self, ip, f, a):
        return Seq(tuple(slice_items(ip, a[0])))

    def array_as_slice(self, ip, f, a):
        return a[0]

    def array_from_fn(self, ip, f, a):
        n = ip.p.T[f['sig'][-1]]['len']
        c = Cell(a[0])
        return Seq(tuple(ip.call_callable(c.v, [i], Ref(c)) for i in range(n)))

    # ---- text
    def string_new(self, ip, f, a):
        return StrV(())

    string_with_capacity = string_new

    def string_push_str(self, ip, f, a):
        ip.store(a[0], mkstr(text(ip, a[0]).parts + text(ip, a[1]).parts))
        return Adt(None, 0, ())

    def string_push(self, ip, f, a):
        ip.store(a[0], mkstr(text(ip, a[0]).parts + char_text(ip, a[1]).parts))
        return Adt(None, 0, ())

    def string_as_str(self, ip, f, a):
        return text(ip, a[0])

    def string_clear(self, ip, f, a):
        ip.store(a[0], StrV(()))
        return Adt(None, 0, ())

    def string_reserve(self, ip, f, a):
        return Adt(None, 0, ())

    def string_len(self, ip, f, a):
        return ip.str_len(ip.canon_str(text(ip, a[0])))

    def string_is_empty(self, ip, f, a):
        return ip.cmpint('Eq', self.string_len(ip, f, a), 0)

    def string_into_boxed_str(self, ip, f, a):
        return BoxV(Cell(a[0]))

    def string_as_bytes(self, ip, f, a):
        return self.str_as_bytes(ip, f, a)

    string_into_bytes = string_as_bytes

    def string_from_utf8_unchecked(self, ip, f, a):
        return self.str_from_utf8_unchecked(ip, f, a)

    def str_len(self, ip, f, a):
        return ip.str_len(ip.canon_str(text(ip, a[0])))

    def str_is_empty(self, ip, f, a):
        s = ip.canon_str(text(ip, a[0]))
        return ip.cmpint('Eq', ip.str_len(s), 0)

    def str_as_bytes(self, ip, f, a):
        s = ip.canon_str(text(ip, a[0]))
        l = s.lit()
        if l is not None:
            return Ref(Cell(Seq(tuple(l.encode()))))
        p = s.parts[0]
        if len(s.parts) == 1 and p[0] == 'slice':
            return BytesV(p[1], p[2], p[3])
        if len(s.parts) == 1 and p == ('s', 'input'):
            return BytesV('input')
        raise PathEnd('unknown', 'bytes of %r' % (s,))

    def str_as_ptr(self, ip, f, a):
        return self.str_as_bytes(ip, f, a)

    def str_bytes(self, ip, f, a):
        return Adapter('copied', to_it(ip, self.str_as_bytes(ip, f, a)))

    def str_to_owned(self, ip, f, a):
        return text(ip, a[0])

    str_into_string = str_into_boxed_str = str_to_owned

    def _str_fn(self, ip, f, a):
        """A text function of an opaque text: an opaque text (the functions are neither injective nor the identity)."""
        s = text(ip, a[0])
        if s.lit() is None and not all(isinstance(p, tuple) and p[0] == 's' and p != ('s', 'input') for p in s.parts):
            raise PathEnd('unknown', '%s of %r' % (f['path'], s))
        m = f['path'].rsplit('::', 1)[1]
        l = s.lit()
        if l is not None:
            py = {'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip, 'to_lowercase': str.lower,
                  'to_uppercase': str.upper, 'to_ascii_lowercase': str.lower, 'to_ascii_uppercase': str.upper}.get(m)
            if py is None or not l.isascii():
                raise PathEnd('unknown', '%s of %r' % (f['path'], s))
            return StrV((py(l),)) if py(l) else StrV(())
        return StrV((('s', ('strfn', m, s, tuple(vkey(x) for x in a[1:]))),))

    str_trim = str_trim_start = str_trim_end = str_trim_matches = str_trim_start_matches = _str_fn
    str_trim_end_matches = str_to_lowercase = str_to_uppercase = str_to_ascii_lowercase = _str_fn
    str_to_ascii_uppercase = str_trim_left = str_trim_right = _str_fn

    def str_chars(self, ip, f, a):
        return CharsIt(text(ip, a[0]))

    def _bytes_text(self, ip, b):
        if isinstance(b, BytesV):
            if b.lo == 0 and b.hi is None and b.src == 'input':
                return StrV((('s', 'input'),))
            if b.hi is not None and lin_add(b.hi, b.lo, -1) == 0:
                return StrV(())
            return StrV((('slice', b.src, b.lo, b.hi),))
        s = strip(ip, b)
        if isinstance(b, Ref):
            s = ip.load(b)
        if isinstance(s, Seq):
            if all(isinstance(x, int) for x in s.items):
                try:
                    return mkstr([bytes(s.items).decode()])
                except UnicodeDecodeError:
                    return None
            if all(isinstance(x, (int, BF)) for x in s.items):
                out = []
                for x in s.items:
                    if isinstance(x, int):
                        if x >= 128:
                            return Unk('text')
                        out.append(chr(x))
                    else:
                        out.append(('char', x))
                return mkstr(out)
        return Unk('text of %r' % (b,))

    def str_from_utf8_unchecked(self, ip, f, a):
        h = ip.opts.get('utf8')
        b = a[0]
        if isinstance(b, Ref) and isinstance(ip.load(b), BytesV):
            b = ip.load(b)
        if h:
            h(ip, b)
        r = self._bytes_text(ip, b)
        if r is None:
            raise PathEnd('ub', 'invalid utf-8')
        return r

    def str_from_utf8(self, ip, f, a):
        ty = f['sig'][-1]
        et = ip.p.T[ty]['args'][1]
        b = a[0]
        if isinstance(b, BytesV):
            ok = boundary(ip, b.lo)
            if b.hi is not None:
                ok = ok and boundary(ip, b.hi)
        else:
            ok = True
        s = self._bytes_text(ip, b) if ok else None
        if s is not None:
            return Adt(ty, 0, (s,))
        return Adt(ty, 1, (Opq(('utf8error', ip.fresh('e')), et),))

    def str_parse(self, ip, f, a):
        ty = f['sig'][-1]
        t = ip.p.T[ty]
        s = ip.canon_str(text(ip, a[0]))
        h = ip.opts.get('parse')
        if h:
            r = h(ip, s, ty)
            if r is not None:
                return r
        vt, et = t['args'][0], t['args'][1]
        if ip.p.T[vt]['k'] == 'float' and ip.p.T[vt]['bits'] == 64:
            if s.lit() is not None:
                ok = re.fullmatch(r'[+-]?(inf|infinity|nan|(\d+\.?\d*|\.\d+)(e[+-]?\d+)?)', s.lit(), re.I | re.A)
                if ok:
                    return Adt(ty, 0, (fconst(float(s.lit())),))
                return Adt(ty, 1, (Opq(('parseerr', s), et),))
            if ip.decide(('parses', s)):
                return Adt(ty, 0, (F(('parse', s)),))
            return Adt(ty, 1, (Opq(('parseerr', s), et),))
        raise PathEnd('unknown', 'parse into ' + ip.p.T[vt]['name'])

    def str_replace(self, ip, f, a):
        s = ip.canon_str(text(ip, a[0]))
        pat = strip(ip, a[1])
        to = text(ip, a[2])
        pk = vkey(pat)
        if isinstance(pat, StrV) and pat.lit() is not None and len(pat.lit()) == 1:
            pk = ord(pat.lit())
        if s.lit() is not None and isinstance(pk, int) and to.lit() is not None:
            return mkstr([s.lit().replace(chr(pk), to.lit())])
        return StrV((('replace', s, pk, to),))

    def str_contains(self, ip, f, a):
        s = ip.canon_str(text(ip, a[0]))
        pat = strip(ip, a[1])
        return SymB(('contains', s, vkey(pat)))

    def str_starts_with(self, ip, f, a):
        s = ip.canon_str(text(ip, a[0]))
        pat = strip(ip, a[1])
        l = s.lit()
        pl = chr(pat) if isinstance(pat, int) else pat.lit() if isinstance(pat, StrV) else None
        if l is not None and pl is not None:
            return int(l.startswith(pl))
        p = s.parts[0] if s.parts else None
        if pl is not None and len(pl) == 1 and p is not None and p[0] == 'slice' and p[3] is None and ord(pl) < 128:
            return int(ip.split(p[2], frozenset((ord(pl),))))
        return SymB(('starts_with', s, vkey(pat)))

    def str_ends_with(self, ip, f, a):
        return SymB(('ends_with', ip.canon_str(text(ip, a[0])), vkey(strip(ip, a[1]))))

    def _str_fun(n):
        def g(self, ip, f, a):
            s = ip.canon_str(text(ip, a[0]))
            if s.lit() is not None:
                l = s.lit()
                return mkstr([{'trim': l.strip, 'trim_start': l.lstrip, 'trim_end': l.rstrip,
                               'to_lowercase': l.lower, 'to_uppercase': l.upper, 'to_ascii_lowercase': l.lower,
                               'to_ascii_uppercase': l.upper}[n]()])
            return StrV(((n, s),))
        return g

    str_trim, str_trim_start, str_trim_end = _str_fun('trim'), _str_fun('trim_start'), _str_fun('trim_end')
    str_to_lowercase, str_to_uppercase = _str_fun('to_lowercase'), _str_fun('to_uppercase')
    str_to_ascii_lowercase = _str_fun('to_ascii_lowercase')
    str_to_ascii_uppercase = _str_fun('to_ascii_uppercase')

    def str_eq_ignore_ascii_case(self, ip, f, a):
        x, y = ip.canon_str(text(ip, a[0])), ip.canon_str(text(ip, a[1]))
        if x.lit() is not None and y.lit() is not None:
            return int(x.lit().lower() == y.lit().lower())
        return SymB(('streqi', x, y))

    def _str_index(self, ip, s, i):
        s = ip.canon_str(s)
        p = s.parts[0] if len(s.parts) == 1 else None
        b = None
        if p == ('s', 'input'):
            b = BytesV('input')
        elif p is not None and p[0] == 'slice':
            b = BytesV(p[1], p[2], p[3])
        if b is None:
            r = self._name_slice(ip, p, i)
            if r is NotImplemented:
                raise PathEnd('unknown', 'index into text')
            if r is None:
                raise PathEnd('panic', 'text index out of range')
            return r
        r = self._slice_get(ip, b, i)
        if r is None:
            raise PathEnd('panic', 'text index out of range')
        if not boundary(ip, r.lo) or (r.hi is not None and not boundary(ip, r.hi)):
            raise PathEnd('panic', 'text index not on a character boundary')
        return self._bytes_text(ip, r)

    def _name_slice(self, ip, p, i):
        """Part of the name of a variable of an expression, which is ASCII text (C12): any cut is between characters."""
        if p is not None and p[0] == 'sub':
            return NotImplemented
        if not ip.is_name(p) or not isinstance(i, (Adt, Opq)):
            return NotImplemented
        n = ip.str_len(StrV((p,)))
        lo, hi = self._bounds(ip, i, n)
        if not all(isinstance(z, (int, Lin)) for z in (lo, hi)):
            return NotImplemented
        for d in (lin_add(hi, lo, -1), lin_add(n, hi, -1)):
            if ip.decide_neg(d) if isinstance(d, Lin) else d < 0:
                return None
        if lin_add(hi, lo, -1) == 0:
            return StrV(())
        if lo == 0 and lin_add(n, hi, -1) == 0:
            return StrV((p,))
        return StrV((('sub', p, lo, hi),))

    def str_get(self, ip, f, a):
        ty = f['sig'][-1]
        s = ip.canon_str(text(ip, a[0]))
        p = s.parts[0] if len(s.parts) == 1 else None
        b = BytesV('input') if p == ('s', 'input') else BytesV(p[1], p[2], p[3]) if p is not None and p[0] == 'slice' else None
        if b is None:
            r = self._name_slice(ip, p, a[1])
            if r is NotImplemented:
                raise PathEnd('unknown', 'get of text')
            return Adt(ty, 0, ()) if r is None else Adt(ty, 1, (r,))
        r = self._slice_get(ip, b, a[1])
        if r is None or not boundary(ip, r.lo) or (r.hi is not None and not boundary(ip, r.hi)):
            return Adt(ty, 0, ())
        return Adt(ty, 1, (self._bytes_text(ip, r),))

    def str_get_unchecked(self, ip, f, a):
        return self._str_index(ip, text(ip, a[0]), a[1])

    def str_is_char_boundary(self, ip, f, a):
        return int(boundary(ip, a[1]))

    # ---- char
    def char_from_u32(self, ip, f, a):
        v = a[0]
        ty = f['sig'][-1]
        if isinstance(v, (BF, int)):
            return Adt(ty, 1, (v,))
        raise PathEnd('unknown', 'from_u32')

    def char_from_u32_unchecked(self, ip, f, a):
        return a[0]

    def char_len_utf8(self, ip, f, a):
        v = strip(ip, a[0])
        if isinstance(v, (int, BF)):
            n = v if isinstance(v, int) else ip.bf_val(v)
            return len(chr(n).encode())
        sym = ('n', ('clen', vkey(v)))
        ip.facts.ints.setdefault(sym, (2, 4))
        return Lin(((sym, 1),), 0)

    def _char_pred(n):
        def g(self, ip, f, a):
            v = strip(ip, a[0])
            fn = {'is_whitespace': lambda c: chr(c).isspace() and c not in (0x1c, 0x1d, 0x1e, 0x1f),
                  'is_alphabetic': lambda c: chr(c).isalpha(), 'is_alphanumeric': lambda c: chr(c).isalnum(),
                  'is_numeric': lambda c: chr(c).isnumeric(), 'is_uppercase': lambda c: chr(c).isupper(),
                  'is_lowercase': lambda c: chr(c).islower(), 'is_control': lambda c: c < 32 or 127 <= c < 160}[n]
            if isinstance(v, int):
                return int(fn(v))
            if isinstance(v, BF):
                return ip.bfbin(lambda x, y: int(fn(x)), v, 0)
            return SymB((n, vkey(v)))
        return g

    char_is_whitespace, char_is_alphabetic = _char_pred('is_whitespace'), _char_pred('is_alphabetic')
    char_is_alphanumeric, char_is_numeric = _char_pred('is_alphanumeric'), _char_pred('is_numeric')
    char_is_uppercase, char_is_lowercase = _char_pred('is_uppercase'), _char_pred('is_lowercase')
    char_is_control = _char_pred('is_control')

    # ---- formatting
    def fmt_new(self, ip, f, a):
        t = strip(ip, a[0])
        args = [ip.load(x) for x in slice_items(ip, a[1])]
        return Obj('args', tmpl=list(t.items), args=args)

    def fmt_from_str(self, ip, f, a):
        return Obj('args_str', s=text(ip, a[0]).lit() or '')

    fmt_from_str_nonconst = fmt_new_const = fmt_from_str

    def fmt_as_str(self, ip, f, a):
        x = strip(ip, a[0])
        ty = f['sig'][-1]
        if x.k == 'args_str':
            return Adt(ty, 1, (mkstr([x.d['s']]),))
        return Adt(ty, 0, ())

    def fmt_new_display(self, ip, f, a):
        return Obj('arg', kind='display', ty=f['args'][0], v=a[0])

    def fmt_new_debug(self, ip, f, a):
        return Obj('arg', kind='debug', ty=f['args'][0], v=a[0])

    def fmt_new_lower_exp(self, ip, f, a):
        return Obj('arg', kind='lower_exp', ty=f['args'][0], v=a[0])

    def fmt_new_upper_exp(self, ip, f, a):
        return Obj('arg', kind='upper_exp', ty=f['args'][0], v=a[0])

    def fmt_write_fmt(self, ip, f, a):
        fm = fmt_of(ip, a[0])
        fmt_args(ip, strip(ip, a[1]), fm.d['parts'])
        return Adt(f['sig'][-1], 0, (Adt(None, 0, ()),))

    def fmt_write_str(self, ip, f, a):
        fm = fmt_of(ip, a[0])
        fm.d['parts'].extend(text(ip, a[1]).parts)
        return Adt(f['sig'][-1], 0, (Adt(None, 0, ()),))

    def fmt_write_char(self, ip, f, a):
        fm = fmt_of(ip, a[0])
        fm.d['parts'].extend(char_text(ip, a[1]).parts)
        return Adt(f['sig'][-1], 0, (Adt(None, 0, ()),))

    fmt_pad = fmt_write_str

    def fmt_alternate(self, ip, f, a):
        return 0

    def _fmt_debug(self, ip, f, a):
        fm = fmt_of(ip, a[0])
        fm.d['parts'].append(('debug', ip.fresh('d')))
        return Adt(f['sig'][-1], 0, (Adt(None, 0, ()),))

    fmt_debug_struct_field1_finish = fmt_debug_struct_field2_finish = fmt_debug_struct_field3_finish = _fmt_debug
    fmt_debug_struct_field4_finish = fmt_debug_struct_field5_finish = fmt_debug_tuple_field1_finish = _fmt_debug
    fmt_debug_tuple_field2_finish = fmt_debug_tuple_field3_finish = fmt_debug_c_like_enum_write_str = _fmt_debug
    fmt_debug_struct_fields_finish = fmt_debug_tuple_fields_finish = _fmt_debug

    def fmt_format(self, ip, f, a):
        out = []
        fmt_args(ip, strip(ip, a[0]), out)
        return mkstr(out)

    # ---- maps and sets
    def map_new(self, ip, f, a):
        return self.default_of(ip, f['sig'][-1])

    map_with_capacity = set_new = set_with_capacity = map_new

    def map_get(self, ip, f, a):
        e = self.entry(ip, a[0])
        if e is not None:
            return Ref(map_get(ip, ip.load(e.d['m']), e.d['key']))
        m = strip(ip, a[0])
        c = map_get(ip, m, text(ip, a[1]))
        ty = f['sig'][-1]
        return Adt(ty, 0, ()) if c is None else Adt(ty, 1, (Ref(c),))

    def map_own(self, ip, ref, k):
        """A cell of this very map for the value of k, to be written to; None if there is none."""
        m = ip.load(ref)
        c = map_get(ip, m, k)
        if c is not None:
            c = Cell(copyv(c.v))
            ip.store(ref, MapV(m.base, m.entries + ((k, c),), m.vty))
        return c

    def map_get_mut(self, ip, f, a):
        e = self.entry(ip, a[0])
        if e is not None:
            return Ref(self.map_own(ip, e.d['m'], e.d['key']))
        c = self.map_own(ip, a[0], text(ip, a[1]))
        ty = f['sig'][-1]
        return Adt(ty, 0, ()) if c is None else Adt(ty, 1, (Ref(c),))

    def map_contains_key(self, ip, f, a):
        return int(map_get(ip, strip(ip, a[0]), text(ip, a[1])) is not None)

    def map_insert(self, ip, f, a):
        e = self.entry(ip, a[0])
        if e is not None:
            c = self.map_own(ip, e.d['m'], e.d['key'])
            m = ip.load(e.d['m'])
            ip.store(e.d['m'], MapV(m.base, m.entries + ((e.d['key'], Cell(a[1])),), m.vty))
            if c is not None:
                return copyv(c.v)
            return Ref(ip.load(e.d['m']).entries[-1][1])
        m = ip.load(a[0])
        k = text(ip, a[1])
        old = self.map_old(ip, f, m, k)
        ip.store(a[0], MapV(m.base, m.entries + ((k, Cell(a[2])),), m.vty))
        return old

    def map_old(self, ip, f, m, k):
        """The value the call replaces, found out only if the caller looks at it."""
        b = ip.stack[-1][0]['body'] if ip.stack else None
        t = b['blocks'][ip.bbs[-1]]['t'] if b else ('',)
        ty = f['sig'][-1]
        if t[0] == 'call' and not t[4][1] and t[5] is not None and t[4][0] not in live_in(b)[t[5]]:
            return Opq(('old', ip.fresh('m')), ty)
        c = map_get(ip, m, k)
        return Adt(ty, 0, ()) if c is None else Adt(ty, 1, (copyv(c.v),))

    def map_remove(self, ip, f, a):
        m = ip.load(a[0])
        k = text(ip, a[1])
        old = self.map_old(ip, f, m, k)
        ip.store(a[0], MapV(m.base, m.entries + ((k, None),), m.vty))
        return old

    def map_is_empty(self, ip, f, a):
        m = strip(ip, a[0])
        if m.entries:
            return 0
        return 1 if m.base is None else SymB(('emptymap', m.base))

    def map_clear(self, ip, f, a):
        m = ip.load(a[0])
        ip.store(a[0], MapV(None, (), m.vty))
        return Adt(None, 0, ())

    def map_entry(self, ip, f, a):
        k = text(ip, a[1])
        there = map_get(ip, ip.load(a[0]), k) is not None
        return Adt(f['sig'][-1], 0 if there else 1, (Obj('entry', m=a[0], key=k),))

    def entry(self, ip, v):
        """The entry of a map a value stands for, or None."""
        v = strip(ip, v)
        if isinstance(v, Adt) and len(v.fs) == 1:
            v = v.fs[0]
        return v if isinstance(v, Obj) and v.k == 'entry' else None

    def map_into_mut(self, ip, f, a):
        e = self.entry(ip, a[0])
        if e is None:
            return NotImplemented
        return Ref(self.map_own(ip, e.d['m'], e.d['key']))

    def map_or_insert(self, ip, f, a):
        e = self.entry(ip, a[0])
        c = self.map_own(ip, e.d['m'], e.d['key'])
        m = ip.load(e.d['m'])
        if c is None:
            c = Cell(a[1])
            ip.store(e.d['m'], MapV(m.base, m.entries + ((e.d['key'], c),), m.vty))
        return Ref(c)

    def map_or_insert_with(self, ip, f, a):
        e = self.entry(ip, a[0])
        c = self.map_own(ip, e.d['m'], e.d['key'])
        if c is None:
            c = Cell(ip.call_callable(a[1], [], None))
            m = ip.load(e.d['m'])
            ip.store(e.d['m'], MapV(m.base, m.entries + ((e.d['key'], c),), m.vty))
        return Ref(c)

    def map_and_modify(self, ip, f, a):
        e = self.entry(ip, a[0])
        c = self.map_own(ip, e.d['m'], e.d['key'])
        if c is not None:
            ip.call_callable(a[1], [Ref(c)], None)
        return a[0]

    def map_insert_entry(self, ip, f, a):
        e = self.entry(ip, a[0])
        m = ip.load(e.d['m'])
        ip.store(e.d['m'], MapV(m.base, m.entries + ((e.d['key'], Cell(a[1])),), m.vty))
        return e

    def set_insert(self, ip, f, a):
        s = ip.load(a[0])
        k = text(ip, a[1])
        ip.store(a[0], set_add(s, k))
        return SymB(('lazy', ip.lazy_add(lambda: not set_has(ip, s, k))))

    def set_remove(self, ip, f, a):
        s = ip.load(a[0])
        k = text(ip, a[1])
        ip.store(a[0], SetV(tuple(p for p in s.parts if p != k), s.minus + (k,)))
        return SymB(('lazy', ip.lazy_add(lambda: set_has(ip, s, k))))

    def set_contains(self, ip, f, a):
        s, k = strip(ip, a[0]), text(ip, a[1])
        return int(set_has(ip, s, k))

    def set_clear(self, ip, f, a):
        ip.store(a[0], SetV(()))
        return Adt(None, 0, ())

    def set_iter(self, ip, f, a):
        return to_it(ip, a[0])

    def set_len(self, ip, f, a):
        return len(set_items(ip, strip(ip, a[0])))

    def set_is_empty(self, ip, f, a):
        s = strip(ip, a[0])
        if not s.parts:
            return 1
        if any(not (isinstance(p, tuple) and p and p[0] == 'set') for p in s.parts) and not s.minus:
            return 0
        return int(not set_items(ip, s))

    def set_difference(self, ip, f, a):
        x, y = strip(ip, a[0]), strip(ip, a[1])
        return LazyListIt(lambda: [Ref(Cell(k)) for k in set_items(ip, set_diff(ip, x, y))])

    def set_is_subset(self, ip, f, a):
        x, y = strip(ip, a[0]), strip(ip, a[1])
        return SymB(('lazy', ip.lazy_add(lambda: not set_items(ip, set_diff(ip, x, y)))))

    def set_is_superset(self, ip, f, a):
        return self.set_is_subset(ip, f, [a[1], a[0]])

    def set_retain(self, ip, f, a):
        raise PathEnd('unknown', 'retain')

    def set_union(self, ip, f, a):
        x, y = strip(ip, a[0]), strip(ip, a[1])
        return SetIt(ip, SetV(x.parts + tuple(p for p in y.parts if p not in x.parts), x.minus and y.minus), True) \
            if not x.minus and not y.minus else LazyListIt(lambda: [Ref(Cell(k)) for k in set_items(
                ip, SetV(x.parts + tuple(p for p in y.parts if p not in x.parts)))])

    def set_extend(self, ip, f, a):
        return self.tr_Extend_extend(ip, f, a)

    # ---- iterator sources
    def itsrc_once(self, ip, f, a):
        return ListIt([a[0]])

    def itsrc_empty(self, ip, f, a):
        return ListIt([])

    def itsrc_repeat(self, ip, f, a):
        class Rep(It):
            def next(self, ip):
                return copyv(a[0])

            def clone(self):
                return self
        return Rep()

    def itsrc_zip(self, ip, f, a):
        return self.it_zip(ip, f, a)

    def itsrc_successors(self, ip, f, a):
        raise PathEnd('unknown', 'successors')

    def itsrc_from_fn(self, ip, f, a):
        c = Cell(a[0])

        class Fr(It):
            def next(self, ip):
                r = ip.call_callable(c.v, [], Ref(c))
                if ip.variant_of(r) == 0:
                    return END
                return ip.step(ip.expand(r, 1), ('f', 0, 1))
        return Fr()

    # ---- iterator adapters and consumers
    def _ad(kind, fn=False):
        if fn:
            return lambda self, ip, f, a: Adapter(kind, to_it(ip, a[0]), a[1])
        return lambda self, ip, f, a: Adapter(kind, to_it(ip, a[0]))

    it_map, it_filter, it_filter_map = _ad('map', 1), _ad('filter', 1), _ad('filter_map', 1)
    it_inspect, it_take_while, it_skip_while = _ad('inspect', 1), _ad('take_while', 1), _ad('skip_while', 1)
    it_map_while, it_flat_map, it_flatten = _ad('map_while', 1), _ad('flat_map', 1), _ad('flat_map')
    it_copied, it_cloned, it_rev, it_fuse = _ad('copied'), _ad('cloned'), _ad('rev'), _ad('fuse')
    it_peekable = _ad('peekable')

    def it_by_ref(self, ip, f, a):
        return a[0]

    def it_into_iter(self, ip, f, a):
        return self.tr_IntoIterator_into_iter(ip, f, a)

    def _tuple_ty(self, ip, a, b):
        return None

    def it_enumerate(self, ip, f, a):
        return Adapter('enumerate', to_it(ip, a[0]), n=0, ty=None)

    def it_zip(self, ip, f, a):
        return Adapter('zip', to_it(ip, a[0]), other=to_it(ip, a[1]), ty=None)

    def it_chain(self, ip, f, a):
        return Adapter('chain', to_it(ip, a[0]), other=to_it(ip, a[1]))

    def it_take(self, ip, f, a):
        return Adapter('take', to_it(ip, a[0]), n=a[1])

    def it_skip(self, ip, f, a):
        return Adapter('skip', to_it(ip, a[0]), n=a[1])

    def it_step_by(self, ip, f, a):
        return Adapter('step_by', to_it(ip, a[0]), n=ip.int_val(a[1]), first=True)

    def it_cycle(self, ip, f, a):
        i = to_it(ip, a[0])
        return Adapter('cycle', i, orig=i.clone())

    def it_scan(self, ip, f, a):
        return Adapter('scan', to_it(ip, a[0]), a[2], state=Cell(a[1]))

    def opt(self, f, v):
        ty = f['sig'][-1]
        return Adt(ty, 0, ()) if v is END else Adt(ty, 1, (v,))

    def it_next(self, ip, f, a):
        return self.opt(f, to_it(ip, a[0]).next(ip))

    def it_next_back(self, ip, f, a):
        return self.opt(f, to_it(ip, a[0]).back(ip))

    def it_peek(self, ip, f, a):
        it = to_it(ip, a[0])
        if 'peeked' not in it.d:
            it.d['peeked'] = it.inner.next(ip)
        x = it.d['peeked']
        ty = f['sig'][-1]
        return Adt(ty, 0, ()) if x is END else Adt(ty, 1, (Ref(Cell(x)),))

    def it_next_if(self, ip, f, a):
        it = to_it(ip, a[0])
        if 'peeked' not in it.d:
            it.d['peeked'] = it.inner.next(ip)
        x = it.d['peeked']
        ty = f['sig'][-1]
        if x is END:
            return Adt(ty, 0, ())
        if ip.truth(ip.call_callable(a[1], [Ref(Cell(x))], None)):
            it.d.pop('peeked')
            return Adt(ty, 1, (x,))
        return Adt(ty, 0, ())

    def it_nth(self, ip, f, a):
        it = to_it(ip, a[0])
        n = ip.int_val(a[1])
        if n is None:
            raise PathEnd('unknown', 'nth')
        for _ in range(n):
            if it.next(ip) is END:
                return self.opt(f, END)
        return self.opt(f, it.next(ip))

    def it_last(self, ip, f, a):
        L = ModelLoop(ip, to_it(ip, a[0]), END)
        while True:
            x = L.next()
            if x is END:
                return self.opt(f, L.v[0])
            L.v[0] = x

    def it_count(self, ip, f, a):
        L = ModelLoop(ip, to_it(ip, a[0]), 0)
        while L.next() is not END:
            L.v[0] = lin_add(L.v[0], 1)
        return L.v[0]

    def it_len(self, ip, f, a):
        it = to_it(ip, a[0])
        n = it.left(ip)
        if n is None:
            n = self.it_count(ip, f, [it.clone()])
        return n

    def it_size_hint(self, ip, f, a):
        return Opq(('size_hint', ip.fresh('h')), f['sig'][-1])

    def it_fold(self, ip, f, a):
        L = ModelLoop(ip, to_it(ip, a[0]), a[1])
        c = Cell(a[2])
        while True:
            x = L.next()
            if x is END:
                return L.v[0]
            L.v[0] = ip.call_callable(c.v, [L.v[0], x], Ref(c))

    def it_rfold(self, ip, f, a):
        return self.it_fold(ip, f, [Adapter('rev', to_it(ip, a[0]))] + list(a[1:]))

    def it_reduce(self, ip, f, a):
        it = to_it(ip, a[0])
        acc = it.next(ip)
        if acc is END:
            return self.opt(f, END)
        c = Cell(a[1])
        while True:
            x = it.next(ip)
            if x is END:
                return self.opt(f, acc)
            acc = ip.call_callable(c.v, [acc, x], Ref(c))

    def it_for_each(self, ip, f, a):
        L = ModelLoop(ip, to_it(ip, a[0]))
        c = Cell(a[1])
        while True:
            x = L.next()
            if x is END:
                return Adt(f['sig'][-1] if f['sig'] else None, 0, ())
            ip.call_callable(c.v, [x], Ref(c))

    def it_try_for_each(self, ip, f, a):
        L = ModelLoop(ip, to_it(ip, a[0]))
        c = Cell(a[1])
        ty = f['sig'][-1]
        while True:
            x = L.next()
            if x is END:
                t = ip.p.T[ty]
                k = 1 if t['path'] == 'core::option::Option' else 0
                return Adt(ty, k, (Adt(None, 0, ()),))
            r = ip.call_callable(c.v, [x], Ref(c))
            if self._stops(ip, r):
                return r

    def _stops(self, ip, r):
        r0 = r if isinstance(r, (Adt, Opq)) else None
        t = ip.p.T[r0.ty]
        k = ip.variant_of(r0)
        if t['path'] == 'core::option::Option':
            return k == 0
        return k == 1

    def it_try_fold(self, ip, f, a):
        L = ModelLoop(ip, to_it(ip, a[0]), a[1])
        c = Cell(a[2])
        ty = f['sig'][-1]
        last = None
        while True:
            x = L.next()
            if x is END:
                if last is not None:
                    return last
                t = ip.p.T[ty]
                return Adt(ty, 1 if t['path'] == 'core::option::Option' else 0, (L.v[0],))
            r = ip.call_callable(c.v, [L.v[0], x], Ref(c))
            if self._stops(ip, r):
                return r
            last = r
            k = 1 if ip.p.T[r.ty]['path'] == 'core::option::Option' else 0
            L.v[0] = ip.step(ip.expand(r, k), ('f', 0, k))

    def it_sum(self, ip, f, a):
        it = to_it(ip, a[0])
        ty = f['sig'][-1]
        fl = ip.p.T[ty]['k'] == 'float'
        acc = fconst(-0.0) if fl else 0
        while True:
            x = it.next(ip)
            if x is END:
                return acc
            x = strip(ip, x)
            acc = F(fterm('add', acc.t, x.t)) if fl else lin_add(acc, x)

    def it_product(self, ip, f, a):
        it = to_it(ip, a[0])
        ty = f['sig'][-1]
        fl = ip.p.T[ty]['k'] == 'float'
        acc = fconst(1.0) if fl else 1
        while True:
            x = it.next(ip)
            if x is END:
                return acc
            x = strip(ip, x)
            acc = F(fterm('mul', acc.t, x.t)) if fl else acc * ip.int_val(x)

    def it_any(self, ip, f, a):
        L = ModelLoop(ip, to_it(ip, a[0]))
        c = Cell(a[1])
        while True:
            x = L.next()
            if x is END:
                return 0
            if ip.truth(ip.call_callable(c.v, [x], Ref(c))):
                return 1

    def it_all(self, ip, f, a):
        L = ModelLoop(ip, to_it(ip, a[0]))
        c = Cell(a[1])
        while True:
            x = L.next()
            if x is END:
                return 1
            if not ip.truth(ip.call_callable(c.v, [x], Ref(c))):
                return 0

    def it_find(self, ip, f, a):
        L = ModelLoop(ip, to_it(ip, a[0]))
        c = Cell(a[1])
        while True:
            x = L.next()
            if x is END or ip.truth(ip.call_callable(c.v, [Ref(Cell(x))], Ref(c))):
                return self.opt(f, x)

    def it_find_map(self, ip, f, a):
        L = ModelLoop(ip, to_it(ip, a[0]))
        c = Cell(a[1])
        while True:
            x = L.next()
            if x is END:
                return self.opt(f, x)
            r = ip.call_callable(c.v, [x], Ref(c))
            if ip.variant_of(r) == 1:
                return r

    def it_position(self, ip, f, a):
        L = ModelLoop(ip, to_it(ip, a[0]), 0)
        c = Cell(a[1])
        while True:
            x = L.next()
            if x is END:
                return self.opt(f, x)
            if ip.truth(ip.call_callable(c.v, [x], Ref(c))):
                return self.opt(f, L.v[0])
            L.v[0] = lin_add(L.v[0], 1)

    def it_unzip(self, ip, f, a):
        raise PathEnd('unknown', 'unzip')

    def it_partition(self, ip, f, a):
        raise PathEnd('unknown', 'partition')

    def it_max_by(self, ip, f, a):
        raise PathEnd('unknown', 'max_by')

    it_min_by = it_max_by_key = it_min_by_key = it_max_by

    def it_max(self, ip, f, a):
        raise PathEnd('unknown', 'max')

    it_min = it_max

    def it_as_slice(self, ip, f, a):
        it = to_it(ip, a[0])
        if isinstance(it, LazyListIt):
            it = it.get()
        return Ref(Cell(Seq(tuple(deref(ip, x) for x in it.items[it.lo:it.hi]))))

    def it_collect(self, ip, f, a):
        return self.collect_into(ip, f['sig'][-1], to_it(ip, a[0]))

    def tr_FromIterator_from_iter(self, ip, f, a):
        return self.collect_into(ip, f['sig'][-1], to_it(ip, a[0]))

    def collect_into(self, ip, ty, it):
        t = ip.p.T[ty]
        p = t.get('path', '')
        if p == 'alloc::vec::Vec' or t.get('box'):
            out = []
            while True:
                x = it.next(ip)
                if x is END:
                    return BoxV(Cell(Seq(tuple(out)))) if t.get('box') else Seq(tuple(out))
                out.append(x)
                if len(out) > 600:
                    raise PathEnd('unknown', 'long collection')
        if p.endswith('::HashMap'):
            es = []
            if isinstance(it, MapIt):
                return it.m
            while True:
                x = it.next(ip)
                if x is END:
                    return MapV(None, tuple(es), t['args'][1])
                x = ip.expand(x)
                es.append((text(ip, x.fs[0]), Cell(x.fs[1])))
        if p.endswith('::HashSet'):
            s = SetV(())
            if whole_set(it) is not None:
                return whole_set(it)
            while True:
                x = it.next(ip)
                if x is END:
                    return s
                s = set_add(s, text(ip, x))
        if p == 'alloc::string::String':
            parts = []
            while True:
                x = it.next(ip)
                if x is END:
                    return mkstr(parts)
                x = strip(ip, x)
                parts += list(x.parts if isinstance(x, StrV) else char_text(ip, x).parts)
        if p in ('core::result::Result', 'core::option::Option'):
            good = 0 if p == 'core::result::Result' else 1
            stop = []

            class Sh(It):
                def next(self, ip):
                    x = it.next(ip)
                    if x is END:
                        return END
                    if ip.variant_of(x) != good:
                        stop.append(x)
                        return END
                    return ip.step(ip.expand(x, good), ('f', 0, good))
            v = self.collect_into(ip, t['args'][0], Sh())
            if stop:
                if good == 1:
                    return Adt(ty, 0, ())
                return Adt(ty, 1, (ip.step(ip.expand(stop[0], 1), ('f', 0, 1)),))
            return Adt(ty, good, (v,))
        if t['k'] == 'tuple' and not t['elems']:
            while it.next(ip) is not END:
                pass
            return Adt(ty, 0, ())
        raise PathEnd('unknown', 'collection into ' + t['name'])


def strip_fn(ip, v):
    return v


def boundary(ip, pos):
    """Is pos a character boundary of the input (which is valid UTF-8)?"""
    if pos == 0:
        return True
    if isinstance(pos, Lin) and pos.t == (('LEN', 1),) and pos.c == 0:
        return True
    c = ip.cls(pos) & ip.utf8_ok(lin(pos))
    ip.set_cls(pos, c)
    return not ip.split(pos, CONT)


PREFIX = [
    ('core::mem::', 'mem'), ('core::ptr::', 'ptr'), ('core::hint::', 'hint'), ('core::intrinsics::', 'i'),
    ('alloc::boxed::', 'box'), ('alloc::rcs::arc::', 'arc'), ('alloc::sync::', 'arc'), ('alloc::rcs::rc::', 'arc'),
    ('alloc::vec::', 'vec'), ('alloc::slice::', 'slice'), ('core::slice::', 'slice'), ('core::array::', 'array'),
    ('alloc::string::', 'string'), ('alloc::str::', 'str'), ('core::str::', 'str'), ('core::char::', 'char'),
    ('core::ops::range::', 'range'), ('core::fmt::', 'fmt'), ('alloc::fmt::', 'fmt'), ('std::collections::hash::map::', 'map'),
    ('std::collections::hash::set::', 'set'), ('miette::', 'miette'),
]
