"""The parser against the documented grammar.

The parser's own code is interpreted over an input of unknown length and
content.  Recursive calls of parsing functions are replaced by contracts and
become obligations; loops over input bytes are accelerated; at the head of the
loop that folds operators the operand read so far is forgotten (both in the
code and in the reference), so that one iteration stands for all."""
import re
from absint import *
from tree import *
from mir import live_in, succs
from grammar import Grammar, Reject, GiveUp, OPS, LETTER, DIGIT, BLANKS
from report import Report
from props_vars import known, parts_of
from models import Adapter, BytesIt, CharsIt, END, It, ListIt, RangeIt

MAXSUBS = 3
LONG = (5, 9, 16, 17, 33, 65, 257)      # lengths of lists beyond that
ALL = ('C01', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C28', 'C23', 'C27', 'C20', 'C16', 'C15', 'C06', 'C22')


class NewCut(Exception):
    pass


class Restart(Exception):
    pass


class Varies(NewCut):
    """A whole number of the parser's state is not what it was when a nested call returns."""


def pos_of(a):
    return Lin(((a, 1),), 0)


# ------------------------------------------------------------------ snapshots
class Snap:
    """The state reachable from the live locals of every frame: a skeleton and its wide integers."""

    def __init__(self, eng, ip, skip=None, loop=None):
        self.eng, self.ip, self.skip = eng, ip, skip
        self.cells, self.index = [], {}
        self.ints, self.where = [], []
        self.opaque = False
        top = len(ip.frames) - 1
        out = []
        for d in range(len(ip.frames)):
            f = ip.stack[d][0]
            b = f['body']
            bb = ip.bbs[d]
            live = live_in(b)
            if d == top:
                ls = set(live[bb])
            else:
                t = b['blocks'][bb]['t']
                if t[0] != 'call' or t[5] is None:
                    ls = set(live[bb])
                else:
                    ls = set(live[t[5]])
                    if not t[4][1]:
                        ls.discard(t[4][0])
            fr = []
            for l in sorted(ls):
                if skip is not None and d == top and l == skip:
                    fr.append((l, 'EL'))
                    continue
                fr.append((l, self.cell(ip.frames[d][l], b['locals'][l])))
            out.append((f['id'], bb, tuple(fr)))
        i = 0
        sk = []
        if loop is not None:
            sk.append(self.flat(loop.it, None, ()))
            for j, v in enumerate(loop.v):
                if isinstance(v, (int, Lin)):
                    self.ints.append(v)
                    self.where.append((PyAt(loop.v, j),))
                else:
                    sk.append(self.flat(v, None, (PyAt(loop.v, j),)))
        while i < len(self.cells):
            c, tid = self.cells[i]
            sk.append(self.flat(c.v, tid, (i,)))
            i += 1
        self.key = (tuple(out), tuple(sk))

    def cell(self, c, tid=None):
        k = id(c)
        if k not in self.index:
            self.index[k] = len(self.cells)
            self.cells.append((c, tid))
        return self.index[k]

    def flat(self, v, tid, at):
        p = self.ip.p
        if isinstance(v, (int, Lin)):
            if isinstance(v, Lin) or (tid is not None and p.T[tid]['k'] == 'int' and p.T[tid]['bits'] >= 32):
                self.ints.append(v)
                self.where.append(at)
                return '#'
            return v
        if isinstance(v, Adt):
            ts = None
            if v.ty is not None:
                t = p.T[v.ty]
                if t['k'] == 'adt' and v.var < len(t['variants']):
                    ts = [x[1] for x in t['variants'][v.var]['fields']]
                elif t['k'] == 'tuple':
                    ts = t['elems']
                elif t['k'] == 'closure':
                    ts = t['ups']
            if ts is None or len(ts) != len(v.fs):
                ts = [None] * len(v.fs)
            return ('adt', v.ty, v.var) + tuple(self.flat(x, t, at + (i,)) for i, (x, t) in enumerate(zip(v.fs, ts)))
        if isinstance(v, Ref):
            to = None
            if tid is not None and p.T[tid]['k'] in ('ref', 'ptr') and not v.path:
                to = p.T[tid]['to']
            return ('ref', self.cell(v.cell, to), v.path, v.sub)
        if isinstance(v, BoxV):
            return ('box', self.cell(v.cell))
        if isinstance(v, It):
            return self.iterator(v)
        if isinstance(v, Obj):
            self.opaque = True
        return vkey(v)

    def iterator(self, v):
        if isinstance(v, BytesIt):
            self.ints.append(lin_add(v.b.lo, v.off))
            self.where.append((PyOff(v, v.b.lo),))
            return ('bytes', v.b.src, v.b.lo, v.b.hi)
        if isinstance(v, CharsIt):
            p = v.s.parts[0] if len(v.s.parts) == 1 and isinstance(v.s.parts[0], tuple) else None
            if p is not None and p[0] == 'slice' and isinstance(v.off, (int, Lin)):
                self.ints.append(lin_add(p[2], v.off))
                self.where.append((PyOff(v, p[2]),))
                return ('chars', p, v.indices)
            return ('chars', id(v), repr(v.off))
        if isinstance(v, ListIt):
            return ('list', id(v), v.lo, v.hi)
        if isinstance(v, RangeIt):
            for at in ('lo', 'hi'):
                if getattr(v, at) is not None:
                    self.ints.append(getattr(v, at))
                    self.where.append((PyAttr(v, at),))
            return ('range', v.incl)
        if isinstance(v, Adapter):
            r = ['adapter', v.kind, self.cell(v.fcell) if v.fcell is not None else None, self.iterator(v.inner)]
            for k, x in sorted(v.d.items()):
                if k == 'n' and isinstance(x, (int, Lin)):
                    self.ints.append(x)
                    self.where.append((PyAt(v.d, k),))
                elif isinstance(x, It):
                    r.append((k, self.iterator(x)))
                elif isinstance(x, Cell):
                    r.append((k, self.cell(x)))
                elif x is END:
                    r.append((k, 'end'))
                else:
                    r.append((k, self.flat(x, None, (PyAt(v.d, k),))))
            return tuple(r)
        self.opaque = True
        return ('it', id(v))

    def set(self, i, nv):
        """Replaces the i-th wide integer by nv."""
        at = self.where[i]
        if not isinstance(at[0], int):
            at[0].put(self.put(at[0].get(), at[1:], nv) if len(at) > 1 else nv)
            return
        c = self.cells[at[0]][0]
        c.v = self.put(c.v, at[1:], nv)

    def put(self, v, at, nv):
        if not at:
            return nv
        fs = list(v.fs)
        fs[at[0]] = self.put(fs[at[0]], at[1:], nv)
        return Adt(v.ty, v.var, tuple(fs))


class PyAt:
    """A place in the state of a modelled iterator or loop."""

    def __init__(self, o, k):
        self.o, self.k = o, k

    def get(self):
        return self.o[self.k]

    def put(self, v):
        self.o[self.k] = v


class PyAttr(PyAt):
    def get(self):
        return getattr(self.o, self.k)

    def put(self, v):
        setattr(self.o, self.k, v)


class PyOff(PyAt):
    """The absolute position of an iterator that counts from the start of its slice."""

    def get(self):
        return lin_add(self.o.off, self.k)

    def put(self, v):
        self.o.off = lin_add(v, self.k, -1)


def factsig(ip):
    f = ip.facts
    return (len(ip.events), tuple(sorted(f.bools.items(), key=repr)), len(f.variants), tuple(sorted(
        ((k, v) for k, v in f.variants.items()), key=repr)), len(f.strlit), sum(len(x) for x in f.strneg.values()),
        sum(len(x) for x in f.fl.values()), len(f.frel), len(f.lens), len(f.segs), len(f.anchors),
        tuple(sorted(f.ints.items(), key=repr)))


# ------------------------------------------------------------------ the reference side of a path
FORKS = 300


class RefRun:
    """Drives the grammar along the events of one path."""

    def __init__(self, eng, ip, gen):
        self.eng, self.ip, self.gen = eng, ip, gen
        self.req = None
        self.result = None
        self.reject = None
        self.used = 0
        self.state = 'new'
        self.depth = 0
        self.mark = None    # the decisions made before the reference went on alone
        self.ahead = 0      # loop heads passed since the last nested expression of the code
        self.pairs = []
        self.whys = []

    def send(self, v):
        self._step(lambda: self.gen.send(v))

    def throw(self, e):
        self._step(lambda: self.gen.throw(e))

    def _step(self, go):
        if self.mark is not None and not self.ip.steer:
            n = 1
            for _, k in self.ip.choices[self.mark:]:
                n *= k
            if n > FORKS:
                self.steer()
        try:
            self.req = go()
            self.state = self.req[0]
        except StopIteration as e:
            self.result, self.state = e.value, 'done'
        except Reject as e:
            self.reject, self.state = e, 'done'

    def advance(self, final):
        """Runs to the end; False: up to a head or a nested expression the code has not met yet; None: only
        up to such an expression."""
        ip = self.ip
        if final and self.mark is None:
            self.mark = len(ip.choices)
        if self.state == 'new':
            self.send(None)
        while self.state not in ('done',):
            if self.state == 'head':
                if final is False and self.used >= len(ip.events):
                    return
                _, lvl, el, pos = self.req
                if self.used >= len(ip.events):
                    self.ahead += 1
                    if self.ahead > 4:
                        self.steer()
                    if self.ahead > 40:
                        raise GiveUp()
                self.send((el, pos))
                continue
            _, lvl, pos, why = self.req
            evs = ip.events
            if self.used < len(evs) and self.eng.eqpos(ip, evs[self.used]['pos'], pos):
                ev = evs[self.used]
                self.used += 1
                self.ahead = 0
                self.pairs.append((ev['key'], lvl, why))
                self.whys.append(why)
                if ev['ok']:
                    self.send((ev['tree'], ev['end']))
                else:
                    self.throw(Reject('sub', ev))
                continue
            if final is not True:
                return
            self.inline(lvl, pos)

    def steer(self):
        """The code stopped reading long ago: one ordinary way for the text to go on is enough to tell whether
        it may stop there, the rest is not explored."""
        self.ip.steer = True

    def inline(self, lvl, pos):
        """A nested expression the code did not look for: parse it by the grammar itself."""
        if self.depth >= 2:
            self.steer()
        if self.depth >= 12:
            raise GiveUp()
        self.depth += 1
        sub = RefRun(self.eng, self.ip, self.eng.grammar(self.ip).element(lvl, pos))
        sub.depth, sub.mark = self.depth, self.mark
        sub.used = self.used
        sub.advance(True)
        self.used = sub.used
        self.pairs += sub.pairs
        self.depth -= 1
        if sub.reject is not None:
            self.throw(sub.reject)
        else:
            self.send(sub.result)


class ParseSession(Session):
    def __init__(self, eng, opts):
        Session.__init__(self, eng.t, opts=opts)
        self.eng = eng

    def cut(self, ip, f, a):
        r = self.eng.cut(ip, f, a)
        if r is not NotImplemented:
            return r
        return Session.cut(self, ip, f, a)


class ParseCheck:
    curres = None
    def __init__(self, prog, config):
        self.t = Tree(prog)
        self.p = prog
        self.config = config
        self.opt = config.endswith(',opt')
        self.pej = 'pejmdas' in config
        self.reps = {p: Report(p, config) for p in ALL}
        self.cuts = set()
        self.ok_cls, self.err_cls = {}, {}
        self.deps = {}
        self.star = {}
        self.guards = {}
        self.start_cont = set()
        self.loopcuts = {}
        self.subs_at_start = {}
        self.hooked = False
        self.template = {}
        self.argvals = {}
        self.ctxref = None
        self.entry = set()
        self.paths = 0
        self.viol = []
        self.discover()

    # ---------------------------------------------------------- anchors
    def discover(self):
        p, t = self.p, self.t
        self.like, self.states = {}, {}
        for f in p.F.values():
            if f['krate'] != p.crate or not f['body'] or not f['sig']:
                continue
            r = p.T[f['sig'][-1]]
            if r['k'] != 'adt' or r['path'] != 'core::result::Result':
                continue
            okt = r['variants'][0]['fields'][0][1]
            if t.unbox(okt) != t.ELEMENT:
                continue
            for i, a in enumerate(f['sig'][:-1]):
                at = p.T[a]
                if at['k'] == 'ref' and at.get('mut'):
                    s = p.T[at['to']]
                    if s['k'] == 'adt' and s['adt'] == 'struct' and s['path'].startswith(p.crate + '::'):
                        self.like[f['id']] = (i, at['to'])
                        self.states[at['to']] = None
        if not self.like:
            raise Anchor('parsing functions')
        for s in self.states:
            fs = p.T[s]['variants'][0]['fields']
            c = [i for i, (n, ft) in enumerate(fs) if p.T[ft]['k'] == 'int' and p.T[ft]['name'] == 'usize']
            if len(c) != 1:
                c = [i for i in c if fs[i][0] in ('cursor', 'pos', 'position', 'offset', 'index', 'idx', 'cur')]
            if len(c) != 1:
                raise Anchor('cursor of ' + p.T[s]['path'])
            self.states[s] = c[0]
        f = next(f for f in p.F.values() if f['id'] in self.like)
        self.ERR = p.T[f['sig'][-1]]['variants'][1]['fields'][0][1]
        et = p.T[self.ERR]
        self.ef = t.fields(self.ERR, 'kind', 'span', 'src')
        self.KIND = et['variants'][0]['fields'][self.ef['kind']][1]
        self.kinds = [v['name'] for v in p.T[self.KIND]['variants']]
        # the functions that map a name to a built-in
        self.builtins = {}
        for f in p.F.values():
            if f['krate'] == p.crate and f['body'] and f['sig'] and len(f['sig']) == 2:
                a, r = p.T[f['sig'][0]], p.T[f['sig'][1]]
                if a['k'] == 'ref' and p.T[a['to']]['k'] == 'str' and r['k'] == 'adt' and r['adt'] == 'enum' \
                        and len(r['variants']) == 3 and r['path'].startswith(p.crate + '::'):
                    d = {}
                    for i, v in enumerate(r['variants']):
                        if len(v['fields']) == 1:
                            x = p.T[v['fields'][0][1]]
                            d['num' if x['k'] == 'float' else 'var' if x['k'] == 'ref' else
                              'fn' if v['fields'][0][1] == t.FUNC else '?'] = i
                    if set(d) == {'num', 'var', 'fn'}:
                        self.builtins[f['id']] = (f['sig'][1], d)
        self.ctx_get = t.method('Context', 'get')
        self.ctx_exp = t.method('Context', 'get_expected_vars')
        self.parse = t.method('Parser', 'parse')
        self.char = next((i for i, x in p.T.items() if x['k'] == 'char'), -1)
        self.pf = None
        for i, (n, ft) in enumerate(p.T[t.local_adt('Parser')['id']]['variants'][0]['fields']):
            if p.T[ft]['k'] == 'adt' and p.T[ft]['path'].endswith('::Context'):
                self.pf = i
        if self.pf is None:
            raise Anchor('the context of Parser')

    # ---------------------------------------------------------- grammar host
    def grammar(self, ip):
        return Grammar(ip, self.pej, self)

    def anchor(self, ip, base, least):
        ip.an += 1
        a = 'a%d' % ip.an
        ip.facts.anchors[a] = (base, least)
        return a

    def is_number(self, ip, tree):
        if tree[0] == 'num':
            return True
        if tree[0] == 'leaf':
            return ip.is_variant(Opq(tree[1], self.t.ELEMENT), self.t.V['num'])
        return False

    def lookup(self, ip, p, q):
        name = StrV((('slice', 'input', p, q),))
        r = ip.call(self.ctx_get['id'], [ip.ctxref, name])
        k = ip.variant_of(r)
        if self.p.T[self.ctx_get['sig'][-1]]['variants'][k]['fields']:
            v = strip(ip, ip.expand(r, k).fs[0])
            v = ip.expand(v) if isinstance(v, Opq) else v
            x = v.fs[0]
            return ('num', x.t) if isinstance(x, F) else ('fn', x)
        kind, x = self.builtin(ip, name)
        return (kind, x.t) if kind == 'num' else (kind, x.parts) if kind == 'var' else (kind, x)

    def builtin(self, ip, name):
        key = ('builtin', name)
        k = ip.facts.bools.get(key)
        if k is None:
            k = ip.facts.bools[key] = ('var', 'num', 'fn')[ip.choose(3)]
            ip.note('%s is %s' % (tstr(name), {'var': 'no built-in', 'num': 'a built-in constant',
                                               'fn': 'a built-in function'}[k]))
        if k == 'var':
            return k, name
        if k == 'num':
            return k, F(('v', ('bconst', name)))
        return k, Opq(('bfunc', name), self.t.FUNC)

    def builtin_hook(self, ip, f, a):
        self.hooked = True
        ty, d = self.builtins[f['id']]
        k, v = self.builtin(ip, text(ip, a[0]))
        return Adt(ty, d[k], (v,))

    def declared(self, ip, fn):
        v = ip.expand(fn, 0) if isinstance(fn, Opq) else fn
        nb = v.fs[self.t.ff['nb_args']]
        k = ip.variant_of(nb)
        nb = ip.expand(nb, k)
        return nb.fs[0] if nb.fs else None

    def fkey(self, ip, fn):
        return nk(ip, fn, self.t.FUNC)

    def eqpos(self, ip, p, q):
        return self.skipb(ip, p) == self.skipb(ip, q)

    def skipb(self, ip, p):
        f = ip.facts
        for _ in range(60):
            c = f.bytes.get(p)
            if c is None or not c <= BLANKS:
                return p
            seg = f.segs.get(p)
            if seg is not None:
                if not seg[1] <= BLANKS:
                    return p
                p = pos_of(seg[0])
            else:
                p = lin_add(p, 1)
        return p

    # ---------------------------------------------------------- contracts
    def args_key(self, ip, f, a, i):
        out = []
        for j, x in enumerate(a):
            if j == i:
                continue
            x = strip(ip, x)
            if (f['id'], j) in self.free:
                out.append(('any', j))
                continue
            k = vkey(x)
            if not self.concrete(x):
                raise PathEnd('unknown', 'argument %r of the recursive function %s' % (x, f['path']))
            out.append(k)
        return tuple(out)

    def concrete(self, v):
        if isinstance(v, int):
            return True
        if isinstance(v, (FnV,)):
            return True
        if isinstance(v, StrV):
            return v.lit() is not None
        if isinstance(v, F):
            return v.t[0] == 'c'
        if isinstance(v, Adt):
            return all(self.concrete(x) for x in v.fs)
        return False

    def cut(self, ip, f, a):
        if f['id'] not in self.like:
            return NotImplemented
        if f['id'] == ip.rootfn and not ip.entered2:
            ip.entered2 = True
            return NotImplemented
        if f['id'] not in self.cuts:
            if any(g['id'] == f['id'] for g, _ in ip.stack):
                self.cuts.add(f['id'])
                raise NewCut(f['path'])
            return NotImplemented
        i, S = self.like[f['id']]
        key = (f['id'], self.args_key(ip, f, a, i))
        self.argvals.setdefault(key, [x for j, x in enumerate(a) if j != i])
        for j, x in enumerate(a):
            if j == i or isinstance(x, bool) or not isinstance(x, (int, Lin)):
                continue
            if (f['id'], j) in self.free:
                self.step(ip, key, (f['id'], j), x)
            elif ip.rootkey2 is not None and ip.rootkey2[0] == f['id']:
                self.passed.setdefault((f['id'], j), {}).setdefault(ip.rootkey2[1][j - (j > i)], set()).add(x)
        ref = a[i]
        st = ip.load(ref)
        if isinstance(st, Ref):
            ref, st = st, ip.load(st)
        st = ip.expand(st, 0)
        cur = self.states[S]
        pos = st.fs[cur]
        if not isinstance(pos, (int, Lin)):
            raise PathEnd('unknown', 'cursor %r' % (pos,))
        self.check_state(ip, st, cur, S)
        ip.subcalls += 1
        if ip.rootkey2 is None:
            self.entry.add(key)
        if self.phase != 1 and ip.subcalls == MAXSUBS + 1 and self.plain_list(ip, pos):
            ip.long = LONG[ip.choose(len(LONG))]
            ip.note('%d operands in a row' % ip.long)
        if ip.subcalls > (1 if self.phase == 1 else MAXSUBS) and not ip.long:
            raise PathEnd('bound', 'more than %d operands without a meeting point' % MAXSUBS)
        if (ip.cls(pos) & ip.utf8_ok(lin(pos))) & CONT and key not in self.start_cont:
            self.start_cont.add(key)
            self.dirty.add(key)
        # progress
        if ip.rootkey2 is not None:
            d = ip.bounds(lin_add(pos, ip.a0, -1))[0]
            if d is not None and d >= 1:
                ip.progress.append(True)
            else:
                ip.progress.append((key, ip.site()))
        oks = self.ok_cls.get(key, frozenset())
        errs = self.err_cls.get(key, {})
        self.deps.setdefault(key, set()).add(ip.rootkey2)
        self.met.add(key)
        R = ip.refrun
        if R is not None:
            R.advance(None)
            if R.state == 'sub' and R.used == len(ip.events) and self.eqpos(ip, R.req[2], pos):
                self.found.add((key, R.req[1], R.req[3]))
        ecls = frozenset().union(*errs.values()) if errs else frozenset()
        opts = [k for k, c in ((True, oks), (False, ecls)) if c]
        if not opts:
            raise PathEnd('infeasible')
        force = ip.opts.get('force_ok') or ip.long
        if force and True in opts:
            opts = [True]
        good = opts[ip.choose(len(opts))]
        n = ip.subn
        ip.subn += 1
        end = pos_of(self.anchor(ip, pos, 1 if good else 0))
        ip.facts.bytes[end] = oks if good else ecls
        if ip.long and good:
            ip.set_cls(end, oks & frozenset(b',' if ip.subcalls < ip.long else b')'))
            if ip.subcalls >= ip.long:
                ip.facts.bytes[lin_add(end, 1)] = frozenset((EOF,))
        # other whole-number fields of the state may have changed
        fs = list(st.fs)
        fs[cur] = end
        for j, (nm, ft) in enumerate(self.p.T[S]['variants'][0]['fields']):
            if j != cur and self.p.T[ft]['k'] in ('int', 'bool'):
                self.step(ip, key, nm, fs[j])
                if (S, j, good) in self.varies:
                    fs[j] = ip.opq(('state', nm, n), ft)
        ip.store(ref, Adt(st.ty, st.var, tuple(fs)))
        rt = self.p.T[f['sig'][-1]]
        if good:
            v = Opq(('opd', n), self.t.ELEMENT)
            ip.tyof.put(v)
            ip.events.append(dict(key=key, pos=pos, end=end, ok=True, tree=('leaf', v.term)))
            ip.note('operand %d from %s to %s' % (n, pos, end))
            okt = rt['variants'][0]['fields'][0][1]
            return Adt(f['sig'][-1], 0, (BoxV(Cell(v)) if self.p.T[okt].get('box') else v,))
        v = Opq(('err', n), self.ERR)
        ip.errinfo[n] = (end, key)
        ip.events.append(dict(key=key, pos=pos, end=end, ok=False, err=n))
        ip.note('operand %d from %s fails' % (n, pos))
        return Adt(f['sig'][-1], 1, (v,))

    def step(self, ip, key, nm, x):
        """What a nested call finds in a field of the state, relative to what its caller found there."""
        to = self.given.setdefault(key, {}).setdefault(nm, set())
        me = ('n', ('state', nm, 'in'))
        if isinstance(x, (int, bool)):
            to.add(('is', x))
        elif isinstance(x, SymB):
            if x == SymB(('b', me[1])):
                to.add(('from', ip.rootkey2))
        elif isinstance(x, Lin) and me in ip.facts.ints:
            d = lin(lin_add(x, Lin(((me, 1),), 0), -1))
            if not d.t:
                if d.c == 0:
                    to.add(('from', ip.rootkey2))
                else:
                    self.steps.setdefault((nm, d.c), set()).add(ip.bounds(Lin(((me, 1),), 0)))

    def stated(self, ip):
        """What a path needs to find in the state other than the position: [(field, least, most)], None for anything else."""
        need = []
        for s, r in ip.facts.ints.items():
            t = s[1] if isinstance(s, tuple) and s[0] == 'n' else None
            if isinstance(t, tuple) and t[0] == 'state':
                b = ip.bounds(Lin(((s, 1),), 0))
                if b != self.width.get(t[1]):
                    if t[2] != 'in':
                        return None
                    need.append((t[1],) + b)
        for s, v in ip.facts.bools.items():
            if isinstance(s, tuple) and s[0] == 'b' and isinstance(s[1], tuple) and s[1][0] == 'state':
                if s[1][2] != 'in':
                    return None
                need.append((s[1][1], v, v))
        return need

    def values(self, key, nm):
        """The constants a field of the state is known to hold when a function starts."""
        seen, todo, out = set(), [key], set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for how, x in self.given.get(k, {}).get(nm, ()):
                if how == 'is':
                    out.add(x)
                elif x is not None:
                    todo.append(x)
        return out

    def reached(self, key, need):
        """Whether the state can be such: True, False or None (not known)."""
        if need is None or len(need) > 1:
            return None
        for nm, lo, hi in need:
            at = self.values(key, nm)
            if any((lo is None or lo <= x) and (hi is None or x <= hi) for x in at):
                continue
            ks = {k: b for (n, k), b in self.steps.items() if n == nm}
            if len(ks) != 1 or not at or lo is None:
                return None
            if -1 in ks:
                at = max(at)
                end = min((a for a, b in ks[-1] if a is not None and b is not None and b >= at), default=None)
                if lo > at or hi is None or min(hi, at) < (at if end is None else end - 1) or min(hi, at) < at - 4096:
                    return None
                continue
            if 1 not in ks:
                return None
            # steps by one, from the start up to where the code stops stepping
            at = min(at)
            top = max((b for a, b in ks[1] if b is not None and a is not None and a <= at), default=None)
            far = at if top is None else top + 1
            if lo > 1 << 32 and lo > at:
                return False        # nobody nests that deep
            if hi is not None and hi < at or max(lo, at) > min(far, 4096):
                return None
        return True

    def plain_list(self, ip, pos):
        """Operands separated by one comma each and nothing else, so far: long lists are tried along this path."""
        evs = ip.events
        if ip.rootkey2 not in self.entry or not all(e['ok'] for e in evs) or len(evs) != MAXSUBS:
            return False
        return all(ip.cls(e['end']) <= frozenset(b',') and lin_add(e['end'], 1) == p
                   for e, p in zip(evs, [e['pos'] for e in evs[1:]] + [pos]))

    def check_state(self, ip, st, cur, S):
        """The rest of the parser state is what the root set up."""
        t = self.template.get(S)
        if t is None:
            if ip.rootkey2 is not None or ip.deflt:
                raise PathEnd('unknown', 'state of %s' % self.p.T[S]['path'])
            self.template[S] = st
            return
        for j, (nm, ft) in enumerate(self.p.T[S]['variants'][0]['fields']):
            if j == cur or self.p.T[ft]['k'] in ('int', 'bool'):
                continue
            x, y = st.fs[j], t.fs[j]
            if ip.deflt and not isinstance(x, BytesV) and not isinstance(x, StrV):
                continue
            if vkey(x) != vkey(y):
                raise PathEnd('unknown', 'field %s of the parser state changes' % nm)

    def err_variants(self, ip, o, vs):
        """Which kinds an error of a nested call can have."""
        t = o.term
        if o.ty == self.KIND and isinstance(t, tuple) and t[0] == 'f' and isinstance(t[1], tuple) and t[1][0] == 'err':
            end, key = ip.errinfo[t[1][1]]
            return frozenset(v for v in vs if v in self.err_cls.get(key, {}))
        return Session.variants(self.s, ip, o, vs)

    def err_refined(self, ip, o, k):
        t = o.term
        if o.ty == self.KIND and isinstance(t, tuple) and t[0] == 'f' and isinstance(t[1], tuple) and t[1][0] == 'err':
            end, key = ip.errinfo[t[1][1]]
            c = frozenset().union(*[self.err_cls.get(key, {}).get(x, frozenset())
                                    for x in (k if isinstance(k, list) else (k,))])
            ip.set_cls(end, ip.cls(end) & c)

    # ---------------------------------------------------------- loops
    def loop_hook(self, ip, f, fr, bb, c):
        if f['krate'] == self.p.crate:
            el = self.loop_elem(f, bb)
            if el is not None and fr[el].v is not UNINIT:
                if self.element_loop(ip, f, fr, bb, el):
                    return
        self.byte_loop(ip, f, fr, bb)

    def loop_elem(self, f, bb):
        """The local of element type that a loop around nested parsing carries."""
        k = (f['id'], bb)
        if k in self.loopcuts:
            return self.loopcuts[k]
        body = f['body']
        els = [l for l in live_in(body)[bb] if self.t.unbox(body['locals'][l]) == self.t.ELEMENT]
        r = None
        if len(els) == 1:
            fw = self.reach(body, bb)
            for b in fw:
                t = body['blocks'][b]['t']
                if t[0] == 'call' and t[2] is not None and bb in self.reach(body, b) and self.parses(t[2]):
                    r = els[0]
        self.loopcuts[k] = r
        return r

    def reach(self, body, b0):
        memo = body.setdefault('_reach', {})
        if b0 not in memo:
            seen, work = set(), [b0]
            while work:
                b = work.pop()
                for s in succs(body['blocks'][b]['t']):
                    if s not in seen:
                        seen.add(s)
                        work.append(s)
            memo[b0] = seen
        return memo[b0]

    def parses(self, fid):
        """Does the function reach a parsing function?"""
        if not hasattr(self, '_parses'):
            self._parses = {}
        if fid in self._parses:
            return self._parses[fid]
        seen, work = {fid}, [fid]
        r = False
        while work and not r:
            g = work.pop()
            if g in self.like:
                r = True
            for h in self.p.callees(self.p.F[g]):
                if h not in seen:
                    seen.add(h)
                    work.append(h)
        self._parses[fid] = r
        return r

    def element_loop(self, ip, f, fr, bb, el):
        """True if the path goes on from a forgotten operand; the path ends if another one stands for it."""
        if ip.rootkey2 is None:
            return False
        for d in range(len(ip.frames) - 1):
            t = ip.stack[d][0]['body']['blocks'][ip.bbs[d]]['t']
            if t[0] != 'call' or t[2] != ip.stack[d + 1][0]['id']:
                return False
        R = ip.refrun
        lvl = None
        if R is not None:
            R.advance(False)
            if R.state != 'head' or R.used < len(ip.events):
                return False
            _, lvl, tree, rpos = R.req
        code = unboxv(fr[el].v)
        ct = self.tree_of(ip, code)
        snap = Snap(self, ip, skip=el)
        S, cell, ci = self.find_state(ip, snap)
        if S is None:
            return False
        pos = snap.ints[ci]
        if R is not None and (ct != tree or not self.eqpos(ip, pos, rpos)):
            return False
        base = ip.a0
        given = {x.t[0][0]: ip.bounds(x) for x in list(ip.state0.values()) + ip.free0 if isinstance(x, Lin)}
        for i, x in enumerate(snap.ints):
            if i != ci and isinstance(x, Lin) and any(s != 'A0' and s not in given for s, _ in x.t):
                return False
        prev = ip.lasthead.get((len(ip.frames), bb))
        d = ip.bounds(lin_add(pos, base if prev is None else prev, -1))[0]
        if d is None or d < 1:
            if prev is not None:
                ip.progress.append(('loop', ip.site()))
            return False
        if prev is not None:
            ip.progress.append(True)
        if isinstance(code, Adt):
            vs = frozenset((code.var,))
        else:
            vs = ip.opq_variants(code)
        if R is not None:
            self.head_ok(ip, tree, pos)
        cls = ip.cls(pos) & ip.utf8_ok(lin(pos))
        cont = bool(cls & CONT)
        key = (snap.key, vs, tuple(x for i, x in enumerate(snap.ints) if i != ci), cont, lvl,
               tuple(given.items()))
        me = tuple(k for k, _ in ip.choices)
        own = self.owner.setdefault(key, me)
        self.heads.add((f['path'], vs))
        if own != me:
            raise PathEnd('infeasible', 'another path stands for this one')
        # forget
        ip.serial += 1
        n = ip.serial
        fa = ip.facts
        H = 'h%d' % (1000 * n)
        ip.an = 1000 * n
        ip.subn = 100 * n
        ip.subcalls = 0
        v = Opq(('acc', n), self.t.ELEMENT)
        ip.tyof.put(v)
        keep = {}
        for a, b in fa.anchors.items():
            if a == 'A0':
                keep[a] = b
        fa.anchors.clear()
        fa.anchors.update(keep)
        fa.anchors[H] = (base, 1)
        hp = pos_of(H)
        for d0 in (fa.bytes, fa.segs, fa.bools, fa.strlit, fa.strneg, fa.fl, fa.frel, fa.lens):
            d0.clear()
        fa.variants.clear()
        fa.variants[v.term] = vs
        fa.bytes[hp] = FULL & (VALID if cont else NOCONT)
        fa.consts[:] = ['after an operand (%s) ending at %s' % ('/'.join(self.t.kinds[x] for x in sorted(vs)), H)]
        ip.events[:] = []
        fr[el].v = BoxV(Cell(v)) if isinstance(fr[el].v, BoxV) else v
        snap.set(ci, hp)
        ip.lasthead[(len(ip.frames), bb)] = hp
        ip.loopst.clear()
        if R is not None:
            R.used = 0
            del R.whys[:]
            R.req = ('head', lvl, ('leaf', v.term), hp)
        ip.headlvl = lvl
        return True

    def head_ok(self, ip, tree, pos):
        """At the loop head the code's operand and position are the grammar's."""
        if self.curres is None:
            return
        h = '%s reads %s up to %s, input %s' % (self.p.F[ip.rootfn]['path'], self.showtree(tree), pos,
                                                self.showpath(ip, ip.facts.consts))
        if h not in self.headset:
            self.headset.add(h)
            self.curres['ok'] += 1
            self.curres['samples'].append((self.tree_topic(ip, tree), h))

    def find_state(self, ip, snap):
        """(state type, cell, index of the cursor among the wide integers)"""
        for i, at in enumerate(snap.where):
            if not isinstance(at[0], int):
                continue
            c = snap.cells[at[0]][0]
            v = c.v
            for j, x in enumerate(at[1:]):
                if isinstance(v, Adt) and v.ty in self.states and j == len(at) - 2 and x == self.states[v.ty]:
                    return v.ty, c, i
                v = v.fs[x]
        return None, None, None

    def model_loop(self, ip, loop):
        self.byte_loop(ip, ip.stack[-1][0], ip.frames[-1], ip.bbs[-1], loop)

    def byte_loop(self, ip, f, fr, bb, loop=None):
        k = (len(ip.frames), id(fr), bb)
        if loop is not None:
            k += (loop,)
        snap = Snap(self, ip, loop=loop)
        sig = factsig(ip)
        rec = ip.loopst.get(k)
        here = dict(phase=1, snap=snap, ints=list(snap.ints), key=snap.key, sig=sig, bytes=dict(ip.facts.bytes), n=0, m=0, ch=ip.nchoices)
        if rec is None:
            ip.loopst[k] = here
            return
        if rec['key'] == snap.key and rec['ints'] == list(snap.ints) and not snap.opaque:
            raise PathEnd('hang', 'a loop comes round to the same state and never ends')
        here['size'] = len(repr(snap.key))
        if rec['ints'] == list(snap.ints) and rec['sig'] == sig and rec['ch'] == ip.nchoices and not snap.opaque \
                and here['size'] > rec.get('size', 0) and rec['bytes'] == here['bytes']:
            # nothing read, nothing decided, something grew
            here['still'] = rec.get('still', 0) + 1
            if here['still'] >= 8:
                raise PathEnd('hang', 'a loop goes on without reading the input, growing what it builds')
        step = self.one_step(ip, rec, snap, sig)
        lk = tuple((g['id'], b) for (g, _), b in zip(ip.stack, ip.bbs)) + (loop is not None,)
        if step is None and rec['phase'] == 2 and rec['key'] == snap.key:
            self.guard(ip, lk, rec, snap, sig)
        if step is None:
            here['n'] = rec['n'] + 1
            here['m'] = rec['m'] + (ip.nchoices > rec['ch'])
            if here['n'] > 80 or here['m'] > 5:
                raise PathEnd('bound', 'loop in ' + f['path'])
            ip.loopst[k] = here
            return
        p, cont, moved = step
        ip.progress.append(True)
        if rec['phase'] == 2:
            if cont <= self.star.get(lk, frozenset()):
                raise PathEnd('infeasible', 'run is longer')
            self.star[lk] = self.star[lk] | cont
            raise Restart('run of bytes')
        C = self.star.get(lk)
        if C is None:
            C = self.star[lk] = cont
        elif not cont <= C:
            self.star[lk] = C | cont
            raise Restart('run of bytes')
        a = self.anchor(ip, p, 1)
        ap = pos_of(a)
        ip.facts.segs[p] = (a, C)
        for i, d in moved:
            snap.set(i, lin_add(rec['ints'][i], lin_add(ap, p, -1), d))
        # what was looked up just behind the first byte is forgotten
        for q in list(ip.facts.bytes):
            if q not in rec['bytes'] and q != p:
                del ip.facts.bytes[q]
        ip.note('bytes %s..%s in %s' % (p, ap, show_cls(C)))
        for (i, k, c), neg in sorted((self.guards.get(lk) or {}).items()):
            # what the last turn found about the number of turns before it
            d = dict(moved).get(i)
            if d is None:
                continue
            x = lin_add(lin_add(rec['ints'][i], lin_add(ap, p, -1), d), -d)
            if ip.decide_neg(lin_add(lin_mul(x, k), c)) != neg:
                raise PathEnd('infeasible', 'the loop had ended before')
        snap2 = Snap(self, ip, loop=loop)
        ip.loopst[k] = dict(phase=2, snap=snap2, ints=list(snap2.ints), key=snap2.key, sig=factsig(ip),
                            bytes=dict(ip.facts.bytes), n=0, m=rec['m'], ch=ip.nchoices, run=(p, a, moved), bools=dict(ip.facts.bools))

    def guard(self, ip, lk, rec, snap, sig):
        """One more turn under conditions on the number of turns alone: from then on they are known of every turn."""
        if not isinstance(rec.get('run'), tuple) or self.guards.get(lk, ()) is None:
            return
        p, a, moved = rec['run']
        turns = lin_add(pos_of(a), p, -1)
        at = [(i, d, lin_add(rec['ints'][i], turns, -d)) for i, d in moved if i < len(rec['ints'])]
        at = [x for x in at if isinstance(x[2], int)]
        new = {}
        for x, v in ip.facts.bools.items():
            if x in rec['bools']:
                continue
            if x[0] != 'neg' or not at:
                return
            i, d, base = at[0]
            for k in (1, -1):
                c = lin_add(x[1], turns, -k)
                if isinstance(c, int):
                    new[(i, k * d, c - k * d * base)] = v
                    break
            else:
                return
        step = self.one_step(ip, dict(rec, sig=sig), snap, sig) if new else None
        if step is None:
            return
        old = self.guards.setdefault(lk, {})
        if old is not None and any(y[:2] == x[:2] and (y != x or old[y] != v) for x, v in new.items() for y in old):
            self.guards[lk] = None
            raise Restart('conditions in a loop')
        if any(x not in old for x in new):
            old.update(new)
            raise Restart('conditions in a loop')
        if not step[1] <= self.star.get(lk, frozenset()):
            self.star[lk] = self.star[lk] | step[1]
            raise Restart('run of bytes')
        raise PathEnd('infeasible', 'run is longer')

    def one_step(self, ip, rec, snap, sig):
        """(position, class, moved integers) if one byte was consumed since rec and nothing else changed."""
        if rec['key'] != snap.key or rec['sig'] != sig or len(rec['ints']) != len(snap.ints):
            return None
        moved = []
        for i, (x, y) in enumerate(zip(rec['ints'], snap.ints)):
            if x != y:
                d = lin_add(y, x, -1)
                if d not in (1, -1):
                    return None
                moved.append((i, d))
        if not moved:
            return None
        ps = {}
        for q, c in ip.facts.bytes.items():
            o = rec['bytes'].get(q)
            if o is None:
                if not c >= NOCONT - {EOF}:
                    ps[q] = c
            elif o != c:
                ps[q] = c
        if not ps:
            # the byte was known already: the cursor itself
            for i, d in moved:
                x = rec['ints'][i]
                if d == 1 and x in rec['bytes'] and EOF not in rec['bytes'][x] and rec['bytes'][x] <= ASCII:
                    ps[x] = rec['bytes'][x]
        if len(ps) != 1:
            return None
        p, c = next(iter(ps.items()))
        if EOF in c or not any(d == 1 and rec['ints'][i] == p for i, d in moved) or not c <= ASCII:
            return None
        if p in ip.facts.segs:
            return None
        return p, c, moved

    # ---------------------------------------------------------- trees
    def tree_of(self, ip, v):
        t = self.t
        v = unboxv(strip(ip, v))
        if isinstance(v, Opq):
            return ('leaf', v.term)
        if not isinstance(v, Adt):
            raise PathEnd('unknown', 'element %r' % (v,))
        k = t.kinds[v.var]
        x = unboxv(v.fs[0])
        if k == 'num':
            if isinstance(x, F):
                if x.t[0] == 'v' and isinstance(x.t[1], tuple) and x.t[1][0] == 'f' and x.t[1][2] == v.var \
                        and self.is_el(ip, x.t[1][1]):
                    return ('leaf', x.t[1][1])
                return ('num', x.t)
            raise PathEnd('unknown', 'number %r' % (x,))
        if k == 'var':
            s = text(ip, x)
            if len(s.parts) == 1 and isinstance(s.parts[0], tuple) and s.parts[0][0] == 's' \
                    and isinstance(s.parts[0][1], tuple) and s.parts[0][1][0] == 'f' and self.is_el(ip, s.parts[0][1][1]):
                return ('leaf', s.parts[0][1][1])
            return ('var', s.parts)
        if isinstance(x, Opq):
            if isinstance(x.term, tuple) and x.term[0] == 'f' and self.is_el(ip, x.term[1]):
                return ('leaf', x.term[1])
            x = ip.expand(x, 0)
        if k == 'bin':
            return ('bin', opname(ip, x.fs[t.bf['op']]), self.tree_of(ip, x.fs[t.bf['lhs']]),
                    self.tree_of(ip, x.fs[t.bf['rhs']]))
        if k == 'un':
            return ('un', opname(ip, x.fs[t.uf['op']]), self.tree_of(ip, x.fs[t.uf['operand']]))
        items = ip.seq(x.fs[t.cf['args']]).items
        return ('call', nk(ip, strip(ip, x.fs[t.cf['desc']]), t.FUNC)) + tuple(self.tree_of(ip, y) for y in items)

    def is_el(self, ip, term):
        return isinstance(term, tuple) and term and term[0] in ('opd', 'acc')

    # ---------------------------------------------------------- reading numbers
    def parse_hook(self, ip, s, ty):
        t = self.p.T[ty]
        vt, et = t['args'][0], t['args'][1]
        if self.p.T[vt]['k'] != 'float':
            return None
        n = self.numtext(ip, s)
        if n is None:
            return None
        if self.p.T[vt]['bits'] != 64:
            n = ('f%d' % self.p.T[vt]['bits'], n)
        if ip.decide(('parses', n)):
            return Adt(ty, 0, (F(('parse', n)),))
        return Adt(ty, 1, (Opq(('parseerr', n), et),))

    def numtext(self, ip, s):
        """The slice whose text, without underscores, is s."""
        if len(s.parts) != 1 or isinstance(s.parts[0], str):
            return None
        p = s.parts[0]
        if p[0] == 'replace' and p[2] == ord('_') and p[3] == StrV(()):
            q = p[1].parts
            if len(q) == 1 and isinstance(q[0], tuple) and q[0][0] == 'slice':
                return ('numtext', q[0][2], q[0][3])
            return None
        if p[0] == 'slice':
            x = p[2]
            for _ in range(40):
                if x == p[3]:
                    return ('numtext', p[2], p[3])
                seg = ip.facts.segs.get(x)
                c = ip.cls(x)
                if ord('_') in c or (seg is not None and ord('_') in seg[1]):
                    return ('rawtext', p[2], p[3])
                x = pos_of(seg[0]) if seg is not None else lin_add(x, 1)
        return None

    # ---------------------------------------------------------- exploration
    def opts(self):
        return dict(regions=True, group_tys=(self.KIND,), variants=self.err_variants, refined=self.err_refined, loop_hook=self.loop_hook,
                    model_loop=self.model_loop,
                    parse=self.parse_hook, utf8=self.utf8, char_ty=self.char, decide=self.decide)

    def decide(self, ip, t):
        return None

    def utf8(self, ip, b):
        if not isinstance(b, BytesV):
            return
        for x in (b.lo, b.hi):
            if x is None or x == 0:
                continue
            c = ip.cls(x) & ip.utf8_ok(lin(x))
            ip.set_cls(x, c)
            ip.u8.append((not c & CONT, x, ip.site()))

    def prepare(self, ip, rootfn, rootkey):
        ip.rootfn, ip.rootkey2 = rootfn, rootkey
        ip.entered2 = False
        ip.an = ip.subn = ip.serial = ip.subcalls = 0
        ip.long = 0
        ip.errinfo, ip.lasthead, ip.loopst = {}, {}, {}
        ip.progress, ip.u8, ip.heads = [], [], []
        ip.refrun = None
        ip.deflt = False
        ip.a0 = 0
        ip.state0, ip.free0 = {}, []
        for b in self.builtins:
            ip.hooks[b] = self.builtin_hook
        for b in self.clones:
            ip.hooks[b] = self.clone_hook

    def copies(self):
        """Clone of a function value is that value (checked here, then used as its contract)."""
        self.clones = {}
        for f in self.p.F.values():
            if f['krate'] != self.p.crate or not f['body'] or not f['sig'] or len(f['sig']) != 2 \
                    or f['sig'][1] != self.t.FUNC or not f['path'].endswith('Clone>::clone'):
                continue
            good = True
            for r in explore(lambda s: self.s.interp(s, f['id'], {}), lambda ip: (self.prepare(ip, None, None), ip.call(
                    f['id'], [Ref(Cell(Opq(('copied',), self.t.FUNC)))]))[1], max_paths=50):
                good &= r.kind == 'return' and same_opq(r.ip, r.info, Opq(('copied',), self.t.FUNC))
            if good:
                self.clones[f['id']] = f

    def clone_hook(self, ip, f, a):
        v = strip(ip, a[0])
        return v if isinstance(v, Opq) else NotImplemented

    def run(self):
        self.s = ParseSession(self, {})
        self.s.opts = self.opts()
        self.clones = {}
        self.varies, self.free = set(), set()
        self.copies()
        tries = 0
        while True:
            try:
                self.work()
                break
            except NewCut:
                tries += 1
                if tries > 12:
                    raise Anchor('recursion structure of the parser')
        self.finish()
        return list(self.reps.values())

    def work(self):
        self.ok_cls, self.err_cls, self.deps, self.results = {}, {}, {}, {}
        self.template = {}
        self.given, self.steps, self.width, self.passed = {}, {}, {}, {}
        self.dirty, self.met = set(), set()
        self.subs_at_start = {}
        roots = [('root', f['id']) for f in self.roots()]
        self.queue = list(roots)
        levels = {}
        met = set()
        rounds = 0
        self.provenance = {}
        self.phase = 1
        while True:
            if not self.queue:
                if self.phase == 2:
                    break
                # the tables are stable for short argument lists: now everything, in full
                self.phase = 2
                self.queue = roots + list(levels)
            rounds += 1
            if rounds > 400:
                raise Anchor('fixpoint of the parsing contracts')
            job = self.queue.pop(0)
            before = {k: (self.ok_cls.get(k), dict(self.err_cls.get(k, {}))) for k in [job[0]]}
            while True:
                self.dirty = set()
                self.met, self.found = set(), set()
                try:
                    res = self.root_job(job) if job[0] == 'root' else self.job(job)
                    break
                except Restart:
                    continue
            self.results[job] = res
            self.counters()
            for key, lvl, why in sorted(res['pairs'] | self.found, key=repr):
                j = (key, lvl)
                self.provenance.setdefault(j, set()).add(why)
                if j not in levels:
                    levels[j] = 1
                    self.queue.append(j)
                    if len(levels) > 40:
                        raise Anchor('number of parsing contracts')
            met |= self.met
            changed = set(self.dirty)
            if job[0] != 'root':
                k = job[0]
                if before[k] != (self.ok_cls.get(k), dict(self.err_cls.get(k, {}))):
                    changed.add(k)
            for k in changed:
                todo = set(self.deps.get(k, ())) | ({k} if k in self.dirty else set())
                for d in todo:
                    for j in ([j for j in levels if j[0] == d] if d is not None else roots):
                        if j not in self.queue:
                            self.queue.append(j)
            if not self.queue:
                # functions met without a counterpart in the grammar still need their contract
                for key in sorted(met, key=repr):
                    if not any(j[0] == key for j in levels):
                        levels[(key, None)] = 1
                        self.queue.append((key, None))

    def counters(self):
        """Arguments that every nested call passes on, or adds one to or takes one from, are treated as any number."""
        for at, by in self.passed.items():
            for d in (1, -1):
                vs = [v for v in by if isinstance(v, int) and v + d in by[v]]
                if at not in self.free and len(vs) > 1 and all(isinstance(v, int) and by[v] <= {v, v + d} for v in by):
                    self.free.add(at)
                    raise Varies()

    def roots(self):
        out = [self.parse]
        for f in self.p.F.values():
            if f['krate'] == self.p.crate and f['body'] and f['sig'] and len(f['sig']) == 2:
                a, r = self.p.T[f['sig'][0]], self.p.T[f['sig'][1]]
                if a['k'] == 'ref' and self.p.T[a['to']]['k'] == 'str' and r['k'] == 'adt' \
                        and r['path'] == 'core::result::Result' and r['variants'][0]['fields'][0][1] == self.t.XPRS:
                    out.append(f)
        return out

    # ---------------------------------------------------------- one function
    def job(self, job):
        """One parsing function against one level of the grammar."""
        key, lvl = job
        fid, args = key
        f = self.p.F[fid]
        i, S = self.like[fid]
        cur = self.states[S]
        tmpl = self.template.get(S)
        if tmpl is None:
            raise Anchor('state the parser starts with')
        self.owner, self.heads, self.headset = {}, set(), set()
        res = self.curres = dict(pairs=set(), viol=[], unk=[], ok=0, samples=[])
        A0 = Lin((('A0', 1),), 0)

        def mk(ip):
            ip.a0 = A0
            ip.facts.anchors['A0'] = (0, 0)
            ip.facts.bytes[A0] = VALID if key in self.start_cont else NOCONT
            fs = list(tmpl.fs)
            fs[cur] = A0
            for j, (nm, ft) in enumerate(self.p.T[S]['variants'][0]['fields']):
                if j != cur and self.p.T[ft]['k'] in ('int', 'bool'):
                    fs[j] = ip.opq(('state', nm, 'in'), ft)
                    if isinstance(fs[j], Lin):
                        self.width[nm] = ip.bounds(fs[j])
                    ip.state0[j] = fs[j]
            ip.st = Cell(Adt(tmpl.ty, tmpl.var, tuple(fs)))
            a = []
            rest = list(self.argvals[key])
            for j in range(len(f['sig']) - 1):
                a.append(Ref(ip.st) if j == i else rest.pop(0))
                if (fid, j) in self.free:
                    a[j] = ip.opq(('state', (fid, j), 'in'), f['sig'][j])
                    self.width[(fid, j)] = ip.bounds(a[j])
                    ip.free0.append(a[j])
            ip.ctxref = self.ctxref
            if lvl is not None:
                ip.refrun = RefRun(self, ip, self.grammar(ip).element(lvl, A0))
            return a

        def body(ip):
            self.prepare(ip, fid, key)
            return ip.call(fid, mk(ip))
        self.explore(f, body, res, key, lvl, lambda ip: ip.st.v.fs[cur] if isinstance(ip.st.v, Adt) else None)
        return res

    def explore(self, f, body, res, key, lvl, endpos, check=None):
        maxp = 12000
        via = self.provenance.get((key, lvl), set()) if key is not None else {'root'}
        n, seen = 0, len(res['viol'])
        for r in explore(lambda s: self.s.interp(s, f['id'], {}), self.with_ref(body, f, res, key, lvl, via, endpos, check),
                         max_paths=maxp):
            n += 1
            ip = r.ip
            if getattr(ip, 'skipto', None) is not None:
                del ip.choices[ip.skipto:]
            if r.kind != 'return':
                self.settle(f, r, res, key, lvl, via)
            new = len(res['viol'])
            if new > seen:
                need = self.stated(ip)
                for k in range(seen, new):
                    if need != []:
                        res.setdefault('need', {})[k] = need
                seen = new
            if r.kind == 'return':
                continue
            if len(res['viol']) > 60:
                break
        res['paths'] = n
        self.paths += n

    def settle(self, f, r, res, key, lvl, via):
        """A path that ended inside the code."""
        ip = r.ip
        self.common(ip, f, res)
        where = '%s%s' % (f['path'], self.argtext(key))
        site = '%s, input %s' % (where, self.showpath(ip, r.log))
        if r.kind == 'panic':
            res['viol'].append((('C01',), '%s:panic:%s' % (self.short(f), self.last(r)), '%s: panics, %s at %s' % (
                site, r.info, r.where), False))
        elif r.kind == 'ub':
            res['viol'].append((('C20', 'C01'), '%s:ub:%s' % (self.short(f), self.last(r)), '%s: undefined behaviour, %s at %s' % (
                site, r.info, r.where), False))
        elif r.kind == 'bound':
            res.setdefault('bound', []).append('%s: %s' % (site, r.info))
        else:
            res['unk'].append((tuple(ALL), '%s:%s' % (self.short(f), r.kind), '%s: %s at %s' % (site, r.info, r.where)))

    def last(self, r):
        w = r.where.split(' > ')
        return re.sub(r':\d+$', '', w[-1]) if w else ''

    def short(self, f):
        return f['path'].rsplit('::', 1)[1]

    def argtext(self, key):
        if key is None:
            return ''
        return '(%s)' % ', '.join(tstr(x) for x in key[1])

    def common(self, ip, f, res):
        for okk, x, site in ip.u8:
            if okk:
                res['ok'] += 1
                res.setdefault('u8ok', set()).add('%s: slice bound %s is a character boundary' % (site[0], x))
            else:
                res['viol'].append((('C20',), 'utf8:' + site[0], '%s: text is cut at %s, which may be inside a character '
                                    '(byte in %s); input %s' % (site[0], x, show_cls(ip.cls(x)),
                                                                self.showpath(ip, ip.facts.consts)), False))
        for e in ip.progress:
            if e is True:
                res['prog'] = res.get('prog', 0) + 1
            elif e[0] == 'loop':
                res['unk'].append((('C27',), 'loop:' + e[1][0], '%s: a loop goes round without consuming input' % e[1][0]))
            else:
                res.setdefault('same', set()).add((ip.rootkey2, e[0], e[1][0]))

    def showpath(self, ip, log):
        return '; '.join(log)[-420:] or 'any'

    def with_ref(self, body, f, res, key, lvl, via, endpos, check):
        def go(ip):
            v = body(ip)
            self.common(ip, f, res)
            v = ip.expand(v) if isinstance(v, Opq) else v
            end = endpos(ip)
            if key is not None:
                self.record(ip, key, v, end)
            ip.skipto0 = len(ip.choices)
            if check is not None:
                check(ip, v, res)
                return v
            if lvl is None:
                self.errors(ip, f, v, None, res, key)
                return v
            R = ip.refrun
            try:
                R.advance(True)
            except GiveUp:
                res['unk'].append((tuple(ALL), '%s:deep' % self.short(f), '%s%s, input %s: the grammar goes deeper than the '
                                   'comparison' % (f['path'], self.argtext(key), self.showpath(ip, ip.facts.consts))))
                return v
            for pr in R.pairs:
                res['pairs'].add(pr)
            bad = self.compare(ip, f, v, end, R, via)
            self.errors(ip, f, v, R, res, key)
            site = '%s%s against the grammar at level %s, input %s' % (
                f['path'], self.argtext(key), lvl, self.showpath(ip, ip.facts.consts))
            if bad is None and ip.steer:
                res.setdefault('bound', []).append('%s: %s' % (site, 'the text goes on far beyond what the code read'))
            elif bad is None:
                res['ok'] += 1
                if len(res['samples']) < 400:
                    res['samples'].append((self.topic(ip, R, v), '%s: %s' % (site, self.outcome(ip, v, end))))
            else:
                tags, msg = bad
                res['viol'].append((tags, '%s:%s' % (self.short(f), self.sig(ip, R, tags, v)), '%s: %s' % (site, msg),
                                    self.blanks(ip)))
                ip.skipto = ip.skipto0
            return v
        return go

    def record(self, ip, key, v, end):
        """Grows the contract tables by the outcome of a path."""
        S = self.like[key[0]][1]
        for j, x in ip.state0.items():
            if vkey(ip.st.v.fs[j]) != vkey(x) and (S, j, v.var == 0) not in self.varies:
                self.varies.add((S, j, v.var == 0))
                raise Varies()
        c = ip.cls(end) & ip.utf8_ok(lin(end))
        if v.var == 0:
            self.ok_cls[key] = self.ok_cls.get(key, frozenset()) | c
            d = ip.bounds(lin_add(end, ip.a0, -1))[0]
            if d is None or d < 1:
                ip.progress.append(('loop', (self.p.F[key[0]]['path'], None)))
            return
        t = self.err_cls.setdefault(key, {})
        e = unboxv(v.fs[0])
        if isinstance(e, Adt):
            k = e.fs[self.ef['kind']]
            if isinstance(k, Opq):
                vs = ip.opq_variants(k)
            else:
                vs = (k.var,)
            for x in vs:
                t[x] = t.get(x, frozenset()) | c
            return
        if isinstance(e, Opq) and isinstance(e.term, tuple) and e.term[0] == 'err':
            e_end, sub = ip.errinfo[e.term[1]]
            known = ip.facts.variants.get(('f', e.term, 0, self.ef['kind']))
            for x, cc in list(self.err_cls.get(sub, {}).items()):
                if known is not None and x not in known:
                    continue
                t[x] = t.get(x, frozenset()) | ((c & cc) if e_end == end else c)
            return
        for x in range(len(self.kinds)):
            t[x] = t.get(x, frozenset()) | c

    # ---------------------------------------------------------- comparison
    def outcome(self, ip, v, end):
        if v.var == 0:
            return 'accepts %s up to %s' % (self.showtree(self.tree_of(ip, v.fs[0])), end)
        return 'rejects'

    def showtree(self, t):
        k = t[0]
        if k == 'leaf':
            return {'opd': 'operand%s', 'acc': 'operand-so-far%s'}.get(t[1][0], '%s') % (t[1][1] if t[1][0] == 'opd' else '',)
        if k == 'num':
            x = t[1]
            return 'number(%s)' % (tstr(x[1]) if x[0] == 'parse' else fstr(x))
        if k == 'var':
            return 'variable(%s)' % tstr(StrV(t[1]))
        if k == 'un':
            return '%s(%s)' % (t[1], self.showtree(t[2]))
        if k == 'bin':
            return '%s(%s, %s)' % (t[1], self.showtree(t[2]), self.showtree(t[3]))
        return 'call %s(%s)' % (tstr(t[1]), ', '.join(self.showtree(x) for x in t[2:]))

    def compare(self, ip, f, v, end, R, via):
        ok = v.var == 0
        byte = self.stopbyte
        if ok and R.reject is None:
            ct = self.tree_of(ip, v.fs[0])
            rt, rend = R.result
            tags = set()
            if ct != rt:
                tags |= self.diff(ct, rt, ip)
                if not self.eqpos(ip, end, rend):
                    tags |= self.stop_tags(ip, end, end, via)
            elif not self.eqpos(ip, end, rend):
                tags |= self.stop_tags(ip, end, rend, via) | {'C10'}
            if not tags:
                return None
            if 'sign' in via and tags & {'C07', 'C08'}:
                tags.add('C09')
            return tuple(sorted(tags)), 'builds %s up to %s instead of %s up to %s' % (
                self.showtree(ct), end, self.showtree(rt), rend)
        if ok:
            why = R.reject.why
            tags = {'C10'}
            ct = self.tree_of(ip, v.fs[0])
            if why in ('malformed',):
                tags = {'C28', 'C10'}
            elif why == 'arity':
                tags = {'C14'}
            elif why in ('args',):
                tags = {'C10', 'C14'}
            elif why == 'no call':
                tags = {'C12', 'C10'}
            elif why in ('end', 'start', 'sub'):
                tags = {'C10'} | self.shape_tags(ct)
            return tuple(sorted(tags)), 'accepts %s up to %s although the text is outside the grammar (%s at %s)' % (
                self.showtree(ct), end, why, ', '.join(str(x) for x in R.reject.info[:1] if not isinstance(x, dict)) or '?')
        if R.reject is None:
            rt, rend = R.result
            tags = {'C10'} | self.shape_tags(rt)
            return tuple(sorted(tags)), 'rejects text the grammar reads as %s up to %s' % (self.showtree(rt), rend)
        # both reject: the kinds the properties speak of
        e = unboxv(v.fs[0])
        kind = self.kindof(ip, e)
        why = R.reject.why
        if why == 'malformed' and kind is not None and kind != 'MalformedNumber':
            return ('C28',), 'reports %s for text that is no number' % kind
        if why == 'arity' and kind is not None:
            n, got = R.reject.info[0], R.reject.info[1]
            k = e.fs[self.ef['kind']] if isinstance(e, Adt) else None
            if kind not in ('TooFewArguments', 'TooManyArguments') or not isinstance(k, Adt):
                return ('C14',), 'reports %s for a call with %d arguments instead of %s' % (kind, got, tstr(vkey(n)))
            few = ip.truth(ip.cmpint('Lt', got, n))
            if few != (kind == 'TooFewArguments'):
                return ('C14',), 'reports %s for a call with %s arguments than declared' % (kind, 'fewer' if few else 'more')
            if len(k.fs) != 2 or not self.same_int(ip, k.fs[0], n) or not self.same_int(ip, k.fs[1], got):
                return ('C14',), '%s states %s, the call has %d arguments and %s are declared' % (
                    kind, tuple(str(x) for x in k.fs), got, n)
        if kind in ('TooFewArguments', 'TooManyArguments') and why != 'arity':
            return ('C14',), 'reports %s where the grammar fails for another reason (%s)' % (kind, why)
        if kind == 'MalformedNumber' and why != 'malformed':
            return ('C28',), 'reports a malformed number where the grammar fails for another reason (%s)' % why
        return None

    def same_int(self, ip, a, b):
        if a == b:
            return True
        d = lin_add(a, b, -1) if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) else None
        if d is None:
            return False
        lo, hi = ip.bounds(d)
        return lo == 0 and hi == 0

    def kindof(self, ip, e):
        if not isinstance(e, Adt):
            return None
        k = e.fs[self.ef['kind']]
        if isinstance(k, Adt):
            return self.kinds[k.var]
        return None

    def shape_tags(self, t):
        k = t[0]
        if k == 'num':
            return {'C28'} if t[1][0] == 'parse' else {'C12'}
        if k == 'var':
            return {'C12'}
        if k == 'call':
            return {'C14'}
        if k == 'un':
            return {'C09'}
        if k == 'bin':
            return {'C07', 'C08'}
        return set()

    def stopbyte(self, ip, p):
        return ip.facts.bytes.get(self.skipb(ip, p))

    def stop_tags(self, ip, end, rend, via):
        tags = set()
        for p in (end, rend):
            c = self.stopbyte(ip, p)
            if c is None:
                continue
            if c <= frozenset(OPS):
                tags.add('C07')
            elif c <= LETTER | DIGIT | frozenset(b'('):
                tags.add('C08')
            elif c <= frozenset(b'!'):
                tags.add('C09')
        return tags

    def diff(self, a, b, ip):
        if a == b:
            return set()
        ka, kb = a[0], b[0]
        if ka == kb == 'num':
            pa, pb = a[1][0] == 'parse', b[1][0] == 'parse'
            return {'C28'} if pa and pb else {'C12'} if not pa and not pb else {'C12', 'C28'}
        if ka == kb == 'bin':
            tags = set()
            if a[1] != b[1]:
                tags |= self.how(ip)
            s = self.diff(a[2], b[2], ip) | self.diff(a[3], b[3], ip)
            if s and not tags:
                # the same operator over other operands
                tags |= s if self.leafy(s) else self.how(ip) | {'C07'}
                if a[2] == b[3] and a[3] == b[2]:
                    tags |= {'C10'}
            return tags or {'C10'}
        if ka == kb == 'un':
            return ({'C09'} if a[1] != b[1] else set()) | self.diff(a[2], b[2], ip) or {'C09'}
        if ka == kb == 'call':
            if a[1] != b[1]:
                return {'C12'}
            return {'C14', 'C10'}
        if ka == kb == 'var':
            return {'C12'}
        tags = set()
        ks = {ka, kb}
        if ks & {'num', 'var', 'call'} and ks <= {'num', 'var', 'call'}:
            return {'C12'} | ({'C14'} if 'call' in ks else set())
        if 'un' in ks:
            tags.add('C09')
        if 'bin' in ks:
            tags |= self.how(ip)
        return tags or {'C10'}

    def leafy(self, s):
        return bool(s & {'C28', 'C12', 'C14', 'C09'})

    def how(self, ip):
        """What the path's binary operations are written with: operators, nothing, or both."""
        w = ip.refrun.whys
        return ({'C08'} if 'implicit' in w else set()) | ({'C07'} if 'op' in w or 'implicit' not in w else set())

    def blanks(self, ip):
        f = ip.facts
        return any(c <= BLANKS for c in f.bytes.values()) or any(c <= BLANKS for _, c in f.segs.values())

    def sig(self, ip, R, tags, v):
        why = R.reject.why if R.reject is not None else 'ok'
        return '%s:%s:%s' % ('+'.join(tags), 'accepts' if v.var == 0 else 'rejects', why)

    def topic(self, ip, R, v):
        if R.reject is not None:
            return {'malformed': 'C28', 'arity': 'C14', 'args': 'C14', 'no call': 'C12'}.get(R.reject.why, 'C10')
        return self.tree_topic(ip, R.result[0])

    def tree_topic(self, ip, t):
        if t[0] == 'bin':
            return 'C08' if self.how(ip) == {'C08'} else 'C07'
        if t[0] == 'un':
            return 'C09'
        if t[0] == 'num':
            return 'C28' if t[1][0] == 'parse' else 'C12'
        return {'var': 'C12', 'call': 'C14'}.get(t[0], 'C07')

    # ---------------------------------------------------------- errors (C23)
    def errors(self, ip, f, v, R, res, key):
        if v.var == 0:
            return
        e = unboxv(v.fs[0])
        if not isinstance(e, Adt):
            return
        msg = self.bad_error(ip, e, R)
        kind = self.kindof(ip, e) or '?'
        site = '%s%s, input %s' % (f['path'], self.argtext(key), self.showpath(ip, ip.facts.consts))
        if msg is None:
            res['c23'] = res.get('c23', 0) + 1
            res.setdefault('c23s', []).append('%s: %s at %s' % (site, kind, self.showspan(e)))
        elif msg[0] == '?':
            res['unk'].append((('C23',), 'error:%s' % kind, '%s: %s: %s' % (site, kind, msg[1:])))
        else:
            res['viol'].append((('C23',), 'error:%s' % kind, '%s: %s: %s' % (site, kind, msg), False))

    def showspan(self, e):
        s = e.fs[self.ef['span']]
        return '%s+%s' % (s.d['off'], s.d['len']) if isinstance(s, Obj) else '?'

    def bad_error(self, ip, e, R):
        src = e.fs[self.ef['src']]
        if not (isinstance(src, StrV) and src.parts == (('s', 'input'),)):
            return 'the error carries %s instead of the input' % (src,)
        sp = e.fs[self.ef['span']]
        if not isinstance(sp, Obj) or sp.k != 'span':
            return '?span %r' % (sp,)
        off, ln = sp.d['off'], sp.d['len']
        if not isinstance(off, (int, Lin)) or not isinstance(ln, (int, Lin)):
            return '?span %r' % (sp,)
        for x, n in ((off, 'start'), (ln, 'length')):
            lo = ip.bounds(x)[0]
            if lo is None or lo < 0:
                return 'the %s %s of the span may be negative' % (n, x)
        end = lin_add(off, ln)
        if not self.inside(ip, end):
            return 'the span %s+%s may reach past the end of the input' % (off, ln)
        k = e.fs[self.ef['kind']]
        if not isinstance(k, Adt):
            return None
        name = self.kinds[k.var]
        if name in ('UnexpectedToken', 'IllegalCharacter'):
            c = k.fs[0]
            cl = ip.cls(off)
            if EOF in cl:
                return 'the reported position %s may be the end of the input' % (off,)
            if isinstance(c, BF) and c.pos == off and all(c.tab[b] == b for b in cl) and cl <= ASCII:
                return None
            if isinstance(c, BF) and c.pos == off and not cl <= ASCII:
                return 'the character %r is only the first byte of the one at %s' % (c, off)
            if isinstance(c, Opq) and c.term == ('charat', off):
                return None
            if isinstance(c, int) and cl == frozenset((c,)) and c < 128:
                return None
            return 'the reported character %r is not the one at %s' % (c, off)
        if name == 'MalformedNumber':
            s = text(ip, k.fs[0])
            if s.parts != (('slice', 'input', off, end),):
                return 'the reported text %s is not the input at %s..%s' % (tstr(s), off, end)
        if name in ('TooFewArguments', 'TooManyArguments') and R is not None and R.reject is not None \
                and R.reject.why == 'arity':
            p, q = R.reject.info[2], R.reject.info[3]
            if off != p or not self.eqpos(ip, end, q):
                return 'the span %s..%s is not the call %s..%s' % (off, end, p, q)
        return None

    def inside(self, ip, end):
        if end == Lin((('LEN', 1),), 0) or ip.is_pos(end):
            return True
        ps = [0] + [pos_of(a) for a in ip.facts.anchors]
        for q in list(ip.facts.bytes):
            if ip.is_pos(q):
                ps.append(q)
            elif EOF not in ip.cls(q):
                ps.append(lin_add(q, 1))
        for q in ps:
            d = ip.bounds(lin_add(q, end, -1))[0]
            if d is not None and d >= 0:
                return True
        return False

    # ---------------------------------------------------------- entry points
    def root_job(self, job):
        f = self.p.F[job[1]]
        own = f['id'] == self.parse['id']
        res = dict(pairs=set(), viol=[], unk=[], ok=0, samples=[])
        self.owner, self.heads, self.curres = {}, set(), None

        def body(ip):
            self.prepare(ip, f['id'], None)
            ip.deflt = not own
            ip.facts.bytes[0] = NOCONT
            if own:
                px = ip.opq('parser', f['sig'][0])
                ip.parser = px
                ip.ctxref = Ref(px.cell, px.path + (('f', self.pf, None),))
                self.ctxref = ip.ctxref
                a = [px, StrV((('s', 'input'),))]
            else:
                a = [StrV((('s', 'input'),))]
            ip.refrun = RefRun(self, ip, self.grammar(ip).root())
            ip.args = a
            return ip.call(f['id'], a)
        self.explore(f, body, res, None, None, lambda ip: None, check=lambda ip, v, rs: self.root_check(ip, f, own, v, rs))
        return res

    def root_check(self, ip, f, own, v, res):
        R = ip.refrun
        site = '%s, input %s' % (f['path'], self.showpath(ip, ip.facts.consts))
        try:
            R.advance(True)
        except GiveUp:
            res['unk'].append((tuple(ALL), 'root:deep', site))
            return
        for pr in R.pairs:
            res['pairs'].add(pr)
        n = len(ip.events)
        log = self.showpath(ip, ip.facts.consts)
        site = '%s, input %s' % (f['path'], log)
        if own:
            exp = ip.call(self.ctx_exp['id'], [ip.ctxref])
            k = ip.variant_of(exp)
            E = strip(ip, ip.expand(exp, k).fs[0]) if self.p.T[self.ctx_exp['sig'][-1]]['variants'][k]['fields'] else None
        else:
            E = None
        ok = v.var == 0
        bl = self.blanks(ip)
        self.errors(ip, f, v, R, res, None)

        def bad(tags, key, msg):
            res['viol'].append((tags, 'root:%s' % key, '%s: %s' % (site, msg), bl))
        e = None if ok else unboxv(v.fs[0])
        kind = None if ok else self.kindof(ip, e)
        if ip.steer and ok == (R.reject is None):
            res.setdefault('bound', []).append(site + ': the text goes on far beyond what the code read')
            return
        if R.reject is not None:
            if ok:
                tags = ('C10',)
                return bad(tags, 'accepts', 'accepts input outside the grammar (%s)' % R.reject.why)
            res['ok'] += 1
            res['samples'].append(('C10', '%s: rejects (%s)' % (site, R.reject.why)))
            return
        tree, pos = R.result
        root = Opq(tree[1], self.t.ELEMENT) if tree[0] == 'leaf' else None
        if root is None:
            return res['unk'].append((('C10',), 'root', site))
        want = ('S', root.term) if self.opt else root.term
        vparts = tuple(sorted(known(ip, {('set', ('VARS', want))}), key=repr))
        unknown_vars = False
        if E is not None:
            if not isinstance(E, SetV):
                return res['unk'].append((('C16',), 'root', '%s: expected variables %r' % (site, E)))
            from models import set_diff, set_items
            d = set_items(ip, set_diff(ip, SetV(vparts), E))
            unknown_vars = bool(d)
        if unknown_vars:
            if ok:
                return bad(('C16',), 'unexpected', 'accepts an expression with a variable that is not expected')
            if kind is None:
                return bad(('C16', 'C10'), 'unexpected', 'reports another error for an unexpected variable')
            if kind != 'VariableNotDeclared':
                return bad(('C16',), 'unexpected', 'reports %s for an unexpected variable' % kind)
            k = e.fs[self.ef['kind']]
            nm = text(ip, k.fs[0])
            if all(nm.parts != text(ip, x).parts for x in d):
                return bad(('C16',), 'reported', 'reports %s, which is not one of the unexpected variables %s' % (
                    tstr(nm), [tstr(text(ip, x)) for x in d]))
            lst = k.fs[1]
            if not self.is_list_of(ip, lst, E):
                return bad(('C16',), 'list', 'the error lists %r instead of the expected variables' % (lst,))
            res['ok'] += 1
            res['samples'].append(('C16', '%s: reports an unexpected variable' % site))
            return
        if not ok:
            if kind == 'VariableNotDeclared':
                return bad(('C16',), 'rejects', 'rejects an expression for its variables although all are allowed')
            return bad(('C10',), 'rejects', 'rejects input the grammar accepts')
        x = ip.expand(v.fs[0], 0) if isinstance(v.fs[0], Opq) else v.fs[0]
        r0 = unboxv(x.fs[self.t.ROOTF])
        got = self.rootkey(r0)
        if got != want:
            tags = ('C06',) if self.opt or (isinstance(got, tuple) and got[:1] == ('S',)) else ('C10',)
            return bad(tags, 'expression', 'returns %s instead of %s' % (tstr(got), tstr(want)))
        vs = x.fs[self.t.VARSF]
        if not isinstance(vs, SetV):
            return res['unk'].append((('C15',), 'root:vars', '%s: %r' % (site, vs)))
        if known(ip, parts_of(ip, vs)) != set(vparts) or vs.minus:
            return bad(('C15',), 'vars', 'the reported variables are %r, those of the expression are %r' % (vs, vparts))
        res['ok'] += 1
        for tp in ('C16' if E is not None else 'C10', 'C15') + (('C06',) if self.opt else ()):
            res['samples'].append((tp, '%s: returns %s with its variables' % (site, tstr(got))))

    def rootkey(self, v):
        if isinstance(v, Opq):
            return v.term
        return vkey(v)

    def is_list_of(self, ip, lst, E):
        if isinstance(lst, Seq):
            from models import set_items
            want = [text(ip, x) for x in set_items(ip, E)]
            got = [text(ip, x) for x in lst.items]
            return sorted(map(repr, want)) == sorted(map(repr, got))
        return False

    # ---------------------------------------------------------- results
    def finish(self):
        R = self.reps
        if self.builtins and not self.hooked:
            for p in ('C12', 'C10', 'C14'):
                R[p].unknown('builtin', 'the parser never asks for a built-in')
        by = {}
        for job, res in self.results.items():
            fn = self.p.F[job[1] if job[0] == 'root' else job[0][0]]['path']
            for k, (tags, key, msg, bl) in enumerate(res['viol']):
                real = k not in res.get('need', ()) or self.reached(job[0] if job[0] != 'root' else None, res['need'][k])
                if not real:
                    for t in tags if real is None else ():
                        R[t].unknown('state:' + key, msg + ' (if the state of the parser can be such)')
                    continue
                for t in tags:
                    by.setdefault((fn, job, t), []).append((key, msg, bl))
        covered = {self.p.F[x]['path'] for x in self.s.coverage if self.p.F[x]['krate'] == self.p.crate}
        for (fn, job, t), l in sorted(by.items(), key=repr):
            if t in ('C01', 'C20', 'C23', 'C06', 'C15', 'C16'):
                for key, msg, bl in l:
                    R[t].violation(key, msg)
                continue
            for key, msg, bl in l:
                R[t].violation(key, msg)
            if all(bl for _, _, bl in l):
                for key, msg, bl in l:
                    R['C11'].violation('blank:' + key, msg)
            for key, msg, bl in l:
                # the builds with and without optimisation must agree: check.py keeps what only one of them shows
                R['C06'].violation('pair:' + key, msg)
        for job, res in sorted(self.results.items(), key=repr):
            for ps, key, msg in res['unk']:
                for p in ps:
                    if p in R:
                        R[p].unknown(key, msg)
            for topic, s in res['samples']:
                R[topic].ok(s)
            R['C10'].discharged += 0
            extra = res['ok'] - len(res['samples'])
            R['C01'].obligations += res.get('paths', 0)
            R['C01'].discharged += res.get('paths', 0) - sum(1 for v in res['viol'] if 'C01' in v[0])
            R['C11'].obligations += len(res['samples'])
            R['C11'].discharged += len(res['samples'])
            for s in res.get('c23s', []):
                R['C23'].ok(s)
            for s in res.get('u8ok', ()):
                R['C20'].ok(s)
            for _ in range(res.get('prog', 0)):
                R['C27'].ok()
            for b in res.get('bound', [])[:3]:
                R['C10'].notes.append(b)
        self.termination()
        for p, r in R.items():
            r.functions |= covered
            r.paths = self.paths
            for job in sorted(self.results, key=repr):
                if job[0] != 'root':
                    r.notes.append('%s%s proved against level %s of the grammar; stops at %s' % (
                        self.p.F[job[0][0]]['path'], self.argtext(job[0]), job[1],
                        show_cls(self.ok_cls.get(job[0], frozenset()))))

    def termination(self):
        """Calls that consume nothing must not form a cycle."""
        R = self.reps['C27']
        g = {}
        for job, res in self.results.items():
            for a, b, site in res.get('same', ()):
                if a is not None:
                    g.setdefault(a, set()).add((b, site))
        seen = {}

        def dfs(k, path):
            if k in path:
                f = self.p.F[k[0]]
                R.violation('recursion:' + f['path'], '%s calls itself again at the same position of the input: %s' % (
                    f['path'], ' > '.join(self.p.F[x[0]]['path'] for x in path[path.index(k):] + [k])))
                return
            if k in seen:
                return
            for b, site in g.get(k, ()):
                dfs(b, path + [k])
            seen[k] = 1
            R.ok()
        for k in sorted({j[0] for j in self.results if j[0] != 'root'}, key=repr):
            dfs(k, [])


def base_of(v):
    """The opaque value that one of v's parts was taken from."""
    if isinstance(v, Adt):
        for i, x in enumerate(v.fs):
            t = None
            if isinstance(x, Opq):
                t = x.term
            elif isinstance(x, FnOpq):
                t = x.term
            elif isinstance(x, StrV) and len(x.parts) == 1 and isinstance(x.parts[0], tuple) and x.parts[0][0] == 's':
                t = x.parts[0][1]
            elif isinstance(x, F) and x.t[0] == 'v':
                t = x.t[1]
            elif isinstance(x, Adt):
                t = base_of(x)
            if isinstance(t, tuple) and len(t) == 4 and t[0] == 'f' and t[2] == v.var and t[3] == i:
                return t[1]
    return None


def same_opq(ip, v, o):
    """Is v what is known of the opaque value o?"""
    if isinstance(v, Opq):
        return v.term == o.term
    if not isinstance(v, Adt) or ip.p.T[o.ty]['k'] != 'adt':
        return False
    t = ip.p.T[o.ty]
    if len(t['variants']) > 1:
        vs = ip.facts.variants.get(o.term)
        if vs is None or tuple(vs) != (v.var,):
            return False
    for i, x in enumerate(v.fs):
        y = ip.opq_field(o, v.var, i)
        if isinstance(y, Opq):
            if not same_opq(ip, x, y):
                return False
        elif vkey(x) != vkey(y):
            return False
    return True


def nk(ip, v, ty):
    """Identity of a function value; a value rebuilt from the parts of an opaque one is that one."""
    if isinstance(v, Opq):
        return ('o', v.term)
    b = base_of(v)
    if b is not None and same_opq(ip, v, Opq(b, ty)):
        return ('o', b)
    return vkey(v)
