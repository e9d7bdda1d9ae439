"""The expression tree: recursion contracts, values, variables.

Functions that recurse over the tree are cut at their recursive calls: the
callee is replaced by its contract (chosen from its signature), and becomes an
obligation of its own, proved for a fresh opaque element whose constructor is
refined by the paths of the code."""
import re
import size
from absint import *
from absint import fterm
from models import Models, strip, text, copyv
from terms import subst, unify
from ir import f2bits
from mir import loop_heads

BINOPS = ('Plus', 'Minus', 'Times', 'Divide', 'Power', 'Modulo')
UNOPS = ('Plus', 'Minus', 'Factorial')
OPTERM = {'Plus': 'add', 'Minus': 'sub', 'Times': 'mul', 'Divide': 'div', 'Modulo': 'rem'}


class Anchor(Exception):
    """Something the analysis is anchored on is gone."""


class Tree:
    """What the analyses know about the crate's types."""

    def __init__(self, prog):
        self.p = prog
        self.m = Models(prog)
        x = self.local_adt('Xprs')
        self.XPRS = x['id']
        fs = dict(x['variants'][0]['fields'])
        if 'root' not in fs or 'vars' not in fs:
            raise Anchor('fields root and vars of Xprs')
        self.ELEMENT = fs['root']
        self.ROOTF = [n for n, _ in x['variants'][0]['fields']].index('root')
        self.VARSF = [n for n, _ in x['variants'][0]['fields']].index('vars')
        self.VARST = fs['vars']
        et = prog.T[self.ELEMENT]
        self.BINOP = self.local_adt('BinOp')['id']
        self.UNOP = self.local_adt('UnOp')['id']
        self.CALL = self.local_adt('FunctionCall')['id']
        self.OPER = self.local_adt('Operator')['id']
        self.FUNC = self.local_adt('Function')['id']
        self.kinds = {}
        for i, v in enumerate(et['variants']):
            ft = [self.unbox(f[1]) for f in v['fields']]
            if ft == [self.BINOP]:
                self.kinds[i] = 'bin'
            elif ft == [self.UNOP]:
                self.kinds[i] = 'un'
            elif ft == [self.CALL]:
                self.kinds[i] = 'call'
            elif len(ft) == 1 and prog.T[ft[0]]['k'] == 'float':
                self.kinds[i] = 'num'
            elif len(ft) == 1 and prog.T[ft[0]]['k'] == 'ref':
                self.kinds[i] = 'var'
            else:
                raise Anchor('variant %s of Element' % v['name'])
        if sorted(self.kinds.values()) != ['bin', 'call', 'num', 'un', 'var']:
            raise Anchor('variants of Element')
        self.V = {k: i for i, k in self.kinds.items()}
        self.opnames = [v['name'] for v in prog.T[self.OPER]['variants']]
        for n in BINOPS + UNOPS:
            if n not in self.opnames:
                raise Anchor('operator ' + n)
        self.bf = self.fields(self.BINOP, 'op', 'lhs', 'rhs')
        self.uf = self.fields(self.UNOP, 'op', 'operand')
        self.cf = self.fields(self.CALL, 'desc', 'args')
        self.ff = self.fields(self.FUNC, 'name', 'func', 'nb_args')
        self.binset = frozenset(self.opnames.index(n) for n in BINOPS)
        self.unset = frozenset(self.opnames.index(n) for n in UNOPS)
        self.roles_cache = {}
        self.novars = None
        self.fact_fns = {f['id'] for f in prog.find(r'::factorial::factorial$|::utils::factorial$')
                         if f['krate'] == prog.crate and f['sig'] and len(f['sig']) == 2}

    def local_adt(self, name):
        l = [t for t in self.p.T.values() if t['k'] == 'adt' and re.search(r'(^|::)%s$' % name, t['path'])
             and t['path'].startswith(self.p.crate + '::')]
        if len({t['path'] for t in l}) != 1:
            raise Anchor('type ' + name)
        return l[0]

    def fields(self, tid, *names):
        fs = [n for n, _ in self.p.T[tid]['variants'][0]['fields']]
        try:
            return {n: fs.index(n) for n in names}
        except ValueError:
            raise Anchor('fields %s of %s' % (', '.join(names), self.p.T[tid]['path']))

    def unbox(self, tid):
        t = self.p.T[tid]
        while t['k'] == 'adt' and t.get('box'):
            tid = t['args'][0]
            t = self.p.T[tid]
        return tid

    def fn(self, rx, argc=None):
        l = [f for f in self.p.find(rx) if f['body'] and f['krate'] == self.p.crate]
        if argc is not None:
            l = [f for f in l if f['body']['argc'] == argc]
        if len(l) != 1:
            raise Anchor('function %s (%d found)' % (rx, len(l)))
        return l[0]

    def method(self, ty, name):
        return self.fn(r'(^|::)%s(::<[^>]*>)?::%s$' % (ty, name))

    # ------------------------------------------------------------ contracts
    def pkind(self, tid):
        """What a parameter type is to a contract."""
        t = self.p.T[tid]
        if self.unbox(tid) == self.ELEMENT:
            return 'E'
        if t['k'] in ('ref', 'ptr'):
            to = t['to']
            tt = self.p.T[to]
            if self.unbox(to) == self.ELEMENT:
                return '&mutE' if t.get('mut') else '&E'
            if tt['k'] == 'str':
                return 'str'
            if tt['k'] == 'adt' and tt['path'].endswith('::HashSet'):
                return '&set'
            if tt['k'] == 'adt' and tt['path'] == 'core::fmt::Formatter':
                return 'fmt'
            if tt['k'] in ('ref', 'tuple'):
                return self.pkind(to) if self.pkind(to) in ('&E', 'pair') else 'o'
            return 'o'
        if t['k'] == 'tuple':
            ks = [self.pkind(e) for e in t['elems']]
            if ks == ['str', 'f']:
                return 'pair'
            if not ks:
                return 'unit'
        if t['k'] == 'float':
            return 'f'
        if t['k'] == 'bool':
            return 'bool'
        if t['k'] == 'adt' and t['path'].endswith('::HashSet'):
            return 'set'
        if t['k'] == 'adt' and t['path'] in ('core::result::Result', 'core::option::Option'):
            if any(fs and self.p.T[fs[0][1]]['k'] == 'float' for fs in (v['fields'] for v in t['variants'])):
                return 'optf'
            if t['path'] == 'core::result::Result' and self.pkind(t['variants'][0]['fields'][0][1]) == 'unit':
                return 'fmtres'
        return 'o'

    def worklist(self, f):
        """Whether a function goes round a loop over a list of elements."""
        if not loop_heads(f['body']):
            return False
        for l in f['body']['locals']:
            t = self.p.T[l]
            if t['k'] == 'adt' and t['path'].rsplit('::', 1)[-1] in ('Vec', 'VecDeque') and t.get('args') \
                    and self.pkind(t['args'][0]) in ('E', '&E'):
                return True
        return False

    def unseen_vars(self):
        """No function is known to collect variables by itself: then what has that signature is taken to (C15 says so)."""
        if self.novars is None:
            self.novars = False
            self.roles_cache, old = {}, self.roles_cache
            self.novars = not any(self.role(f) in ('VARS', 'VARSR') for f in self.p.F.values())
            self.roles_cache = old
        return self.novars

    def role(self, f):
        """The contract a recursive function is cut by, or None."""
        r = self.roles_cache.get(f['id'], 0)
        if r != 0:
            return r
        r = None
        if f['sig'] and f['krate'] == self.p.crate and f['body'] and self.p.recursive(f['id']):
            ps = [self.pkind(t) for t in f['sig'][:-1]]
            ret = self.pkind(f['sig'][-1])
            es = [k for k in ps if k in ('E', '&E', '&mutE')]
            others = [k for k in ps if k not in ('E', '&E', '&mutE')]
            if ret == 'E' and len(es) == 1:
                if es[0] == '&E' and re.search(r'Clone>::clone$|::clone$|to_owned$', f['path']):
                    r = 'CLONE'
                elif not others:
                    r = 'S'
                elif others == ['pair'] or others == ['str', 'f']:
                    r = 'SF'
            elif ret == 'unit' and es == ['&mutE']:
                if not others:
                    r = 'S!'
                elif others == ['pair'] or others == ['str', 'f']:
                    r = 'SF!'
            elif ret == 'bool' and len(es) == 2 and not others:
                r = 'EQ'
            elif ret == 'f' and len(es) == 1:
                r = 'EVU'
            elif ret == 'optf' and len(es) == 1:
                r = 'EVR'
            elif len(es) == 1 and others == ['&set'] and ret == 'unit':
                r = 'VARS'
            elif len(es) == 1 and not others and ret == 'set':
                r = 'VARSR'
            elif len(es) == 1 and others == ['fmt']:
                r = 'DISP'
        elif f['sig'] and f['krate'] == self.p.crate and f['body']:
            # the same with a list of what is still to do instead of recursion
            ps = [self.pkind(t) for t in f['sig'][:-1]]
            ret = self.pkind(f['sig'][-1])
            if ps.count('&E') == 1 and (sorted(ps) == ['&E', '&set'] and ret == 'unit' or ps == ['&E'] and ret == 'set') \
                    and (self.worklist(f) or self.unseen_vars()):
                r = 'VARS' if ret == 'unit' else 'VARSR'
        self.roles_cache[f['id']] = r
        return r


def find_map(ip, v, depth=0):
    """The map a value holds or refers to."""
    if depth > 6:
        return None
    if isinstance(v, MapV):
        return v
    if isinstance(v, (DynV,)):
        return find_map(ip, v.ptr, depth + 1)
    if isinstance(v, (BoxV, ArcV)):
        return find_map(ip, v.cell.v, depth + 1)
    if isinstance(v, CloPtr):
        return find_map(ip, v.clo, depth + 1)
    if isinstance(v, Ref):
        return find_map(ip, ip.load(v), depth + 1)
    if isinstance(v, Adt):
        for x in v.fs:
            m = find_map(ip, x, depth + 1)
            if m is not None:
                return m
        return None
    if isinstance(v, Opq):
        t = ip.p.T[v.ty]
        if t['k'] == 'tuple' or (t['k'] == 'adt' and t['adt'] == 'struct' and t['path'].startswith(ip.p.crate + '::')):
            return find_map(ip, ip.expand(v, 0), depth + 1)
    return None


def unboxv(v):
    while isinstance(v, BoxV):
        v = v.cell.v
    return v


class Session:
    """Exploring functions of one program with the tree contracts."""

    def __init__(self, tree, cuts=True, opts=None, inline_eq=True):
        self.t = tree
        self.p = tree.p
        self.opts = dict(opts or {})
        self.new = {}           # function id -> role: obligations met
        self.coverage = set()
        self.paths = 0
        self.inline_eq = inline_eq

    # ---------------------------------------------------------- invariants
    def variants(self, ip, o, vs):
        t = self.t
        if o.ty == t.OPER and isinstance(o.term, tuple) and o.term[0] == 'f':
            owner = ip.tyof.get(o.term[1])
            if owner == t.BINOP:
                return vs & t.binset
            if owner == t.UNOP:
                return vs & t.unset
        return vs

    def args_of(self, term):
        """The call whose arguments term is."""
        if (isinstance(term, tuple) and len(term) == 4 and term[0] == 'f' and term[3] == self.t.cf['args']
                and term[2] == 0):
            return term[1]
        return None

    def arity(self, ip, term):
        """(lower, upper, term) of the fixed arity of the call whose arguments term is, where it is known."""
        call = self.args_of(term)
        nb = call and ('f', ('f', call, 0, self.t.cf['desc']), 0, self.t.ff['nb_args'])
        if not nb or ip.facts.variants.get(nb) != frozenset((1,)):
            return None
        k = Lin(((('n', ('f', nb, 1, 0)), 1),), 0)
        for n in range(21):
            if ip.facts.bools.get(('zero', lin_add(k, -n))) or ip.facts.bools.get(('zero', lin_add(lin_mul(k, -1), n))):
                return n, n, k
        return ip.bounds(k) + (k,)

    def seq_lens(self, ip, v):
        a = self.arity(ip, v.term)
        if a and a[0] is not None and 1 <= a[0] <= 20 and (a[0] == a[1] or a[0] > 3):
            return (a[0],)
        return ip.opts.get('arglens', (1, 2, 3)) if self.args_of(v.term) else (0, 1, 2, 3)

    def impossible(self, ip):
        """A parsed call has as many arguments as its function's fixed arity (C14)."""
        for term, n in ip.facts.lens.items():
            a = self.arity(ip, term)
            if a is None:
                continue
            lo, hi, k = a
            if (lo is not None and n < lo) or (hi is not None and n > hi):
                return True
            for d in (lin_add(k, -n), lin_add(lin_mul(k, -1), n)):
                if ip.facts.bools.get(('zero', d)) is False:
                    return True
        return False

    def opaque_call(self, ip, fv, args):
        a = args[0] if args else None
        if len(args) == 1:
            s = strip(ip, a)
            if isinstance(s, (Seq, SeqOpq)):
                s = ip.seq(s)
                items = [strip(ip, x) for x in s.items]
                if all(isinstance(x, F) for x in items):
                    ip.events.append(('call', vkey(fv), tuple(x.t for x in items), ip.site()))
                    return F(('fn', 'call:' + tstr(vkey(fv))) + tuple(x.t for x in items))
        raise PathEnd('unknown', 'call of an unknown function')

    def interp(self, script, root, extra):
        o = {'variants': self.variants, 'seq_lens': self.seq_lens, 'impossible': self.impossible, 'opaque_call': self.opaque_call, 'covered': self.coverage}
        o.update(self.opts)
        o.update(extra)
        hooks = {fid: factorial_hook for fid in self.t.fact_fns}
        o['recur_hook'] = lambda ip, f, a: self.cut(ip, f, a)
        ip = Interp(self.p, self.t.m, script, hooks, o)
        ip.root = root
        ip.entered = False
        ip.tree = self.t
        ip.cuts = []            # (role, result, argument, extra)
        ip.eqs = []             # (boolean term, a, b)
        ip.tyof = TyOf(ip)
        return ip

    def explore(self, f, mkargs, post=None, max_paths=6000, **extra):
        """Paths of f on the arguments mkargs makes; post(ip, v) runs on return."""
        def body(ip):
            a = mkargs(ip)
            ip.args = a
            ip.rootothers = self.others(ip, f, a)
            v = ip.call(f['id'], a)
            if post is not None:
                v = post(ip, v)
            return v
        for r in explore(lambda s: self.interp(s, f['id'], extra), body, max_paths=max_paths):
            self.paths += 1
            if r.kind != 'hang':        # the ledger has those
                yield r

    # ---------------------------------------------------------- cutting
    def cut(self, ip, f, a):
        r = self.t.role(f)
        if r is None:
            return NotImplemented
        if f['id'] == ip.root and not ip.entered:
            ip.entered = True
            return NotImplemented
        if ip.opts.get('nocut') and ip.opts['nocut'](ip, f, r, a):
            return NotImplemented
        ip.stackargs = a
        return getattr(self, 'cut_' + r.rstrip('!').lower())(ip, f, a, r)

    def elem(self, ip, f, a):
        """(element, index of its argument)"""
        for i, t in enumerate(f['sig'][:-1]):
            k = self.t.pkind(t)
            if k in ('E', '&E', '&mutE'):
                v = a[i]
                while isinstance(v, Ref):
                    v = ip.load(v)
                return unboxv(v), i
        raise PathEnd('unknown', 'element argument')

    def pair(self, ip, f, a):
        out = []
        for i, t in enumerate(f['sig'][:-1]):
            k = self.t.pkind(t)
            if k == 'pair':
                v = strip(ip, a[i])
                v = ip.expand(v) if isinstance(v, Opq) else v
                return text(ip, v.fs[0]), v.fs[1]
            if k in ('str', 'f'):
                out.append(text(ip, a[i]) if k == 'str' else a[i])
        return tuple(out)

    def note_cut(self, ip, f, role):
        self.new.setdefault(f['id'], role)

    def key(self, ip, e):
        if isinstance(e, Opq):
            return e.term
        return vkey(e)

    def wrap(self, ip, f, v, e):
        """The result in the shape the function returns it (boxed or not)."""
        t = self.p.T[f['sig'][-1]]
        return BoxV(Cell(v)) if t['k'] == 'adt' and t.get('box') else v

    def cut_s(self, ip, f, a, r):
        e, i = self.elem(ip, f, a)
        self.note_cut(ip, f, r)
        self.check_smaller(ip, f, e, r)
        h = ip.opts.get('s_contract')
        v = h(self, ip, e) if h else None
        if v is None:
            v = ip.opq(('S', self.key(ip, e)), self.t.ELEMENT)
            ip.tyof.put(v)
            ip.cuts.append(('S', v, e, None))
        if r.endswith('!'):
            ip.store(a[i], v)
            return Adt(None, 0, ())
        return self.wrap(ip, f, v, e)

    def cut_sf(self, ip, f, a, r):
        e, i = self.elem(ip, f, a)
        var = self.pair(ip, f, a)
        self.note_cut(ip, f, r)
        self.check_smaller(ip, f, e, r)
        h = ip.opts.get('sf_contract')
        v = h(self, ip, e, var) if h else None
        if v is None:
            v = ip.opq(('SF', self.key(ip, e), vkey(var[0]), vkey(var[1])), self.t.ELEMENT)
            ip.tyof.put(v)
            ip.cuts.append(('SF', v, e, var))
        if r.endswith('!'):
            ip.store(a[i], v)
            return Adt(None, 0, ())
        return self.wrap(ip, f, v, e)

    def cut_clone(self, ip, f, a, r):
        e, i = self.elem(ip, f, a)
        self.note_cut(ip, f, r)
        self.check_smaller(ip, f, e, r)
        return self.wrap(ip, f, copyv(e), e)

    def cut_eq(self, ip, f, a, r):
        x, y = [unboxv(strip(ip, v)) for v in a[:2]]
        shallow = (self.t.V['num'], self.t.V['var'])
        for v in (x, y):
            if isinstance(v, Adt):
                if ip.opts.get('eq_inline', True) and self.inline_depth(ip, f) < 3:
                    return NotImplemented
        vs = []
        for v in (x, y):
            if isinstance(v, Adt):
                vs.append(v.var)
            else:
                o = ip.opq_variants(v)
                vs.append(next(iter(o)) if len(o) == 1 else None)
        if vs[0] is not None and vs[1] is not None:
            if vs[0] != vs[1]:
                return 0
            if vs[0] in shallow and self.inline_depth(ip, f) < 3:
                return NotImplemented
        self.note_cut(ip, f, r)
        self.check_smaller2(ip, f, x, y)
        kx, ky = sorted((self.key(ip, x), self.key(ip, y)), key=repr)
        t = ('eqel', kx, ky)
        if kx == ky and ip.opts.get('eq_reflexive', False):
            return 1
        ip.eqs.append((t, x, y))
        return SymB(t)

    def inline_depth(self, ip, f):
        return sum(1 for g, _ in ip.stack if g['id'] == f['id'])

    def env(self, ip, f, a, i):
        for j, v in enumerate(a):
            if j != i:
                m = find_map(ip, v)
                if m is not None:
                    return vkey(m)
        return ('noenv',)

    def cut_evu(self, ip, f, a, r):
        e, i = self.elem(ip, f, a)
        self.note_cut(ip, f, r)
        self.check_smaller(ip, f, e, r)
        env = self.env(ip, f, a, i)
        ip.events.append(('eval', env, self.key(ip, e)))
        return F(('v', ('ev', env, self.key(ip, e))))

    def cut_evr(self, ip, f, a, r):
        e, i = self.elem(ip, f, a)
        self.note_cut(ip, f, r)
        self.check_smaller(ip, f, e, r)
        env = self.env(ip, f, a, i)
        k = self.key(ip, e)
        ip.events.append(('eval', env, k))
        tid = f['sig'][-1]
        t = self.p.T[tid]
        ok = 0 if t['path'].endswith('Result') else 1
        if ip.decide(('evok', env, k)):
            return Adt(tid, ok, (F(('v', ('ev', env, k))),))
        if t['path'].endswith('Result'):
            return Adt(tid, 1, (Opq(('everr', env, k), t['variants'][1]['fields'][0][1]),))
        return Adt(tid, 0, ())

    def cut_vars(self, ip, f, a, r):
        e, i = self.elem(ip, f, a)
        self.note_cut(ip, f, r)
        self.check_smaller(ip, f, e, r)
        for j, t in enumerate(f['sig'][:-1]):
            if self.t.pkind(t) == '&set':
                s = ip.load(a[j])
                if isinstance(s, Ref):
                    ref, s = s, ip.load(s)
                else:
                    ref = a[j]
                part = ('set', ('VARS', self.key(ip, e)))
                if not isinstance(s, SetV):
                    raise PathEnd('unknown', 'set %r' % (s,))
                if s.minus:
                    raise PathEnd('unknown', 'set with removed members')
                ip.store(ref, SetV(s.parts + ((part,) if part not in s.parts else ()), s.minus))
        return Adt(None, 0, ())

    def cut_varsr(self, ip, f, a, r):
        e, i = self.elem(ip, f, a)
        self.note_cut(ip, f, r)
        self.check_smaller(ip, f, e, r)
        return SetV((('set', ('VARS', self.key(ip, e))),))

    def cut_disp(self, ip, f, a, r):
        from models import fmt_of
        e, i = self.elem(ip, f, a)
        self.note_cut(ip, f, r)
        self.check_smaller(ip, f, e, r)
        for j, t in enumerate(f['sig'][:-1]):
            if self.t.pkind(t) == 'fmt':
                kind = 'disp' if 'Debug' not in f['path'] else 'debug'
                fmt_of(ip, a[j]).d['parts'].append((kind, self.key(ip, e)))
        return Adt(f['sig'][-1], 0, (Adt(None, 0, ()),))

    # ---------------------------------------------------------- termination
    def size_of(self, key):
        """(opaque ancestors: number of steps below) of an element key."""
        return depth_below(key)

    def check_smaller(self, ip, f, e, r):
        """How the argument of a recursive call compares with the root's: 'below' (a strict part), 0 or 1 (smaller, see
        size.at_least), 'same' (the very same call), 'elem' (the same element, otherwise different), None (unknown)."""
        if f['id'] != ip.root and not self.same_group(f['id'], ip.root):
            return
        root = getattr(ip, 'rootkey', None)
        if root is None:
            return
        k = self.key(ip, e)
        base = k
        while isinstance(base, tuple) and base and base[0] in ('S', 'SF'):
            base = base[1]
        if strictly_below(k, root):
            ok = 'below'
        elif k == root:
            ok = 'same' if f['id'] == ip.root and self.others(ip, f, ip.stackargs) == ip.rootothers else 'elem'
        else:
            try:
                d = size.size(ip, Opq(root, self.t.ELEMENT))
                size.add(d, size.size(ip, e), -1)
                ok = size.at_least(ip, d, 1)
            except PathEnd:
                ok = None
            if ok is None and strictly_below(base, root):
                ok = 1
        ip.events.append(('recur', f['id'], ok, r, ip.site()))

    def others(self, ip, f, a):
        """Identity of the arguments that are not the element."""
        out = []
        for t, v in zip(f['sig'][:-1], a):
            if self.t.pkind(t) in ('E', '&E', '&mutE'):
                continue
            m = find_map(ip, v)
            while isinstance(v, Ref):
                v = ip.load(v)
            out.append(vkey(m if m is not None else v))
        return out

    def same_group(self, a, b):
        comp, _ = self.p.sccs()
        return comp.get(a) == comp.get(b)

    def check_smaller2(self, ip, f, x, y):
        roots = getattr(ip, 'rootkeys', None)
        if roots is None or (f['id'] != ip.root and not self.same_group(f['id'], ip.root)):
            return
        kx, ky = self.key(ip, x), self.key(ip, y)
        ok = 'below' if any(strictly_below(kx, r) or strictly_below(ky, r) for r in roots) else None
        if f['id'] == ip.root and {kx, ky} == set(roots):
            ok = 'same'
        ip.events.append(('recur', f['id'], ok, 'EQ', ip.site()))


def strictly_below(k, root):
    if k == root:
        return False
    while isinstance(k, tuple) and len(k) >= 2:
        if k[0] in ('f', 'el', '*', 'box', 'arc'):
            k = k[1]
            if k == root:
                return True
        elif k[0] == 'adt' or k[0] == 'o':
            return False
        else:
            return False
    return False


def depth_below(k):
    n = 0
    while isinstance(k, tuple) and len(k) >= 2 and k[0] in ('f', 'el', '*'):
        k = k[1]
        n += 1
    return k, n


class TyOf:
    """Types of opaque terms."""

    def __init__(self, ip):
        self.ip = ip
        self.d = {}

    def put(self, v):
        if isinstance(v, Opq):
            self.d[v.term] = v.ty

    def get(self, term):
        if term in self.d:
            return self.d[term]
        if isinstance(term, tuple) and term and term[0] == 'f' and len(term) == 4:
            o = self.get(term[1])
            if o is not None:
                p = self.ip.p
                t = p.T[o]
                try:
                    if t['k'] == 'adt':
                        x = t['variants'][term[2]]['fields'][term[3]][1]
                    elif t['k'] == 'tuple':
                        x = t['elems'][term[3]]
                    else:
                        return None
                except IndexError:
                    return None
                tt = p.T[x]
                while tt['k'] == 'adt' and tt.get('box'):
                    x = tt['args'][0]
                    tt = p.T[x]
                return x
        if isinstance(term, tuple) and term and term[0] == 'el':
            o = self.get(term[1])
            if o is not None:
                t = self.ip.p.T[o]
                if t['k'] == 'adt':
                    return t['args'][0]
                return t.get('elem')
        if isinstance(term, tuple) and term and term[0] == '*':
            o = self.get(term[1])
            if o is not None:
                t = self.ip.p.T[o]
                return t.get('to', o)
        return None


def factorial_hook(ip, f, a):
    if isinstance(a[0], F):
        return F(('fn', 'fact', a[0].t))
    return NotImplemented


# ---------------------------------------------------------------- values
def value(ip, v, mode, atom):
    """The float term an element denotes; atom(term, mode) names opaque ones."""
    t = ip.tree
    v = unboxv(strip(ip, v))
    v = unboxv(v)
    if isinstance(v, Opq):
        vs = ip.facts.variants.get(v.term)
        if vs is not None and len(vs) == 1:
            v = ip.expand(v, next(iter(vs)))
        else:
            for role, res, arg, var in ip.cuts:
                if res.term == v.term:
                    if role == 'S':
                        return value(ip, arg, mode, atom)
                    return value(ip, arg, submode(mode, var), atom)
            return atom(v.term, mode)
    if not isinstance(v, Adt):
        raise PathEnd('unknown', 'element %r' % (v,))
    k = t.kinds[v.var]
    x = unboxv(v.fs[0])
    if k == 'num':
        return x.t if isinstance(x, F) else ('v', ('bad', vkey(x)))
    if k == 'var':
        return variable(ip, text(ip, x), mode)
    if isinstance(x, Opq):
        x = ip.expand(x, 0)
    if k == 'bin':
        op = opname(ip, x.fs[t.bf['op']])
        a = value(ip, x.fs[t.bf['lhs']], mode, atom)
        b = value(ip, x.fs[t.bf['rhs']], mode, atom)
        return binterm(op, a, b)
    if k == 'un':
        op = opname(ip, x.fs[t.uf['op']])
        return unterm(op, value(ip, x.fs[t.uf['operand']], mode, atom))
    d = x.fs[t.cf['desc']]
    args = x.fs[t.cf['args']]
    fk = fnkey(ip, d)
    if isinstance(args, SeqOpq) and ip.facts.lens.get(args.term) is None:
        return ('v', ('callo', fk, args.term, mode))
    items = ip.seq(args).items
    return ('fn', 'call:' + tstr(fk)) + tuple(value(ip, y, mode, atom) for y in items)


def fnkey(ip, d):
    """The identity of the function a descriptor calls."""
    t = ip.tree
    d = strip(ip, d)
    if isinstance(d, Opq):
        d = ip.expand(d, 0)
    fp = d.fs[t.ff['func']]
    vs = None
    if isinstance(fp, Opq):
        vs = ip.facts.variants.get(fp.term)
        if vs is not None and len(vs) == 1:
            fp = ip.expand(fp, next(iter(vs)))
        else:
            return ('fp', fp.term)
    x = fp.fs[0]
    while isinstance(x, (ArcV, BoxV)):
        x = x.cell.v
    return vkey(x)


def fpinner(ip, term_owner):
    return None


def submode(mode, var):
    if mode == 'env' or mode == ('sub', vkey(var[0]), vkey(var[1])):
        return ('sub', vkey(var[0]), vkey(var[1]))
    return ('subsub', mode, vkey(var[0]), vkey(var[1]))


def canon_name(ip, n):
    """A representative of the names the path knows to be equal."""
    n = ip.canon_str(n)
    cls = {n}
    eqs = [(ip.canon_str(k[1]), ip.canon_str(k[2])) for k, v in ip.facts.bools.items() if k[0] == 'streq' and v]
    for _ in range(len(eqs) + 1):
        for a, b in eqs:
            if a in cls or b in cls:
                cls |= {a, b}
    if len(cls) == 1:
        return n
    for x in cls:
        if x.lit() is not None:
            return x
    return min(cls, key=repr)


def variable(ip, name, mode):
    name = canon_name(ip, name)
    if mode == 'env':
        return ('v', ('var', name))
    if mode[0] == 'sub':
        n = canon_name(ip, mode[1]) if isinstance(mode[1], StrV) else mode[1]
        if known_streq(ip, name, n) is True:
            return mode[2].t if isinstance(mode[2], F) else ('v', ('bad', mode[2]))
        if known_streq(ip, name, n) is False:
            return ('v', ('var', name))
        return ('v', ('var?', name, n))
    return ('v', ('var', name, mode))


def known_streq(ip, a, b):
    if a == b or canon_name(ip, a) == canon_name(ip, b):
        return True
    la, lb = a.lit(), b.lit()
    if la is not None and lb is not None:
        return la == lb
    for x, y in ((a, b), (b, a)):
        l = y.lit()
        if l is not None and len(x.parts) == 1 and l in ip.facts.strneg.get(x.parts[0], ()):
            return False
    ca, cb = canon_name(ip, a), canon_name(ip, b)
    for k, v in ip.facts.bools.items():
        if k[0] == 'streq' and not v:
            x, y = canon_name(ip, k[1]), canon_name(ip, k[2])
            if (x, y) == (ca, cb) or (x, y) == (cb, ca):
                return False
    return None


def opname(ip, o):
    o = strip(ip, o)
    if isinstance(o, Adt):
        return ip.tree.opnames[o.var]
    vs = ip.facts.variants.get(o.term)
    if vs is not None and len(vs) == 1:
        return ip.tree.opnames[next(iter(vs))]
    return ('op', o.term)


def binterm(op, a, b):
    if op in OPTERM:
        return fterm(OPTERM[op], a, b)
    if op == 'Power':
        return ('fn', 'powf', a, b)
    return ('fn', 'bop:' + tstr(op), a, b)


def unterm(op, a):
    if op == 'Plus':
        return a
    if op == 'Minus':
        return fterm('neg', a)
    if op == 'Factorial':
        return ('fn', 'fact', a)
    return ('fn', 'uop:' + tstr(op), a)


def equations(ip, modes, atom):
    """Value equations of refined contract results and of decided equalities."""
    s, rest = {}, []
    for role, res, arg, var in ip.cuts:
        if not isinstance(res, Opq):
            continue
        vs = ip.facts.variants.get(res.term)
        if vs is None or len(vs) != 1:
            continue
        for m in modes:
            am = m if role == 'S' else submode(m, var)
            unify(value(ip, arg, am, atom), value(ip, res, m, atom), s, rest)
    for t, x, y in ip.eqs:
        if ip.facts.bools.get(t):
            for m in modes:
                unify(value(ip, x, m, atom), value(ip, y, m, atom), s, rest)
    return s, rest


def deep_key(ip, v):
    """A structural key of an element under the facts of the path."""
    return vkey(v)
