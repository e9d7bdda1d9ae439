"""Whole-program flow rules over MIR: C21 (values owned twice while a user function may panic), C22 (effects, hidden
state), and the part of C20 that is about ownership and shared memory."""
import re
from mir import live_in          # noqa: F401  (kept for symmetry with the other engines)
from report import Report


def last(path):
    return re.sub(r'::<[^<>]*>$', '', path).rsplit('::', 1)[-1]


READS = ('read', 'read_unaligned', 'read_volatile', 'read_via_copy')
WRITES = ('write', 'write_unaligned', 'write_volatile', 'write_bytes', 'write_via_move')
INVALID = ('zeroed', 'uninitialized', 'assume_init', 'assume_init_read')
SAMEPTR = ('cast', 'cast_mut', 'cast_const', 'as_ptr', 'as_mut_ptr', 'from_ref', 'from_mut', 'as_ref', 'as_mut', 'deref',
           'deref_mut', 'borrow_mut', 'into_raw', 'leak', 'as_non_null_ptr', 'new_unchecked', 'get_mut', 'get_unchecked_mut')

# what a pure function may not do: prefix of the path of a callee -> what it is
IO = [(r'^std::(io|fs|net|os|process|env)::', 'input or output'),
      (r'^std::time::|^core::time::.*now', 'the clock'),
      (r'^std::thread::local|LocalKey', 'a thread-local variable'),
      (r'^std::thread::', 'threads'),
      (r'^std::hash::random|^std::collections::hash::map::RandomState|RandomState|BuildHasher::hash_one', 'a random seed'),
      (r'^std::panic(king)?::(set_hook|take_hook)', 'the panic hook'),
      (r'^rand\w*::', 'randomness'),
      (r'^(core|std)::sync::atomic::', 'an atomic variable')]
LAZY = re.compile(r'^(std|core)::(sync::(once_lock|lazy_lock|once)|cell::(once|lazy))::|once_cell::|lazy_static::')
MUTCELL = re.compile(r'^(core|std)::(cell::(Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|LazyCell|once::OnceCell|lazy::LazyCell)|'
                     r'sync::(poison::)?(mutex::Mutex|rwlock::RwLock|Mutex|RwLock|once_lock::OnceLock|lazy_lock::LazyLock|OnceLock|'
                     r'LazyLock|reentrant_lock::ReentrantLock)|sync::atomic::Atomic\w*|sync::mpsc::\w+)$')
LAZYTY = re.compile(r'OnceLock|LazyLock|OnceCell|LazyCell')


class FlowCheck:
    def __init__(self, prog, config):
        self.p, self.config = prog, config
        self.lib = [f for f in prog.F.values() if f['krate'] == prog.crate and f['body'] and '__xprs_' not in f['path']
                    and '__xprs_' not in str(f.get('name'))]
        self.users = None
        self.drops = {}
        self.memo = {}
        self.cells = {}

    def run(self):
        self.r20, self.r21, self.r22 = [Report(x, self.config) for x in ('C20', 'C21', 'C22')]
        for f in self.lib:
            self.owned(f)
            self.effects(f)
        self.state()
        self.threads()
        for r in (self.r20, self.r21, self.r22):
            r.functions |= {f['path'] for f in self.lib}
        return [self.r20, self.r21, self.r22]

    # ---------------------------------------------------------- types
    def needs_drop(self, tid, seen=()):
        if tid in seen:
            return False
        if tid in self.drops:
            return self.drops[tid]
        t = self.p.T[tid]
        k = t['k']
        if k in ('int', 'float', 'bool', 'char', 'ref', 'ptr', 'fndef', 'fnptr', 'never', 'str'):
            r = False
        elif k == 'tuple':
            r = any(self.needs_drop(x, seen + (tid,)) for x in t['elems'])
        elif k in ('array', 'slice'):
            r = self.needs_drop(t['elem'], seen + (tid,))
        elif k == 'closure':
            r = any(self.needs_drop(x, seen + (tid,)) for x in t['ups'])
        elif k == 'adt':
            if re.search(r'::(Box|Vec|String|Arc|Rc|HashMap|HashSet|BTreeMap|BTreeSet|VecDeque)$', t['path']):
                r = True
            elif t['path'].endswith('ManuallyDrop') or t['path'].endswith('MaybeUninit'):
                r = False
            elif self.drop_impl(tid):
                r = True
            else:
                r = any(self.needs_drop(x, seen + (tid,)) for v in t['variants'] for _, x in v['fields'])
        else:
            r = True
        if not seen:
            self.drops[tid] = r
        return r

    def drop_impl(self, tid):
        """The crate's own Drop implementation of a type."""
        t = self.p.T[tid]
        if t['k'] != 'adt' or not t['path'].startswith(self.p.crate + '::'):
            return None
        n = t['path'].rsplit('::', 1)[1]
        for f in self.p.F.values():
            if f['krate'] == self.p.crate and f['path'].endswith('core::ops::drop::Drop>::drop') and re.search(r'\b%s\b' % n, f['path']):
                return f
        return None

    def user(self, fid):
        """May a call of this function run a function of the user's?"""
        if fid is None:
            return True
        if self.users is None:
            base = set()
            for f in self.p.F.values():
                if f['kind'] == 'virtual' and re.search(r'ops::function::Fn(Once|Mut)?\b', f['path']):
                    base.add(f['id'])
                if f['krate'] == self.p.crate and f['body'] and any(
                        b['t'][0] == 'call' and b['t'][2] is None for b in f['body']['blocks']):
                    base.add(f['id'])
            back = {}
            for f in self.p.F.values():
                for g in self.p.callees(f):
                    back.setdefault(g, set()).add(f['id'])
            todo = list(base)
            while todo:
                x = todo.pop()
                for y in back.get(x, ()):
                    if y not in base:
                        base.add(y)
                        todo.append(y)
            self.users = base
        return fid in self.users

    # ---------------------------------------------------------- paths to memory
    def defs(self, f):
        b = f['body']
        if '_defs' in b:
            return b['_defs']
        d = {}

        def put(l, x):
            d[l] = x if l not in d else None
        for i in range(b['argc'] + 1):
            d[i] = None
        for blk in b['blocks']:
            for s in blk['s']:
                if s[0] == '=' and not s[1][1]:
                    put(s[1][0], ('rv', s[2]))
            t = blk['t']
            if t[0] == 'call' and not t[4][1]:
                put(t[4][0], ('call', t))
        b['_defs'] = d
        return d

    def canon(self, f, pl, depth=0):
        """A place as (local, projections), seen through the pointers it is reached by."""
        l, pr = pl[0], tuple('*' if e == '*' else tuple(e[:2]) if e[0] == 'f' else tuple(e) for e in pl[1])
        pr = tuple(e for e in pr if e == 'oc' or True)
        d = self.defs(f).get(l)
        if d is None or depth > 30:
            return l, pr
        base = None
        if d[0] == 'rv':
            rv = d[1]
            if rv[0] == 'use' and rv[1][0] in ('p', 'm'):
                return self.join(self.canon(f, rv[1][1], depth + 1), pr)
            if rv[0] == 'cast' and rv[2][0] in ('p', 'm'):
                return self.join(self.canon(f, rv[2][1], depth + 1), pr)
            if rv[0] == 'ref':
                base = self.canon(f, rv[2], depth + 1)
            elif rv[0] == 'addr':
                base = self.canon(f, rv[1], depth + 1)
            if base is not None and pr and pr[0] == '*':
                return self.join(base, pr[1:])
            return l, pr
        t = d[1]
        g = self.p.F.get(t[2]) if t[2] is not None else None
        if g is not None and last(g['path']) in SAMEPTR and t[3] and t[3][0][0] in ('p', 'm'):
            b = self.canon(f, t[3][0][1], depth + 1)
            return self.join(b, pr)
        return l, pr

    def join(self, base, pr):
        return base[0], base[1] + tuple(pr)

    def pointee(self, f, op):
        """What an operand of pointer type points to."""
        if op[0] not in ('p', 'm'):
            return None
        return self.canon(f, [op[1][0], list(op[1][1]) + ['*']])

    # ---------------------------------------------------------- C21: values owned twice
    def interesting(self, f):
        for blk in f['body']['blocks']:
            t = blk['t']
            if t[0] == 'call' and t[2] is not None:
                g = self.p.F[t[2]]
                n = last(g['path'])
                if g['krate'] != self.p.crate and (n in READS + WRITES + INVALID + ('copy', 'copy_nonoverlapping', 'transmute_copy')
                                                   or (n == 'take' and 'ManuallyDrop' in g['path']) or n == 'from_raw'):
                    return True
                if g['krate'] == self.p.crate and g['body'] and g['id'] != f['id'] and self.summary(g)[0]:
                    return True
        return False

    def summary(self, f):
        """(places reached from the parameters that are left owned twice, places that are written afresh)"""
        k = f['id']
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = (frozenset(), frozenset())
        if not self.interesting(f):
            return self.memo[k]
        out, kills = self.flow(f, None)
        n = f['body']['argc']
        self.memo[k] = (frozenset(p for p in out if 1 <= p[0] <= n and '*' in p[1]),
                        frozenset(p for p in kills if 1 <= p[0] <= n and '*' in p[1]))
        return self.memo[k]

    def owned(self, f):
        if not self.interesting(f):
            if self.user(f['id']):
                self.r21.ok('%s may run a user function and owns every value once' % f['path'])
            return
        soft = any(b['t'][0] == 'call' and b['t'][2] is not None and
                   (last(self.p.F[b['t'][2]]['path']) in ('set_len', 'forget') or 'ManuallyDrop' in self.p.F[b['t'][2]]['path']
                    or 'catch_unwind' in self.p.F[b['t'][2]]['path'])
                   for b in f['body']['blocks'])
        bad = []
        self.flow(f, bad)
        seen = set()
        for kind, line, text in bad:
            if (kind, text) in seen:
                continue
            seen.add((kind, text))
            msg = '%s: %s (%s)' % (f['path'], text, line)
            if kind == 'unwind' and not soft:
                self.r21.violation('%s:unwind' % f['path'], msg)
                self.r20.violation('%s:unwind' % f['path'], msg)
            else:
                self.r21.unknown('%s:%s' % (f['path'], kind), msg)
        if not bad:
            self.r21.ok('%s: on every path a value read through a pointer is written back before a user function runs' % f['path'])

    def flow(self, f, bad):
        """Places owned twice, forward over the body; (at return, written)."""
        b = f['body']
        blocks = b['blocks']
        ins = {0: frozenset()}
        todo = [0]
        ret, kills = set(), set()
        n = 0
        while todo and n < 4000:
            n += 1
            i = todo.pop()
            st = set(ins[i])
            for s in blocks[i]['s']:
                if s[0] == '=':
                    self.assign(f, s, st)
            for j, out in self.term(f, blocks[i]['t'], st, ret, kills, bad):
                o = ins.get(j)
                nw = frozenset(out) if o is None else o | out
                if nw != o:
                    ins[j] = nw
                    todo.append(j)
        return ret, kills

    def assign(self, f, s, st):
        dst = self.canon(f, s[1])
        # a fresh value: nothing below the place is owned twice any more
        for p in list(st):
            if p[0] == dst[0] and p[1][:len(dst[1])] == dst[1] and p != dst:
                st.discard(p)
        st.discard(dst)
        rv = s[2]
        if rv[0] == 'use' and rv[1][0] == 'm':
            src = self.canon(f, rv[1][1])
            if src in st and '*' not in src[1] and src != dst:
                st.discard(src)
                st.add(dst)

    def show(self, f, p):
        nm = f['body'].get('names') or {}
        r = nm.get(str(p[0])) or nm.get(p[0]) or ('argument %d' % p[0] if p[0] <= f['body']['argc'] else 'a local')
        return r + ''.join('.%s' % e[1] if e != '*' and e[0] == 'f' else '' for e in p[1])

    def term(self, f, t, st, ret, kills, bad):
        """[(next block, state)]"""
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'switch':
            return [(x, st) for _, x in t[2]] + [(t[3], st)]
        if k == 'assert':
            r = [(t[5], st)]
            return r
        if k == 'ret':
            ret |= st
            return []
        if k == 'resume':
            if bad is not None:
                for p in st:
                    if '*' in p[1]:
                        bad.append(('unwind', f['span'], 'a panic of a user function leaves %s owned twice, its owner drops it again'
                                    % self.show(f, p)))
            return []
        if k == 'drop':
            q = self.canon(f, t[1])
            hit = [p for p in st if p[0] == q[0] and p[1][:len(q[1])] == q[1]]
            if hit and bad is not None:
                bad.append(('drop', f['span'], '%s is dropped while a copy of it is owned elsewhere' % self.show(f, hit[0])))
            if t[4] is not None and self.drop_impl(t[4]) and st and bad is not None:
                bad.append(('guard', f['span'], 'a guard is dropped'))
                return [(t[2], set())]
            return [(t[2], st)]
        if k != 'call':
            return []
        g = self.p.F.get(t[2]) if t[2] is not None else None
        out = set(st)
        line = t[7]
        if g is not None:
            n = last(g['path'])
            ext = g['krate'] != self.p.crate
            dst = self.canon(f, t[4])
            if ext and (n in READS or n == 'transmute_copy' or n == 'take' and 'ManuallyDrop' in g['path']) and t[3]:
                p = self.pointee(f, t[3][0])
                if p is not None and t[8] is not None and self.needs_drop(t[8]):
                    if not (n == 'take' and 'ManuallyDrop' in g['path']):
                        out.add(p)
            elif ext and n in WRITES and t[3]:
                p = self.pointee(f, t[3][0])
                if p is not None:
                    out = {x for x in out if not (x[0] == p[0] and x[1][:len(p[1])] == p[1])}
                    kills.add(p)
            elif ext and n in ('copy', 'copy_nonoverlapping') and len(t[3]) >= 2:
                flip = '::ptr::' in g['path'] and 'copy_to' not in g['path'] and '<impl' in g['path'] and 'from' in g['path']
                a, c = self.pointee(f, t[3][0]), self.pointee(f, t[3][1])
                if flip:
                    a, c = c, a
                ty = [x for x in g['args'] if isinstance(x, int)]
                if ty and self.needs_drop(ty[0]):
                    if a is not None:
                        out.add(a)
                    if c is not None:
                        out.discard(c)
                        kills.add(c)
            elif ext and n in INVALID and t[8] is not None and self.needs_drop(t[8]):
                out.add(dst)
            elif ext and n == 'forget' and t[3] and t[3][0][0] == 'm':
                q = self.canon(f, t[3][0][1])
                out = {x for x in out if not (x[0] == q[0] and x[1][:len(q[1])] == q[1])}
            elif ext and n == 'replace' and 'mem::' in g['path'] and len(t[3]) == 2 and t[3][1][0] == 'm':
                q = self.canon(f, t[3][1][1])
                p = self.pointee(f, t[3][0])
                if q in out and p is not None:
                    out.discard(q)
                    out.add(p)
                elif p is not None:
                    out = {x for x in out if not (x[0] == p[0] and x[1][:len(p[1])] == p[1])}
            elif not ext and g['body']:
                gen, kill = self.summary(g)
                for ps, add in ((kill, False), (gen, True)):
                    for (l, pr) in ps:
                        if l - 1 < len(t[3]) and t[3][l - 1][0] in ('p', 'm'):
                            x = t[3][l - 1][1]
                            c = self.canon(f, [x[0], list(x[1])])
                            c = self.canon(f, [x[0], list(x[1]) + ['*']]) if pr[0] == '*' else c
                            c = (c[0], c[1] + tuple(pr[1:] if pr[0] == '*' else pr))
                            if add:
                                out.add(c)
                            else:
                                out = {y for y in out if not (y[0] == c[0] and y[1][:len(c[1])] == c[1])}
                                kills.add(c)
        res = []
        if t[5] is not None:
            res.append((t[5], out))
        if self.user(t[2]) and st and (g is None or 'catch_unwind' not in g['path']):
            if isinstance(t[6], int):
                res.append((t[6], set(st)))
            elif t[6] == 'c' and bad is not None:
                for p in st:
                    if '*' in p[1]:
                        bad.append(('unwind', line, 'a panic of a user function leaves %s owned twice, its owner drops it again'
                                    % self.show(f, p)))
        return res

    # ---------------------------------------------------------- C22: effects
    def effects(self, f):
        R = self.r22
        clean = True
        nm = f['path']
        for blk in f['body']['blocks']:
            t = blk['t']
            if t[0] == 'call' and t[2] is not None:
                g = self.p.F[t[2]]
                if g['krate'] == self.p.crate:
                    continue
                for rx, what in IO:
                    if re.search(rx, g['path']) and 'io::error' not in g['path']:
                        R.violation('%s:%s' % (nm, g['path']), '%s uses %s: it calls %s (%s)' % (nm, what, g['path'], t[7]))
                        clean = False
                if LAZY.search(g['path']):
                    why = self.once(f, g, t)
                    if why == '?':
                        R.unknown('%s:lazy' % nm, '%s uses a value that is computed once (%s)' % (nm, g['path']))
                        clean = False
                    elif why:
                        R.violation('%s:%s' % (nm, g['path']), '%s keeps %s in a global variable: it calls %s (%s)' % (
                            nm, why, g['path'], t[7]))
                        clean = False
                if g['foreign'] and not all(self.p.T[x]['k'] == 'float' or self.p.T[x]['k'] == 'int' for x in g['sig']):
                    R.unknown('%s:foreign' % nm, '%s calls the foreign function %s' % (nm, g['path']))
                    clean = False
            for s in blk['s']:
                if s[0] != '=':
                    continue
                rv = s[2]
                if rv[0] == 'tls':
                    R.violation('%s:tls' % nm, '%s uses the thread-local variable %s' % (nm, rv[1]))
                    clean = False
                if rv[0] == 'cast' and 'Expose' in str(rv[1]):
                    R.unknown('%s:address' % nm, '%s looks at the address of a value' % nm)
                    clean = False
                # a write through a pointer made from a shared reference
                if any(e == '*' for e in s[1][1]) and self.p.T[f['body']['locals'][s[1][0]]]['k'] == 'ptr':
                    c = self.canon(f, s[1])
                    if c[0] and c[0] <= f['body']['argc'] and c[1][:1] == ('*',) \
                            and self.p.T[f['body']['locals'][c[0]]]['k'] == 'ref' and not self.p.T[f['body']['locals'][c[0]]]['mut']:
                        R.violation('%s:shared' % nm, '%s writes to %s, which it only has a shared reference to' % (
                            nm, self.show(f, c)))
                        self.r20.violation('%s:shared' % nm, '%s writes to %s, which it only has a shared reference to' % (
                            nm, self.show(f, c)))
                        clean = False
        for sid in sorted(self.static_refs(f)):
            a = self.p.A[sid]
            mut = any(n.rsplit('::', 1)[-1] == a['path'].rsplit('::', 1)[-1] and m for n, m in self.p.statics)
            w = self.cell_in(a['ty'])
            if mut or w and not LAZYTY.search(w):
                R.violation('%s:static:%s' % (nm, a['path']), '%s uses the global variable %s, which can change%s' % (
                    nm, a['path'], '' if mut else ' (%s)' % w))
                clean = False
        if clean:
            R.ok('%s: no input, output, clock, randomness, thread-local or global variable' % nm)

    def once(self, f, g, t):
        """A call of a once-cell: None when what it keeps depends on nothing, '?' when not known, else what it keeps."""
        n = last(g['path'])
        glob = any(LAZYTY.search(self.cell_in(self.p.A[s]['ty']) or '') for s in self.static_refs(f))
        if n in ('force', 'deref') and 'azy' in g['path']:
            return None if glob else '?'
        if n in ('get_or_init', 'get_or_try_init', 'call_once') and glob | (n == 'call_once') and len(t[3]) == 2:
            ty = g['sig'][1] if len(g['sig']) > 2 else None
            k = self.p.T[ty] if ty is not None else None
            if k is not None and (k['k'] == 'fndef' or k['k'] == 'closure' and not k['ups']):
                return None
            if k is not None and k['k'] == 'closure':
                return 'a value made from those of its first call'
        if n == 'set' and glob:
            return 'a value of one of its calls'
        return '?'

    def static_refs(self, f):
        out, todo, seen = set(), [], set()

        def op(o):
            if o and o[0] == 'k' and isinstance(o[2], list):
                todo.extend(r[1] for r in o[2][1] if isinstance(r, list))

        def walk(x):
            if isinstance(x, list):
                if x and x[0] == 'k' and len(x) == 3 and isinstance(x[2], list):
                    op(x)
                for y in x:
                    walk(y)
        for blk in f['body']['blocks']:
            walk(blk['s'])
            walk(blk['t'])
        while todo:
            a = todo.pop()
            if a in seen or a not in self.p.A:
                continue
            seen.add(a)
            x = self.p.A[a]
            if x['k'] == 'static':
                if x['path'].startswith(self.p.crate + '::') or not x['path'].startswith(('core::', 'alloc::', 'std::')):
                    out.add(a)
                body = x['init']
            elif x['k'] == 'mem':
                body = x['body']
            else:
                continue
            if body and isinstance(body, list):
                todo.extend(r[1] for r in body[1] if isinstance(r, list))
        return out

    def cell_in(self, tid, seen=()):
        """Name of a type inside that can change behind a shared reference (owned pointers are followed to what they own)."""
        if tid in seen:
            return None
        if tid in self.cells:
            return self.cells[tid]
        t = self.p.T[tid]
        k = t['k']
        r = None
        sub = []
        if k == 'tuple':
            sub = t['elems']
        elif k in ('array', 'slice'):
            sub = [t['elem']]
        elif k in ('ref', 'ptr'):
            sub = [t['to']]
        elif k == 'closure':
            sub = t['ups']
        elif k == 'adt':
            if MUTCELL.search(t['path']) or re.search(r'::(Cell|RefCell|UnsafeCell|Mutex|RwLock|OnceLock|LazyLock|OnceCell|LazyCell|Atomic\w+)$',
                                                     t['path']):
                r = t['name']
            elif t['path'].startswith(self.p.crate + '::'):
                sub = [x for v in t['variants'] for _, x in v['fields']]
            else:
                sub = [a for a in t['args'] if isinstance(a, int)]
        for x in sub:
            if r is None:
                r = self.cell_in(x, seen + (tid,))
        if not seen:
            self.cells[tid] = r
        return r

    def state(self):
        """No type of the crate, and no closure it makes, carries state that changes behind a shared reference."""
        R = self.r22
        for t in sorted(self.p.T.values(), key=lambda t: t['name']):
            if t['k'] == 'adt' and t['path'].startswith(self.p.crate + '::') and '__xprs_' not in t['path']:
                for v in t['variants']:
                    for n, x in v['fields']:
                        w = self.cell_in(x)
                        if w is None:
                            R.ok('%s: the field %s changes only through an exclusive reference' % (t['path'], n))
                        elif LAZYTY.search(w):
                            R.unknown('field:%s.%s' % (t['path'], n), '%s.%s is a value computed once (%s)' % (t['path'], n, w))
                        else:
                            R.violation('field:%s.%s' % (t['path'], n), '%s: the field %s hides state that can change (%s)' % (
                                t['path'], n, w))
            elif t['k'] == 'closure' and t.get('path', '').startswith(self.p.crate + '::') and '__xprs_' not in t['path'] \
                    or t['k'] == 'closure' and ('<%s::' % self.p.crate) in t.get('path', ''):
                w = None
                for x in t['ups']:
                    if self.p.T[x]['k'] not in ('ref', 'ptr'):
                        w = w or self.cell_in(x)
                if w is None:
                    R.ok('%s captures nothing that can change' % t['path'])
                elif LAZYTY.search(w):
                    R.unknown('closure:' + t['path'], '%s captures a value computed once (%s)' % (t['path'], w))
                else:
                    R.violation('closure:' + t['path'], '%s captures state that changes between calls (%s)' % (t['path'], w))

    def threads(self):
        R = self.r22
        w = self.p.witness or {}
        e = (w.get('errors') or {}).get('threads')
        if e:
            m = re.search(r"`[^`]*` cannot be (sent|shared) between threads safely|[^\n]*cannot be (sent|shared) between threads safely", e)
            if m:
                R.violation('threads', 'a public type is not safe to use from several threads: %s' % m.group(0).strip()[:300])
            else:
                R.unknown('threads', 'the thread-safety witness does not compile: %s' % e[:300])
        elif 'threads' in (w.get('in') or ()):
            R.ok('every public type and every bound function is Send and Sync: the witness module compiles')
        else:
            R.unknown('threads', 'no thread-safety witness in the dump')
