"""The dumped program: types, constants, functions."""
import json
import re
import struct


class Prog:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.crate = j['crate']
        self.T = {t['id']: t for t in j['types']}
        self.F = {f['id']: f for f in j['fns']}
        self.A = {a['id']: a for a in j['allocs']}
        for a in j['allocs']:
            if a['k'] == 'mem' and '_' in a['body'][0]:
                a['body'][0] = a['body'][0].replace('_', '0')
        self.witness = j.get('witness')
        self.roots = j['roots']
        self.statics = j['statics']
        self.generic = j['generic']
        self.aux = {}
        for t, k, f in j['aux']:
            self.aux[(t, k)] = f
        self.by_path = {}
        for f in j['fns']:
            self.by_path.setdefault(f['path'], []).append(f)
        self.by_name = {}
        for t in j['types']:
            self.by_name.setdefault(t['name'], t)
        self._scc = None
        self.sizes = {}

    # ---- lookup ---------------------------------------------------------
    def fn(self, path):
        """The only function of that path, or None."""
        l = self.by_path.get(path)
        if l and len(l) == 1:
            return l[0]
        if l:
            l2 = [f for f in l if f['body']]
            if len(l2) == 1:
                return l2[0]
        return None

    def find(self, rx):
        r = re.compile(rx)
        return [f for f in self.F.values() if r.search(f['path'])]

    def adt(self, path):
        for t in self.T.values():
            if t['k'] == 'adt' and t['path'] == path:
                return t
        return None

    def ty(self, i):
        return self.T[i]

    def is_(self, tid, *paths):
        t = self.T[tid]
        return t['k'] == 'adt' and t['path'] in paths

    def pointee(self, tid):
        t = self.T[tid]
        if t['k'] in ('ref', 'ptr'):
            return t['to']
        return None

    def variant(self, t, name):
        for i, v in enumerate(t['variants']):
            if v['name'] == name:
                return i
        return None

    def field(self, t, variant, name):
        for i, (n, _) in enumerate(t['variants'][variant]['fields']):
            if n == name:
                return i
        return None

    # ---- call graph -----------------------------------------------------
    def callees(self, f):
        """Functions a body mentions: called, or taken as a value."""
        key = f['id']
        c = self.sizes.get(key)
        if c is not None:
            return c
        out = set()
        b = f['body']
        if b:
            for bb in b['blocks']:
                t = bb['t']
                if t[0] == 'call' and t[2] is not None:
                    out.add(t[2])
            for tid in b['locals']:
                t = self.T[tid]
                if t['k'] == 'fndef' and t.get('fn') is not None:
                    out.add(t['fn'])
                if t['k'] == 'closure' and t.get('fn') is not None:
                    out.add(t['fn'])
            for tid in self.const_types(b):
                t = self.T[tid]
                if t['k'] in ('fndef', 'closure') and t.get('fn') is not None:
                    out.add(t['fn'])
            # a model may call these trait methods of the types it is used with
        for a in f['args']:
            if isinstance(a, int):
                t = self.T[a]
                if t['k'] in ('fndef', 'closure') and t.get('fn') is not None:
                    out.add(t['fn'])
        if not b:
            for a in f['args']:
                if isinstance(a, int):
                    self._aux_of(a, out, set(), f)
        self.sizes[key] = out
        return out

    def _aux_of(self, tid, out, seen, f):
        if tid in seen:
            return
        seen.add(tid)
        p = f['path']
        for (t, k), fid in self.aux.items():
            if t != tid:
                continue
            if (k == 'eq' and ('PartialEq' in p or 'contains' in p)) or (k == 'clone' and ('Clone' in p or 'clone' in p)) \
                    or (k == 'display' and ('fmt' in p or 'to_string' in p)) \
                    or (k == 'debug' and 'fmt' in p) or k in ('next', 'into_iter') or (k == 'default' and 'default' in p):
                out.add(fid)
        t = self.T[tid]
        if t['k'] in ('ref', 'ptr'):
            self._aux_of(t['to'], out, seen, f)
        if t['k'] in ('slice', 'array'):
            self._aux_of(t['elem'], out, seen, f)
        if t['k'] == 'adt':
            for a in t['args']:
                if isinstance(a, int):
                    self._aux_of(a, out, seen, f)

    def const_types(self, b):
        for bb in b['blocks']:
            for s in bb['s']:
                if s[0] == '=':
                    yield from _rv_types(s[2])
            t = bb['t']
            if t[0] == 'call':
                for a in t[3]:
                    if a[0] == 'k':
                        yield a[1]

    def sccs(self):
        """fnid -> component id, and the ids of recursive components."""
        if self._scc is not None:
            return self._scc
        index, low, comp, rec = {}, {}, {}, set()
        stack, on = [], set()
        n = [0]
        nc = [0]
        for root in list(self.F):
            if root in index:
                continue
            work = [(root, iter(sorted(self.callees(self.F[root]))))]
            index[root] = low[root] = n[0]
            n[0] += 1
            stack.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in self.F:
                        continue
                    if w not in index:
                        index[w] = low[w] = n[0]
                        n[0] += 1
                        stack.append(w)
                        on.add(w)
                        work.append((w, iter(sorted(self.callees(self.F[w])))))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = nc[0]
                    nc[0] += 1
                    members = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp[w] = c
                        members.append(w)
                        if w == v:
                            break
                    if len(members) > 1 or v in self.callees(self.F[v]):
                        rec.add(c)
        self._scc = (comp, rec)
        return self._scc

    def recursive(self, fid):
        comp, rec = self.sccs()
        return comp.get(fid) in rec

    def reach(self, fids):
        seen, work = set(), list(fids)
        while work:
            f = work.pop()
            if f in seen or f not in self.F:
                continue
            seen.add(f)
            work.extend(self.callees(self.F[f]))
        return seen


def _rv_types(r):
    def op(o):
        if o and o[0] == 'k':
            yield o[1]
    k = r[0]
    if k in ('use', 'rep'):
        yield from op(r[1])
    elif k in ('bin', 'cbin'):
        yield from op(r[2])
        yield from op(r[3])
    elif k in ('un', 'cast'):
        yield from op(r[2])
    elif k == 'agg':
        if r[2] is not None:
            yield r[2]
        for o in r[4]:
            yield from op(o)


def f2bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits2f(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]
