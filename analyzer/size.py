"""Termination of recursions over trees: a measure that every recursive call decreases."""
from itertools import combinations
from absint import *


def unboxv(v):
    while isinstance(v, BoxV):
        v = v.cell.v
    return v


def load(ip, v):
    while isinstance(v, Ref):
        v = ip.load(v)
    return unboxv(v)


def add(d, e, k=1):
    for t, c in e.items():
        d[t] = d.get(t, 0) + k * c
        if not d[t]:
            del d[t]
    return d


def size(ip, v, depth=0):
    """Number of nodes of an element, as a linear term: {opaque element: count, 1: constant}."""
    t = ip.tree
    if depth > 12:
        raise PathEnd('unknown', 'size')
    v = load(ip, v)
    if isinstance(v, Opq):
        vs = ip.facts.variants.get(v.term)
        if vs is None or len(vs) != 1:
            return {v.term: 1}
        v = ip.expand(v, next(iter(vs)))
    if not isinstance(v, Adt) or v.ty != t.ELEMENT:
        raise PathEnd('unknown', 'size of %r' % (v,))
    kind = t.kinds[v.var]
    x = load(ip, v.fs[0])
    d = {1: 1}
    if kind in ('num', 'var'):
        return d
    if isinstance(x, Opq):
        x = ip.expand(x, 0)
    if kind == 'bin':
        kids = [x.fs[t.bf['lhs']], x.fs[t.bf['rhs']]]
    elif kind == 'un':
        kids = [x.fs[t.uf['operand']]]
    else:
        a = load(ip, x.fs[t.cf['args']])
        if isinstance(a, SeqOpq) and ip.facts.lens.get(a.term) is None:
            return add(d, {('args', a.term): 1})
        kids = ip.seq(a).items
    for k in kids:
        add(d, size(ip, k, depth + 1))
    return d


def at_least(ip, d, n):
    """Is the linear term at least n?  0: yes; 1: yes if simplification does not make trees bigger; None: unknown."""
    def low(e):
        return all(c >= 0 for t, c in e.items() if t != 1) and sum(e.values()) >= n
    if low(d):
        return 0
    slack = []
    for k in known_results(d):
        e = {}
        add(e, opq_size(ip, k[1]))
        add(e, opq_size(ip, k), -1)
        slack.append(e)
    # results that were opened on the path
    for role, res, arg, extra in ip.cuts:
        if role in ('S', 'SF') and isinstance(res, Opq) and res.term not in d:
            try:
                e = size(ip, arg)
                slack.append(add(dict(e), size(ip, res), -1))
            except PathEnd:
                pass
    slack = [s for s in slack if s][:8]
    for n_ in range(1, len(slack) + 1):
        for sub in combinations(slack, n_):
            e = dict(d)
            for s in sub:
                add(e, s, -1)
            if low(e):
                return 1
    return None


def known_results(d):
    return [t for t in d if isinstance(t, tuple) and t and t[0] in ('S', 'SF')]


def opq_size(ip, term):
    return size(ip, Opq(term, ip.tree.ELEMENT))


class Recursion:
    """Gathers the recursive calls of one family of functions."""

    def __init__(self, prog, rep):
        self.p, self.rep = prog, rep
        self.same = {}          # function -> {function: site}: calls on the very same arguments
        self.pending = []       # obligations that need results to be no bigger than arguments
        self.grows = None

    def path(self, ip, f, site):
        for e in ip.events:
            if e[0] != 'recur':
                continue
            at = '%s, call at %s' % (site, e[4])
            if e[2] == 'below' or e[2] == 0:
                self.rep.ok(at)
            elif e[2] == 1:
                self.pending.append(at)
            elif e[2] == 'same' or e[2] == 'elem':
                self.same.setdefault(f['id'], {}).setdefault(e[1], (e[2], at))
            else:
                self.rep.unknown('%s:recursion' % f['path'], '%s: recursive call on something not known to be smaller' % at)

    def result(self, ip, v, site):
        """A simplified tree is no bigger than what it came from."""
        try:
            d = size(ip, Opq(ip.rootkey, ip.tree.ELEMENT))
            add(d, size(ip, v), -1)
            ok = at_least(ip, d, 0) is not None
        except PathEnd:
            ok = False
        if not ok and self.grows is None:
            self.grows = site

    def finish(self):
        for at in self.pending:
            if self.grows is None:
                self.rep.ok(at)
            else:
                self.rep.unknown('recursion', '%s: recursive call on a result, which may be bigger: %s' % (at, self.grows))
        del self.pending[:]
        for f, gs in sorted(self.same.items()):
            for g, (kind, at) in sorted(gs.items()):
                if g == f and kind == 'same':
                    self.rep.violation('%s:recursion' % self.p.F[f]['path'],
                                       '%s: the function calls itself with the same arguments' % at)
                elif self.reaches(g, f):
                    self.rep.unknown('%s:recursion' % self.p.F[f]['path'], '%s: calls on the same element form a cycle' % at)
                else:
                    self.rep.ok(at)
        self.same.clear()

    def reaches(self, a, b):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                todo += list(self.same.get(x, ()))
        return False
