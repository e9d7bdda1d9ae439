"""C26: the factorial."""
import math
from absint import *
from tree import *
from terms import cmp_ieee
from report import Report

TABLE = [1.0]
for _n in range(1, 171):
    TABLE.append(TABLE[-1] * _n)


def spec(ip, base):
    """The documented factorial of a double, refining the facts of the path where it has to."""
    if ip.fdecide(base, ('isnan', ())):
        return math.nan
    if ip.fdecide(base, ('cmp', (), 0.0, CMP['Lt'])):
        return math.nan
    if ip.fdecide(base, ('isinf', ())):
        return math.inf
    if ip.fdecide(base, ('cmp', ('fract',), 0.0, CMP['Ne'])):
        return math.nan
    if ip.fdecide(base, ('cmp', (), 170.0, CMP['Gt'])):
        return math.inf
    vals = ip.f2i_values(base, 0, 170)
    if not vals:
        raise PathEnd('infeasible')
    n = vals[ip.choose(len(vals))]
    ip.facts.fl.setdefault(base, []).append((('int', (), n), True))
    return TABLE[n]


def ns_const(v):
    return bits2f(v.t[1]) if isinstance(v, F) and v.t[0] == 'c' else None


def same(x, y):
    return x == y or x != x and y != y


class FactCheck:
    def __init__(self, prog, config):
        self.t = Tree(prog)
        self.p = prog
        self.config = config

    def run(self):
        r26, r20, r30 = [Report(p, self.config) for p in ('C26', 'C20', 'C30')]
        fs = [self.p.F[i] for i in sorted(self.t.fact_fns)]
        if not fs:
            raise Anchor('the factorial function')
        s = Session(self.t)
        for f in fs:
            first = [Report(p, self.config) for p in ('C26', 'C20', 'C30')]
            self.region(s, f, first, False)
            if any(r.unknowns for r in first):
                # not decided for all numbers at once: one whole number of the domain after the other
                led, LEDGER[0] = LEDGER[0], Ledger()
                second = [Report(p, self.config) for p in ('C26', 'C20', 'C30')]
                self.region(s, f, second, True)
                if sum(len(r.unknowns) for r in second) < sum(len(r.unknowns) for r in first) or any(r.violations for r in second):
                    first = second
                    led.lost.clear()
                for d in ('ub', 'hang', 'lost'):
                    for k, v in getattr(LEDGER[0], d).items():
                        getattr(led, d).setdefault(k, v)
                for d in ('safe', 'unchecked', 'loops'):
                    getattr(led, d).update(getattr(LEDGER[0], d))
                LEDGER[0] = led
            for x, y in zip((r26, r20, r30), first):
                x.merge(y)
        for rep in (r26, r20, r30):
            rep.functions |= {f['path'] for f in fs}
            rep.paths = s.paths
        return [r26, r20, r30]

    def region(self, s, f, reps, split):
        r26, r20, r30 = reps

        def body(ip):
            x = F(('v', 'x'))
            if not split:
                v = ip.call(f['id'], [x])
                return v, spec(ip, x.t)
            want = spec(ip, x.t)
            ns = [k[2] for k, b in ip.facts.fl.get(x.t, []) if b and k[0] == 'int']
            if ns:
                ip.note('x = %d' % ns[0])
                x = F(('c', f2bits(float(ns[0]))))
            return ip.call(f['id'], [x]), want
        for r in explore(lambda sc: Interp(self.p, self.t.m, sc, {}, {
                'covered': s.coverage, 'loopmax': 400 if split else 40}), body, max_paths=1000):
            s.paths += 1
            key = '%s:%s' % (f['path'], '; '.join(r.log)[-80:])
            site = '%s(x) with %s' % (f['path'], '; '.join(r.log) or 'any x')
            conv = [e for e in r.events if e[0] == 'f2i']
            if r.kind == 'hang':
                continue
            if r.kind == 'ub':
                for rep in (r20, r26):
                    rep.violation('%s:ub' % f['path'], '%s: %s at %s' % (site, r.info, r.where))
                continue
            for e in conv:
                r20.ok('%s: the unchecked conversion at %s only sees finite values in range' % (
                    f['path'], e[2][0]))
            if r.kind == 'panic':
                for rep in (r26, r30):
                    rep.violation('%s:panic' % f['path'], '%s: panics, %s at %s' % (site, r.info, r.where))
                continue
            if r.kind != 'return':
                for rep in (r26, r30, r20):
                    rep.unknown(f['path'], '%s: %s at %s' % (site, r.info, r.where))
                continue
            r30.ok()
            v, want = r.info
            if ns_const(v) is not None and r.ip.facts.fl.get(('v', 'x')) and any(
                    k[0] == 'int' and b for k, b in r.ip.facts.fl[('v', 'x')]):
                c = ('eq',) if same(ns_const(v), want) else ('ne',)
            else:
                c = None
            c = c or cmp_ieee(r.ip, ('c', f2bits(want)), v.t) if isinstance(v, F) else ('?',)
            if c[0] == 'eq':
                r26.ok('%s = %r' % (site, want))
            elif c[0] == 'ne' and not (r.ip.facts.frel or r.ip.facts.bools or set(r.ip.facts.fl) - {('v', 'x')}):
                r26.violation(key, '%s: returns %s instead of %r' % (site, fstr(v.t), want))
            else:
                r26.unknown(f['path'], '%s: returns %s, expected %r' % (site, fstr(v.t) if isinstance(v, F) else v, want))
