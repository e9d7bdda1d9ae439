"""C29: functions made by the helper macro keep their name, their arity and their arguments."""
from absint import *
from tree import *
from report import Report
from models import slice_items
from terms import cmp_ieee

FORM = re.compile(r'__xprs_macros::fn_(static|closure|expr|const|dyn|dynvar)_(named|plain)_(v|\d)$')
FORMS = 9 * 11


class MacroCheck:
    def __init__(self, prog, config):
        self.p, self.config = prog, config
        self.t = Tree(prog)

    def run(self):
        R = self.R = {p: Report(p, self.config) for p in ('C29', 'C20', 'C30')}
        self.s = Session(self.t)
        self.paths = 0
        self.probes = {}
        forms = []
        for f in self.p.F.values():
            m = re.search(r'__xprs_macros::probe(v|\d)$', f['path'])
            if m:
                self.probes[m[1]] = f
            m = FORM.search(f['path'])
            if m and f['body']:
                forms.append((f, m[1], m[2], m[3]))
        w = getattr(self.p, 'witness', None) or {}
        if w and 'macros' not in w['in']:
            self.broken(w['errors'])
        elif len(forms) < FORMS:
            R['C29'].unknown('anchor', 'found %d of the %d uses of the macro' % (len(forms), FORMS))
        for x in sorted(forms, key=lambda x: x[0]['path']):
            self.form(*x)
        for rep in R.values():
            rep.functions |= {self.p.F[x]['path'] for x in self.s.coverage if self.p.F[x]['krate'] == self.p.crate}
            rep.paths = self.paths
        return list(R.values())

    def broken(self, errors):
        R = self.R['C29']
        t = errors.get('macros') or '\n'.join(errors.values())
        bad = sorted(set(re.findall(r'^\s*\d+ \|\s+pub fn (fn_\w+)\(', t, re.M)))
        bad = [b for b in bad if FORM.search('__xprs_macros::' + b)]
        if not bad:
            R.unknown('compile', 'the uses of the macro do not compile: %s' % t[-400:])
        for b in bad:
            R.violation('compile:' + b, 'the use `%s` of the macro does not compile' % b)

    def form(self, f, kind, named, n):
        R, t = self.R['C29'], self.t
        key = f['path'].rsplit('::', 1)[1]
        cnts = (1, 2, 3, 7) if n == 'v' else (int(n),)
        dyn = kind.startswith('dyn')
        ks = [F(('v', 'k'))] if len(f['sig']) == 2 else []
        probe = self.probes[n]
        for c in cnts:
            args = [('v', ('arg', i)) for i in range(c)]

            def hook(ip, g, a):
                if n == 'v':
                    xs = tuple(ip.load(x).t for x in slice_items(ip, a[0]))
                else:
                    xs = tuple(x.t for x in a)
                ip.calls.append(xs)
                return F(('fn', 'probe') + xs)

            def body(ip):
                ip.calls = []
                v = ip.call(f['id'], list(ks))
                if not isinstance(v, Adt) or v.ty != t.FUNC:
                    raise PathEnd('unknown', 'result %r' % (v,))
                nb = v.fs[t.ff['nb_args']]
                k = ip.variant_of(nb)
                got = nb.fs[0] if self.p.T[nb.ty]['variants'][k]['fields'] else None
                want = None if n == 'v' else int(n)
                if got != want:
                    return 'declares %s arguments instead of %s' % (got, want)
                nm = text(ip, v.fs[t.ff['name']]).lit()
                wname = 'given' if named == 'named' else 'probe' + n
                if nm != wname:
                    return 'is named %r instead of %r' % (nm, wname)
                for rnd in (0, 1):
                    ip.calls.clear()
                    fp = v.fs[t.ff['func']]
                    while isinstance(fp, Adt) and self.p.T[fp.ty]['k'] == 'adt' and len(fp.fs) == 1:
                        fp = fp.fs[0]
                    r = ip.call_value(fp, [Ref(Cell(Seq(tuple(F(a) for a in args))))])
                    if not isinstance(r, F):
                        raise PathEnd('unknown', 'value %r' % (r,))
                    if len(ip.calls) != 1:
                        return 'calls the function %d times' % len(ip.calls)
                    if ip.calls[0] != tuple(args):
                        return 'passes (%s) for (%s)' % (', '.join(map(fstr, ip.calls[0])), ', '.join(map(fstr, args)))
                    w = ('fn', 'probe') + tuple(args)
                    if ks:
                        w = binterm('Minus', w, ks[0].t)
                    c = cmp_ieee(ip, w, r.t)
                    if c[0] == 'ne':
                        return 'returns %s instead of %s' % (fstr(r.t), fstr(w))
                    if c[0] != 'eq':
                        raise PathEnd('unknown', 'value %s' % fstr(r.t))
                return None

            def mk(sc):
                ip = Interp(self.p, t.m, sc, {probe['id']: hook}, {'covered': self.s.coverage})
                ip.tree = t
                return ip
            for r in explore(mk, body, max_paths=200):
                self.paths += 1
                at = '%s with %d argument%s' % (key, c, '' if c == 1 else 's')
                if r.kind == 'return':
                    if r.info is None:
                        R.ok(at)
                        self.R['C30'].ok()
                    else:
                        R.violation(key, '%s: %s' % (at, r.info))
                elif r.kind in ('panic', 'ub'):
                    R.violation(key + ':' + r.kind, '%s: %s at %s' % (at, r.info, r.where))
                    self.R['C30' if r.kind == 'panic' else 'C20'].violation(
                        key + ':' + r.kind, '%s: %s at %s' % (at, r.info, r.where))
                else:
                    R.unknown(key, '%s: %s at %s' % (at, r.info, r.where))
