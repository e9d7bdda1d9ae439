"""C31: the interactive program."""
import re
from absint import *
from tree import find_map
from report import Report
from models import Models, It, END, display, map_get, text, strip, mkstr
from props_eval import is_ok

MAXLINES = 3
LIKE = 'exits + exit'


class ReadLines(It):
    def __init__(self, chk, f):
        self.chk = chk
        r = chk.p.T[f['sig'][-1]]
        self.ty = None

    def next(self, ip):
        t = self.chk.line(ip)
        if t is None:
            return END
        if t.lit() is not None:
            t = StrV((t.lit().strip(),))
        return self.chk.good(self.chk.line_ty(), t)

    def clone(self):
        return self


class ReplCheck:
    dump = 'repl'

    def __init__(self, prog, config):
        self.p, self.config = prog, config
        self.m = Models(prog)

    def run(self):
        R = self.R = Report('C31', self.config)
        main = [f for f in self.p.F.values() if f['path'] == self.p.crate + '::main' and f['body']]
        self.coverage = set()
        self.paths = 0
        if not main:
            R.unknown('anchor', 'no main')
            return [R]
        self.xprs = next((t for t in self.p.T.values() if t.get('path') == 'xprs::xprs::Xprs' and t.get('variants')), None)
        self.hooks = self.make_hooks()
        for r in explore(self.mk, lambda ip: ip.call(main[0]['id'], []), max_paths=20000):
            self.paths += 1
            self.judge(r)
        R.functions |= {self.p.F[x]['path'] for x in self.coverage if self.p.F[x]['krate'] == self.p.crate}
        R.paths = self.paths
        return [R]

    def mk(self, sc):
        ip = Interp(self.p, self.m, sc, self.hooks, {'covered': self.coverage, 'str_can': self.str_can,
                                                     'maxchoices': 400})
        ip.ev = []             # what happened, in order
        ip.n = ip.lines = 0
        ip.eofs = 0
        ip.texts = {}
        ip.answers = 0
        ip.want = []           # variables to be asked for
        ip.bad = None
        ip.excused = False
        return ip

    @staticmethod
    def str_can(ip, atom, lit):
        """A line that is not `exit` is not that word, however it is trimmed."""
        return not ("('line'" in repr(atom) and lit.strip() == 'exit')

    # ------------------------------------------------------------ the outside world
    def make_hooks(self):
        h = {}

        def on(rx, fn):
            for f in self.p.F.values():
                if re.search(rx, f['path']):
                    h[f['id']] = fn
        on(r'io::stdio::_e?print$', self.h_print)
        on(r'io::stdio::(stdout|stdin|stderr)$|Std(out|in|err)::lock$', lambda ip, f, a: Obj('io'))
        on(r'as (std|core)::io::(\w+::)*Write>::flush$', lambda ip, f, a: self.good(f['sig'][-1], self.unit()))
        on(r'as (std|core)::io::(\w+::)*Write>::write_fmt$', self.h_write)
        on(r'(Stdin|BufRead>)::read_line$', self.h_read)
        on(r'(Stdin|BufRead>)::lines$', lambda ip, f, a: ReadLines(self, f))
        on(r'^<std::io::(\w+::)*Lines<.*> as core::iter::traits::iterator::Iterator>::next$', self.h_next)
        on(r'^xprs::parser::Parser::<.*>::parse$', self.h_parse)
        on(r'^<xprs::xprs::Xprs<.*> as core::convert::TryFrom<.*>>::try_from$', self.h_parse)
        on(r'^<xprs::parser::Parser<.*> as core::default::Default>::default$',
           lambda ip, f, a: Opq('parser', f['sig'][-1]))
        on(r'^xprs::xprs::Xprs::<.*>::eval(_unchecked)?$', self.h_eval)
        on(r'^xprs::xprs::Xprs::<.*>::eval(_unchecked)?_no_vars(_unchecked)?$', self.h_eval)
        on(r'miette::(\w+::)*(<impl .*Report>|Report)::new$', lambda ip, f, a: Opq(('report', vkey(a[0])), f['sig'][-1]))
        return h

    def unit(self):
        return Adt(None, 0, ())

    def good(self, ty, v):
        return Adt(ty, 0, (v,))

    def h_print(self, ip, f, a):
        out = []
        display(ip, f['sig'][0], a[0], out)
        ip.ev.append(('print', tuple(out)))
        return self.unit()

    def h_write(self, ip, f, a):
        out = []
        display(ip, f['sig'][1], a[1], out)
        ip.ev.append(('print', tuple(out)))
        return self.good(f['sig'][-1], self.unit())

    def line(self, ip):
        """The next line: its text, or None at the end of the input."""
        ip.ev.append(('read', ip.n, bool(ip.want)))
        n = ip.n
        ip.n += 1
        if ip.eofs or ip.lines >= MAXLINES and not ip.want:
            k = 'eof'
        elif ip.want:
            ip.answers += 1
            k = ('other', 'eof')[ip.choose(2) if ip.answers < 3 else 1]
        else:
            k = ('eof', 'exit', 'last exit', 'other', 'last other', 'like')[ip.choose(6 if not ip.n - 1 else 5)]
        ip.ev[-1] += (k,)
        ip.note('line %d: %s' % (n, k))
        if k == 'eof' or k.startswith('last'):
            ip.eofs += k == 'eof'
            if ip.eofs > 12:
                ip.bad = 'goes on reading after the end of the input'
                raise PathEnd('return', None)
            if k == 'eof':
                if ip.want:
                    ip.excused = True     # the input ends where a number is asked for
                return None
            ip.eofs = 1
        if not ip.want:
            ip.lines += 1
        if k == 'like':
            ip.texts[n] = LIKE
            return StrV((LIKE + '\n',))
        return StrV((('s', ('line', n)),)) if k.endswith('other') else StrV(('exit' if k.startswith('last') else 'exit\n',))

    def h_read(self, ip, f, a):
        t = self.line(ip)
        if t is None:
            return self.good(f['sig'][-1], 0)
        if not isinstance(a[1], Ref):
            raise PathEnd('unknown', 'buffer %r' % (a[1],))
        ip.store(a[1], mkstr(text(ip, a[1]).parts + t.parts))
        if t.lit() is not None:
            return self.good(f['sig'][-1], len(t.lit()))
        n = ip.n
        ip.facts.ints[('n', ('len', n))] = (1, (1 << 63) - 1)
        return self.good(f['sig'][-1], Lin(((('n', ('len', n)), 1),), 0))

    def line_ty(self):
        """io::Result<String>"""
        for t in self.p.T.values():
            if t.get('path') == 'core::result::Result' and self.p.T[t['args'][0]].get('path') == 'alloc::string::String':
                return t['id']
        raise PathEnd('unknown', 'the type of a line')

    def h_next(self, ip, f, a):
        t = self.line(ip)
        ty = f['sig'][-1]
        if t is None:
            return Adt(ty, 0, ())
        if t.lit() is not None:
            t = StrV((t.lit().strip(),))
        return Adt(ty, 1, (self.good(self.p.T[ty]['args'][0], t),))

    def h_parse(self, ip, f, a):
        s = text(ip, a[-1])
        n = sum(1 for e in ip.ev if e[0] == 'parse')
        ip.ev.append(('parse', s))
        if len(a) == 2 and not (isinstance(strip(ip, a[0]), Opq) and strip(ip, a[0]).term == 'parser'):
            ip.bad = ip.bad or 'the parser has changed since it was made'
        ty = f['sig'][-1]
        k = ip.choose(4)
        if k == 3:
            ip.note('does not parse')
            return Adt(ty, 1, (Opq(('err', n), self.p.T[ty]['args'][1]),))
        ip.note('parses, %d variables' % k)
        names = tuple(StrV((('s', ('var', n, i)),)) for i in range(k))
        for i in range(k):
            for j in range(i):
                ip.facts.bools[('streq',) + tuple(sorted((names[i], names[j]), key=lambda x: repr(x.parts)))] = False
        ip.ev.append(('parsed', names))
        ip.want = list(names)
        ip.answers = 0
        xt = self.p.T[ty]['args'][0]
        fs = self.p.T[xt]['variants'][0]['fields']
        return self.good(ty, Adt(xt, 0, tuple(SetV(names) if fn == 'vars' else Opq(('root', n), ft) for fn, ft in fs)))

    def h_eval(self, ip, f, a):
        m = find_map(ip, a[1]) if len(a) > 1 else None
        env = {}
        names = next((e[1] for e in reversed(ip.ev) if e[0] == 'parsed'), ())
        for v in names:
            c = map_get(ip, m, v) if m is not None else None
            env[v] = c.v if c is not None else None
        n = sum(1 for e in ip.ev if e[0] == 'eval')
        ip.ev.append(('eval', env, n))
        ip.want = []
        r = F(('v', ('result', n)))
        ty = f['sig'][-1]
        if self.p.T[ty]['k'] == 'float':
            return r
        if any(v is None for v in env.values()):
            return Adt(ty, 1, (Opq(('everr', n), self.p.T[ty]['args'][1]),))
        return self.good(ty, r)

    # ------------------------------------------------------------ judging
    def judge(self, r):
        R, ip = self.R, r.ip
        at = '; '.join(x for x in r.log)[-300:]
        if r.kind not in ('return', 'panic', 'ub'):
            R.unknown('path', '%s: %s at %s' % (at, r.info, r.where))
            return
        try:
            bad = ip.bad or self.verdict(ip, r)
        except PathEnd as e:
            R.unknown('path', '%s: %s' % (at, e.info))
            return
        if bad is None:
            R.ok(at)
        else:
            R.violation('main:' + re.sub(r'\d+', '#', bad), '%s: %s' % (at, bad))

    def verdict(self, ip, r):
        unparsed = any(k[0] == 'parses' and v is False for k, v in ip.facts.bools.items())
        if r.kind == 'ub':
            return 'undefined behaviour: %s at %s' % (r.info, r.where)
        last = None       # last main line
        kind = None
        pend = None
        names, asked, given = (), None, {}
        shown = False
        for e in ip.ev:
            if e[0] == 'read':
                if e[2]:
                    given[asked] = e[1]
                    if e[3] == 'eof':
                        return None if r.kind == 'panic' or self.quiet(ip, e) else 'goes on after the end of the input'
                    continue
                if kind in ('exit', 'last exit'):
                    return 'goes on after the line `exit`'
                if pend is not None:
                    return 'does not show the value of the expression'
                if kind in ('other', 'last other', 'like') and not shown and not self.literal(ip, last):
                    return 'does not parse a line'
                last, kind, shown = e[1], e[3], False
            elif e[0] == 'print':
                vs = [p for p in e[1] if isinstance(p, tuple) and p[0] == 's' and p[1][0] == 'var']
                if vs:
                    asked = vs[-1]
                if pend is not None and any(isinstance(p, tuple) and p[0] == 'f64' and p[1] == pend for p in e[1]):
                    pend = None
            elif e[0] == 'parse':
                if kind in ('exit', 'last exit'):
                    return 'parses after the line `exit`'
                if last is None or kind == 'eof':
                    return 'parses without a line'
                if not self.same(ip, e[1], last):
                    return 'parses %s instead of the last line' % tstr(e[1])
                shown = True
                given = {}
            elif e[0] == 'parsed':
                names = e[1]
            elif e[0] == 'eval':
                for v in names:
                    x = e[1].get(v)
                    if x is None:
                        return 'evaluates without a value for a variable'
                    n = given.get(v.parts[0])
                    if n is None:
                        raise PathEnd('unknown', 'which value was asked for %s' % tstr(v))
                    s = x.t[1] if isinstance(x, F) and x.t[0] == 'parse' else None
                    if s is None:
                        raise PathEnd('unknown', 'value %r' % (x,))
                    if not self.same(ip, s, n):
                        return 'gives a variable the value of another line'
                pend = ('v', ('result', e[2]))
        if r.kind == 'panic':
            return None if unparsed else 'panics: %s at %s' % (r.info, r.where)
        if unparsed and kind != 'eof':
            return None
        if pend is not None:
            return 'does not show the value of the expression'
        if kind in ('other', 'last other', 'like') and not self.literal(ip, last):
            return 'stops before the end of its input' if kind != 'last other' else None if shown else 'does not parse a line'
        return None

    def quiet(self, ip, e):
        i = ip.ev.index(e)
        return not any(x[0] in ('parse',) for x in ip.ev[i + 1:])

    def literal(self, ip, n):
        """Does the path know more about the line than that it is some line?"""
        k = repr(('line', n))
        return any(k in repr(x) for x in ip.facts.strlit) or any(
            k in repr(x) and v for x, v in ip.facts.bools.items()) or any(k in repr(x) for x in ip.facts.lens)

    def same(self, ip, s, n):
        """Is s the text of line n, perhaps trimmed?"""
        a = s
        if n in ip.texts:
            return s.lit() is not None and s.lit().strip() == ip.texts[n]
        while isinstance(a, StrV) and len(a.parts) == 1 and not isinstance(a.parts[0], str):
            a = a.parts[0]
            if a == ('s', ('line', n)):
                return True
            if a[0] in ('trim', 'trim_start', 'trim_end'):
                a = a[1]
            elif a[0] == 's' and isinstance(a[1], tuple) and a[1][0] == 'strfn' and a[1][1].startswith('trim'):
                a = a[1][2]
            else:
                break
        if isinstance(s, StrV) and any(isinstance(p, tuple) and p[0] == 's' for p in s.parts) and repr(
                ('s', ('line', n))) in repr(s) and len(s.parts) == 1:
            raise PathEnd('unknown', 'text %s' % tstr(s))
        return False
