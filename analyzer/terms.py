"""Algebra of float terms: normal forms (real and IEEE) and refutation by valuation.

A term equality is established by normal form only; it is refuted by an
assignment of numbers to the opaque leaves that satisfies every fact of the
path; otherwise it stays undecided."""
import hashlib
import math
import random
from fractions import Fraction
from ir import bits2f, f2bits
from absint import frel, RELS


class Undefined(Exception):
    """A subterm has no finite real value."""


# ------------------------------------------------------------ substitution
def subst(t, s):
    """Replaces leaves by the terms s gives them, until nothing changes."""
    for _ in range(40):
        n = _subst(t, s)
        if n == t:
            return t
        t = n
    return t


def _subst(t, s):
    if t in s:
        return s[t]
    if t[0] in ('c', 'v'):
        return t
    if t[0] == 'fn':
        return t[:2] + tuple(_subst(x, s) if isinstance(x, tuple) else x for x in t[2:])
    return (t[0],) + tuple(_subst(x, s) for x in t[1:])


def subterms(t):
    yield t
    if t[0] in ('c', 'v'):
        return
    for x in t[2 if t[0] == 'fn' else 1:]:
        if isinstance(x, tuple):
            yield from subterms(x)


def leaves(t, out):
    if t[0] == 'v':
        out.add(t)
    elif t[0] != 'c':
        for x in t[2 if t[0] == 'fn' else 1:]:
            if isinstance(x, tuple):
                leaves(x, out)


def occurs(a, t):
    return any(x == a for x in subterms(t))


def unify(a, b, s, rest):
    """Solves a = b for leaves; what it cannot solve goes to rest."""
    a, b = subst(a, s), subst(b, s)
    if a == b:
        return
    if a[0] == 'v' and not occurs(a, b):
        s[a] = b
    elif b[0] == 'v' and not occurs(b, a):
        s[b] = a
    elif a[0] == 'neg' and b[0] == 'neg':
        unify(a[1], b[1], s, rest)
    else:
        # one leaf of a sum or product can be solved for
        for x, y in ((a, b), (b, a)):
            r = isolate(x, y)
            if r is not None:
                s[r[0]] = r[1]
                return
        rest.append((a, b))
        if a[0] != 'c' and not occurs(a, b):
            s[a] = b
        elif b[0] != 'c' and not occurs(b, a):
            s[b] = a


def isolate(x, y):
    """leaf, term with x = y <=> leaf = term (over the reals)"""
    for _ in range(8):
        if x[0] == 'v':
            return None if occurs(x, y) else (x, y)
        if x[0] == 'neg':
            x, y = x[1], ('neg', y)
        elif x[0] == 'add':
            i = 1 if any(q[0] == 'v' for q in subterms(x[1])) else 2
            x, y = x[i], ('sub', y, x[3 - i])
        elif x[0] == 'sub':
            if any(q[0] == 'v' for q in subterms(x[1])):
                x, y = x[1], ('add', y, x[2])
            else:
                x, y = x[2], ('sub', x[1], y)
        else:
            return None
    return None


# ------------------------------------------------------------ IEEE
COMM = ('add', 'mul')


def norm_ieee(t):
    k = t[0]
    if k in ('c', 'v'):
        if k == 'c' and bits2f(t[1]) != bits2f(t[1]):
            return ('c', f2bits(math.nan))
        return t
    if k == 'fn':
        return t[:2] + tuple(norm_ieee(x) if isinstance(x, tuple) else x for x in t[2:])
    a = [norm_ieee(x) for x in t[1:]]
    if k == 'neg':
        if a[0][0] == 'neg':
            return a[0][1]
        if a[0][0] == 'c':
            return ('c', a[0][1] ^ (1 << 63))
        return ('neg', a[0])
    if k == 'sub':
        k = 'add'
        a[1] = norm_ieee(('neg', a[1]))
    one = ('c', f2bits(1.0))
    mz = ('c', f2bits(-0.0))
    if k == 'add':
        if a[0] == mz:
            return a[1]
        if a[1] == mz:
            return a[0]
    sign = False
    if k in ('mul', 'div'):
        for i in (0, 1):
            if a[i][0] == 'neg':
                a[i] = a[i][1]
                sign = not sign
            elif a[i][0] == 'c' and a[i][1] >> 63:
                a[i] = ('c', a[i][1] ^ (1 << 63))
                sign = not sign
        r = None
        if a[1] == one:
            r = a[0]
        elif k == 'mul' and a[0] == one:
            r = a[1]
        if r is not None:
            return norm_ieee(('neg', r)) if sign else r
    if k in COMM:
        a.sort(key=repr)
    r = (k,) + tuple(a)
    return ('neg', r) if sign else r


def hval(*xs):
    """A deterministic stand-in for an unknown function's value."""
    h = hashlib.sha256(repr(xs).encode()).digest()
    return (int.from_bytes(h[:4], 'little') % 20011) / 64.0 - 150.0


def cpow(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        if x < 0 and y == math.floor(y) and y % 2 == 1:
            return -math.inf
        return math.inf
    except ValueError:
        if x == 0 and y < 0:
            if y == math.floor(y) and y % 2 == 1:
                return math.copysign(math.inf, x)
            return math.inf
        return math.nan


def m1(f):
    def g(x):
        try:
            return f(x)
        except (ValueError, OverflowError):
            return math.nan
    return g


def _round(x):
    if x != x or abs(x) == math.inf:
        return x
    r = math.floor(abs(x) + 0.5)
    return math.copysign(float(r), x)


def _fl(f):
    def g(x):
        return x if x != x or abs(x) == math.inf else math.copysign(float(f(x)), x) if f(x) == 0 else float(f(x))
    return g


def _fmin(x, y):
    return y if x != x else x if y != y else min(x, y)


def _fmax(x, y):
    return y if x != x else x if y != y else max(x, y)


FUNS = {'sqrt': m1(math.sqrt), 'exp': m1(math.exp), 'sin': m1(math.sin), 'cos': m1(math.cos), 'tan': m1(math.tan),
        'asin': m1(math.asin), 'acos': m1(math.acos), 'atan': m1(math.atan), 'sinh': m1(math.sinh),
        'cosh': m1(math.cosh), 'tanh': m1(math.tanh), 'asinh': m1(math.asinh), 'acosh': m1(math.acosh),
        'atanh': m1(math.atanh), 'abs': abs, 'floor': _fl(math.floor), 'ceil': _fl(math.ceil),
        'trunc': _fl(math.trunc), 'round': _round, 'log2': m1(math.log2), 'log10': m1(math.log10),
        'ln': m1(math.log), 'cbrt': m1(lambda x: math.copysign(abs(x) ** (1 / 3), x)),
        'signum': lambda x: x if x != x else math.copysign(1.0, x), 'exp2': m1(lambda x: 2.0 ** x),
        'fract': lambda x: math.nan if x != x or abs(x) == math.inf else math.fmod(x, 1.0),
        'powf': cpow, 'powi': cpow, 'atan2': m1(math.atan2) if False else (lambda x, y: math.atan2(x, y)),
        'hypot': lambda x, y: math.hypot(x, y), 'copysign': lambda x, y: math.copysign(x, y),
        'min': _fmin, 'max': _fmax, 'ln_1p': m1(math.log1p), 'exp_m1': m1(math.expm1)}


def ieee(t, val):
    k = t[0]
    if k == 'c':
        return bits2f(t[1])
    if k == 'v':
        return val[t]
    if k == 'fn':
        a = [ieee(x, val) if isinstance(x, tuple) else x for x in t[2:]]
        f = FUNS.get(t[1])
        if f is not None:
            try:
                return f(*a)
            except (ValueError, OverflowError, TypeError):
                return math.nan
        if t[1] == 'mul_add':
            return a[0] * a[1] + a[2]
        return hval(t[1], tuple('nan' if x != x else x for x in a))
    a = [ieee(x, val) for x in t[1:]]
    if k == 'neg':
        return -a[0]
    if k == 'add':
        return a[0] + a[1]
    if k == 'sub':
        return a[0] - a[1]
    if k == 'mul':
        return a[0] * a[1]
    from absint import fdiv, frem
    if k == 'div':
        try:
            return fdiv(*a)
        except OverflowError:
            return math.inf
    if k == 'rem':
        return frem(*a)
    raise ValueError(k)


def same(x, y):
    """Identical doubles (any NaN is the same)."""
    if x != x or y != y:
        return x != x and y != y
    return f2bits(x) == f2bits(y)


# ------------------------------------------------------------ reals
def real(t, val):
    """The real value of a term, every subterm being defined and finite."""
    k = t[0]
    if k == 'c':
        x = bits2f(t[1])
        if x != x or abs(x) == math.inf:
            raise Undefined('constant')
        return Fraction(x)
    if k == 'v':
        return val[t]
    if k == 'fn':
        a = [real(x, val) if isinstance(x, tuple) else x for x in t[2:]]
        if t[1] in ('powf', 'powi'):
            return rpow(a[0], a[1])
        if t[1] == 'abs':
            return abs(a[0])
        if t[1] == 'mul_add':
            return a[0] * a[1] + a[2]
        if t[1] in ('min', 'max'):
            return (min if t[1] == 'min' else max)(a)
        if t[1] == 'fact' and a[0].denominator == 1:
            if a[0] < 0:
                raise Undefined('factorial')
            if a[0] <= 20:
                return Fraction(math.factorial(int(a[0])))
        f = FUNS.get(t[1])
        if f is not None:
            try:
                r = f(*[float(x) for x in a])
            except (OverflowError, ValueError, TypeError):
                raise Undefined(t[1])
            if r != r or abs(r) == math.inf:
                raise Undefined(t[1])
            return Fraction(r)
        return Fraction(hval(t[1], tuple(round(float(x), 9) for x in a)))
    a = [real(x, val) for x in t[1:]]
    if k == 'neg':
        return -a[0]
    if k == 'add':
        return a[0] + a[1]
    if k == 'sub':
        return a[0] - a[1]
    if k == 'mul':
        return a[0] * a[1]
    if k == 'div':
        if a[1] == 0:
            raise Undefined('division by zero')
        return a[0] / a[1]
    if k == 'rem':
        if a[1] == 0:
            raise Undefined('remainder by zero')
        q = abs(a[0]) // abs(a[1])
        r = abs(a[0]) - q * abs(a[1])
        return -r if a[0] < 0 else r
    raise ValueError(k)


def rpow(x, y):
    if x == 0:
        if y <= 0:
            raise Undefined('power of zero')
        return Fraction(0)
    if y.denominator == 1 and abs(y) <= 40:
        return x ** int(y)
    if x < 0 and y.denominator != 1:
        raise Undefined('root of a negative number')
    try:
        r = math.pow(float(x), float(y))
    except (OverflowError, ValueError):
        raise Undefined('power')
    if r != r or abs(r) == math.inf or r == 0:
        raise Undefined('power')
    return Fraction(r)


# polynomials: {monomial: coefficient}; monomial: sorted ((key, exponent), ...)
ONE = {(): Fraction(1)}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = {}
            for x, p in m + n:
                e[x] = e.get(x, 0) + p
            k = tuple(sorted(e.items(), key=repr))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > 400:
        raise OverflowError
    return r


def patom(key):
    return {((key, 1),): Fraction(1)}


def freeze(r):
    n, d = r
    if not n:
        return (0,)
    ms = [dict(m) for m in list(n) + list(d)]
    common = {}
    for x in ms[0]:
        e = min(m.get(x, 0) for m in ms)
        if e:
            common[x] = e

    def red(p):
        out = {}
        for m, c in p.items():
            out[tuple(sorted(((x, e - common.get(x, 0)) for x, e in m if e - common.get(x, 0)), key=repr))] = c
        return out
    n, d = red(n), red(d)
    lead = d[sorted(d, key=repr)[0]]
    n = {m: c / lead for m, c in n.items()}
    d = {m: c / lead for m, c in d.items()}
    if n == d:
        return (1,)
    return (tuple(sorted(n.items(), key=repr)), tuple(sorted(d.items(), key=repr)))


def pconst(r):
    n, d = r
    if not n:
        return Fraction(0)
    if set(n) == {()} and set(d) == {()}:
        return n[()] / d[()]
    f = freeze(r)
    if f == (1,):
        return Fraction(1)
    return None


class Vacuous(Exception):
    """The term is defined for no values of its leaves."""


def norm_real(t):
    """(numerator, denominator) of the rational normal form; valid wherever
    every subterm is defined and finite."""
    k = t[0]
    if k == 'c':
        x = bits2f(t[1])
        if x != x or abs(x) == math.inf:
            raise Vacuous
        return ({(): Fraction(x)} if x else {}), ONE
    if k == 'v':
        return patom(t), ONE
    if k == 'fn':
        a = [norm_real(x) for x in t[2:]]
        cs = [pconst(x) for x in a]
        if t[1] in ('powf', 'powi'):
            b, e = cs
            if e is not None and e == 0:
                return ONE, ONE
            if b is not None and b == 0:
                return {}, ONE
            if b is not None and b == 1:
                return ONE, ONE
            if e is not None and e.denominator == 1 and 1 <= abs(e) <= 6:
                n, d = ONE, ONE
                for _ in range(abs(int(e))):
                    n, d = pmul(n, a[0][0]), pmul(d, a[0][1])
                if e < 0:
                    n, d = d, n
                return n, d
            return patom(('fn', 'pow', freeze(a[0]), freeze(a[1]))), ONE
        if t[1] == 'mul_add':
            return norm_real(('add', ('mul', t[2], t[3]), t[4]))
        return patom(('fn', t[1]) + tuple(freeze(x) for x in a)), ONE
    a = [norm_real(x) for x in t[1:]]
    if k == 'neg':
        return {m: -c for m, c in a[0][0].items()}, a[0][1]
    (n1, d1), (n2, d2) = a
    if k in ('add', 'sub'):
        s = 1 if k == 'add' else -1
        if d1 == d2:
            return padd(n1, n2, s), d1
        return padd(pmul(n1, d2), pmul(n2, d1), s), pmul(d1, d2)
    if k == 'mul':
        return pmul(n1, n2), pmul(d1, d2)
    if k == 'div':
        if not n2:
            raise Vacuous
        return pmul(n1, d2), pmul(d1, n2)
    if k == 'rem':
        if not n2:
            raise Vacuous
        if not n1 or freeze(a[0]) == freeze(a[1]):
            return {}, ONE
        c1, c2 = pconst(a[0]), pconst(a[1])
        f2 = freeze(a[1])
        return patom(('fn', 'rem', freeze(a[0]), f2)), ONE
    raise ValueError(k)


# ------------------------------------------------------------ refutation
GEN = [2.5, -3.0, 0.5, 7.0, 1.0, -1.0, 0.0, 4.0, -0.75, 11.25, 3.0, 2.0, 5.0]
SPEC = [-0.0, math.inf, -math.inf, math.nan, 1e308, -1e308, 5e-324, 0.1, 1e16, 9007199254740993.0]


def holds(ip, val, ev):
    """Do the float facts of the path hold under the valuation?"""
    for base, preds in ip.facts.fl.items():
        try:
            x = ev(base)
        except KeyError:
            continue
        for p, tr in preds:
            if ip.fholds(p, x) != tr:
                return False
    for (a, b), rel in ip.facts.frel.items():
        try:
            x, y = ev(a), ev(b)
        except KeyError:
            continue
        if frel(x, y) not in rel:
            return False
    return True


def valuations(ip, terms, s, n=300, special=True, seed=1):
    """Assignments to the leaves of terms (and of the facts) that satisfy the facts."""
    lv = set()
    for t in terms:
        leaves(t, lv)
    for base in list(ip.facts.fl):
        leaves(subst(base, s), lv)
    for a, b in ip.facts.frel:
        leaves(subst(a, s), lv)
        leaves(subst(b, s), lv)
    for k, v in s.items():
        leaves(subst(v, s), lv)
    lv -= set(s)
    lv = sorted(lv, key=repr)
    rng = random.Random(seed)
    dom = {}
    for l in lv:
        if ip.facts.fl.get(l):
            c = ip.cands(l)
            dom[l] = c if special else [x for x in c if x == x and abs(x) != math.inf]
        else:
            dom[l] = None
    eqs = [(a, b) for (a, b), rel in ip.facts.frel.items() if rel <= {'eq'}]
    bad = 0
    out = 0
    while out < n and bad < 6 * n:
        val = {}
        for l in lv:
            d = dom[l]
            if d is not None:
                if not d:
                    return
                val[l] = rng.choice(d)
            else:
                r = rng.random()
                if special and r < 0.3:
                    val[l] = rng.choice(SPEC)
                elif r < 0.8:
                    val[l] = rng.choice(GEN)
                else:
                    val[l] = round(rng.uniform(-20, 20), 3)
        for a, b in eqs:
            if a in val and b in val:
                val[b] = val[a]
        full = dict(val)

        def ev(t):
            return ieee(subst(t, s), full)
        try:
            ok = holds(ip, full, ev)
        except KeyError:
            ok = False
        if ok:
            out += 1
            yield full
        else:
            bad += 1


def show_val(val):
    from absint import tstr
    return ', '.join('%s = %r' % (tstr(k[1]), v) for k, v in sorted(val.items(), key=repr)[:6])


def cmp_ieee(ip, a, b, s=None, special=True, n=300, deq=None):
    """('eq',), ('ne', valuation) or ('?',) for exact equality"""
    s = s or {}
    a, b = subst(a, s), subst(b, s)
    na, nb = norm_ieee(a), norm_ieee(b)
    if na == nb:
        return ('eq',)
    for val in valuations(ip, (a, b), s, n, special):
        x, y = ieee(a, val), ieee(b, val)
        if not same(x, y):
            if deq and deq(x, y):
                continue
            return ('ne', '%s gives %r instead of %r' % (show_val(val), x, y))
    # constants pinned by the facts
    pin = pins(ip, s)
    if pin:
        if norm_ieee(subst(a, {**s, **pin})) == norm_ieee(subst(b, {**s, **pin})):
            return ('eq',)
    return ('?',)


def pins(ip, s, real=False):
    """Leaves the facts force to one constant."""
    out = {}
    for base, preds in ip.facts.fl.items():
        if base[0] != 'v' or base in s:
            continue
        for p, tr in preds:
            if p[0] == 'cmp' and tr and p[3] == frozenset(('eq',)) and p[2] == p[2] and abs(p[2]) != math.inf:
                chain = [c for c in p[1]]
                if not chain or (set(chain) <= {'neg', 'abs'} and p[2] == 0):
                    if p[2] != 0 or real:
                        out[base] = ('c', f2bits(p[2]))
                elif chain == ['neg']:
                    out[base] = ('c', f2bits(-p[2]))
    return out


def pin_terms(ip, s):
    """Equations base = constant from the facts, for any base term (reals)."""
    out = []
    for base, preds in ip.facts.fl.items():
        for p, tr in preds:
            if p[0] == 'cmp' and tr and p[3] == frozenset(('eq',)) and p[2] == p[2] and abs(p[2]) != math.inf:
                if not p[1] or (set(p[1]) <= {'neg', 'abs'} and p[2] == 0):
                    out.append((base, ('c', f2bits(p[2]))))
    for (a, b), rel in ip.facts.frel.items():
        if rel <= {'eq'}:
            out.append((a, b))
    return out


def cmp_real(ip, orig, res, s=None, n=250, seed=1):
    """Equality as reals wherever orig and its subterms are defined."""
    try:
        return cmp_real0(ip, orig, res, s, n, seed)
    except (KeyError, RecursionError):
        return ('?',)


def cmp_real0(ip, orig, res, s, n, seed):
    s = dict(s or {})
    rest = []
    for a, b in pin_terms(ip, s):
        unify(a, b, s, rest)
    a, b = subst(orig, s), subst(res, s)
    try:
        na = norm_real(a)
    except Vacuous:
        return ('eq', 'undefined')
    except OverflowError:
        na = None
    if na is not None:
        try:
            nb = norm_real(b)
            if freeze(na) == freeze(nb):
                return ('eq',)
            l, r = pmul(na[0], nb[1]), pmul(nb[0], na[1])
            if l == r:
                return ('eq',)
        except Vacuous:
            pass
        except OverflowError:
            pass
    defined = 0
    for val in valuations(ip, (a, b), s, n, special=False, seed=seed):
        try:
            fv = {k: Fraction(v) for k, v in val.items()}
        except (ValueError, OverflowError):
            continue
        skip = False
        for x, y in rest:
            try:
                if abs(real(x, fv) - real(y, fv)) > Fraction(1, 10 ** 9):
                    skip = True
            except (Undefined, ZeroDivisionError, OverflowError):
                skip = True
        if skip:
            continue
        try:
            for x in s.values():
                real(subst(x, s), fv)
            x = real(a, fv)
        except (Undefined, ZeroDivisionError, OverflowError):
            continue
        defined += 1
        try:
            y = real(b, fv)
        except (Undefined, ZeroDivisionError, OverflowError):
            # the result is not defined (e.g. a constant infinity)
            return ('ne', '%s: the original is %s, the result undefined' % (show_val(val), float(x)))
        tol = Fraction(1, 10 ** 7) * max(1, abs(x), abs(y))
        if abs(x - y) > tol:
            return ('ne', '%s: %s instead of %s' % (show_val(val), float(y), float(x)))
    return ('?', defined)
