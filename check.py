#!/usr/bin/env python3
"""check.py ID... [--configs N]: decides properties of /repo's current source by static analysis.

Exit 0: every obligation that could be decided holds.  Exit 1 with a line
`VIOLATION property=<id> replay=<path>` otherwise."""
import json
import os
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
sys.setrecursionlimit(20000)
import dump as D                                    # noqa: E402
from registry import PROPS, engine                  # noqa: E402
from report import Report                           # noqa: E402


LIMIT = 560     # seconds after which explorations give up (what is left is undecided)


def one(job):
    """One engine on one configuration; all its reports."""
    eng, cname, path, tier, want, end = job
    sys.setrecursionlimit(20000)
    import absint
    absint.DEADLINE[0] = max(end, time.time() + 20)
    from tree import Anchor
    t = time.time()
    try:
        reps = engine(eng)(path, cname, tier, want)
        return eng, cname, [r for r in reps if r.prop in want], None, time.time() - t
    except Anchor as e:
        return eng, cname, [], 'anchor: %s' % e, time.time() - t
    except Exception:
        return eng, cname, [], traceback.format_exc()[-1500:], time.time() - t


def load_known():
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def main():
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--thorough' in sys.argv:
        tier = 'thorough'
    props = sorted(PROPS) if args == ['all'] else args
    known = load_known()
    paths, broken = {}, {}
    kinds = sorted({k for p in props for k in PROPS[p]['dumps']})
    for k in kinds:
        cfgs = D.CONFIGS if k == 'lib' else D.CONFIGS[:1]
        try:
            D.build_driver()
            D.build_deps()
        except D.BuildError as e:
            broken[(k, 'tools')] = str(e)
            continue
        with ProcessPoolExecutor(8) as ex:
            fs = {c: ex.submit(D.dump, c, k) for c in cfgs}
            for c, f in fs.items():
                try:
                    paths[(k, D.config_name(c))] = f.result()
                except D.BuildError as e:
                    broken[(k, D.config_name(c))] = str(e)
    jobs = []
    for eng in sorted({e for p in props for e in PROPS[p]['engines']}):
        want = [p for p in props if eng in PROPS[p]['engines']]
        kind = getattr(engine(eng), 'dump', 'lib')
        if getattr(engine(eng), 'whole', False):
            jobs.append((eng, 'all', {c: p for (k, c), p in paths.items() if k == kind}, tier, want, t0 + LIMIT))
        else:
            jobs += [(eng, c, p, tier, want, t0 + LIMIT) for (k, c), p in sorted(paths.items()) if k == kind]
    results = []
    if jobs:
        with ProcessPoolExecutor(min(8, len(jobs))) as ex:
            results = list(ex.map(one, jobs))
    rc = 0
    for p in props:
        rc |= report(p, results, broken, tier, seed, known, t0)
    D.prune()
    return rc


def unpair(eng, cname, r, results):
    """`pair:` violations are differences between the builds with and without optimisation: those both show go."""
    if not any(k.startswith('pair:') for k, _ in r.violations):
        return
    twin = cname[:-4] if cname.endswith(',opt') else cname + ',opt'
    other = [q for e, c, reps, err, _ in results if e == eng and c == twin and not err for q in reps if q.prop == r.prop]
    keys = None
    if other and not any(q.unknowns for q in other) and not r.unknowns:
        keys = {k for q in other for k, _ in getattr(q, 'raw', q.violations)}
    r.raw = list(r.violations)
    r.violations[:] = [(k, t) for k, t in r.violations if not k.startswith('pair:') or keys is not None and k not in keys]


def report(p, results, broken, tier, seed, known, t0):
    info = PROPS[p]
    total = Report(p)
    configs, errors, per = [], [], {}
    for eng, cname, reps, err, secs in results:
        if eng not in info['engines']:
            continue
        if err:
            errors.append('%s [%s]: %s' % (eng, cname, err))
        got = [r for r in reps if r.prop == p]
        for r in got:
            unpair(eng, cname, r, results)
        if not got:
            continue
        configs.append(cname)
        for r in got:
            per['%s [%s]' % (eng, cname)] = '%d obligations, %d discharged, %d abstract paths, %.1f s' % (
                r.obligations, r.discharged, r.paths, secs)
            for lst in (r.violations, r.unknowns):
                for i, (k, t) in enumerate(lst):
                    lst[i] = (k, '[%s] %s' % (cname, t))
            total.merge(r)
    for (k, c), e in broken.items():
        if k in info['dumps']:
            errors.append('build %s: %s' % (c, e))
    floor = info.get('floor', 1)
    vacuous = total.obligations < floor
    if vacuous:
        # nothing may be concluded from an analysis that lost its anchors: said loudly, but it is not a violation
        total.unknown('vacuous', 'the analysis found %d obligations, fewer than the %d it must find: %s'
                      % (total.obligations - 0, floor, ' / '.join(errors)[-1800:]))
    accepted = {f['key']: f for f in known['findings'] if f['property'] == p}
    fresh = []
    for k, t in total.violations:
        if k in accepted:
            print('KNOWN-FINDING: property=%s %s' % (p, accepted[k]['what']))
        else:
            fresh.append((k, t))
    for k, t in total.unknowns[:6]:
        print('UNDECIDED: property=%s %s | %s' % (p, k, ' '.join(t[:400].split())))
    for e in errors[:4]:
        print('UNDECIDED: property=%s %s' % (p, ' '.join(e[-700:].split())))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = dict(obligations=total.obligations, discharged=total.discharged,
               undecided=len(total.unknowns), abstract_paths=total.paths,
               functions_analysed=sorted(total.functions), configurations=sorted(set(configs)),
               per_engine=per, rule=info['rule'], samples=total.samples,
               checker_cmd='python3 check.py ' + p, trusted_base=info['trusted'],
               explanation=info['explain'], exhaustive=not total.unknowns and not errors,
               undecided_obligations=[k for k, _ in total.unknowns][:50], errors=errors[:8],
               notes=total.notes[:40])
    ev = dict(property=p, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed,
              level=info['level'], coverage=cov, assumptions=info['assume'],
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(HERE, 'evidence', p + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if fresh:
        d = os.path.join(HERE, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, p + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s: %s\n\n' % (p, info['rule']))
            for k, t in fresh:
                f.write('key: %s\n%s\n\n' % (k, t))
        for k, t in fresh[:8]:
            print('  %s | %s' % (k, t[:700]))
        print('VIOLATION property=%s replay=%s' % (p, rp))
        return 1
    print('OK property=%s obligations=%d discharged=%d undecided=%d paths=%d configs=%d (%.1f s)' % (
        p, total.obligations, total.discharged, len(total.unknowns), total.paths, len(set(configs)),
        time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
