#!/usr/bin/env python3
"""tryseed.py [--notests] ID...: confirms planted bugs in a scratch copy and runs the checks against them."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    w = tempfile.mkdtemp(prefix='seedtry-', dir='/tmp')
    copy = w + '/repo'
    try:
        sh('cp -a /repo %s' % copy)
        for f in ('env.sh', 'build.sh', 'test.sh', 'results.py', 'BASELINE.json'):
            s = open('/opt/vp/' + f).read().replace('/repo', copy).replace('/opt/vp', w + '/vp')
            os.makedirs(w + '/vp', exist_ok=True)
            open(w + '/vp/' + f, 'w').write(s)
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        for i in ids:
            d = '/verif/seeded/' + i
            meta = json.load(open(d + '/meta.json'))
            r = sh('git -C %s checkout -q -- . && git -C %s apply %s/patch.diff' % (copy, copy, d))
            if r.returncode:
                print(i, 'PATCH DOES NOT APPLY', r.stdout)
                continue
            out = []
            if '--notests' not in sys.argv:
                r = sh('bash %s/vp/build.sh' % w)
                if r.returncode:
                    print(i, 'DOES NOT BUILD', r.stdout[-1500:])
                    continue
                sh('bash %s/vp/test.sh %s/out.json' % (w, w))
                res = json.load(open(w + '/out.json'))
                lost = base - set(res['passed'])
                out.append('tests ok (%d)' % len(res['passed']) if not lost else 'TESTS FAIL %s' % sorted(lost)[:4])
                r = sh('bash %s/demo.sh' % d, cwd=copy)
                out.append('demo fails with patch (%d)' % r.returncode if r.returncode not in (0, 3, 4) else 'DEMO DOES NOT FAIL %d %s' % (r.returncode, r.stdout[-800:]))
                r = sh('bash %s/demo.sh' % d, cwd='/repo')
                out.append('demo ok' if r.returncode == 0 else 'DEMO FAILS UNPATCHED %s' % r.stdout[-800:])
            p = 'all' if '--all' in sys.argv else meta['property']
            r = sh('XPRS_REPO=%s python3 %s/check.py %s' % (copy, HERE, p))
            v = re.findall(r'^VIOLATION property=(\w+)', r.stdout, re.M)
            out.append('CAUGHT by %s' % ','.join(v) if meta['property'] in v else '*** MISSED *** (%s) rc=%d' % (','.join(v), r.returncode))
            print(i, meta['property'], '; '.join(out), flush=True)
            if '-v' in sys.argv or '--verbose' in sys.argv or meta['property'] not in v:
                print('   ' + '\n   '.join(l[:400] for l in r.stdout.splitlines()[:14]), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


main()
