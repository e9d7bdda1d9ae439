"""Builds the MIR dumper and dumps /repo's current source in its eight configurations."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XPRS_REPO', '/repo')
DRIVER = os.path.join(VERIF, 'driver')
CACHE = os.environ.get('XPRS_CACHE', os.path.join(VERIF, 'build'))

CONFIGS = [(ch, prec, opt) for ch in ('stable', 'nightly') for prec in ('pemdas', 'pejmdas')
           for opt in (True, False)]


def config_name(c):
    return '%s,%s%s' % (c[0], c[1], ',opt' if c[2] else '')


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER',
              'RUSTC_WORKSPACE_WRAPPER', 'CARGO_INCREMENTAL'):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             PATH='/root/.cargo/bin:' + e.get('PATH', ''), HOME=e.get('HOME') or '/root')
    return e


def sh(cmd, **kw):
    kw.setdefault('env', env())
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def tree(d, exts=None):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if exts is None or f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


def sysroot():
    r = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if r.returncode:
        raise BuildError('no nightly toolchain: ' + r.stderr)
    return r.stdout.strip()


def atomic_dir(path, build):
    """Builds a directory once; concurrent builders each work in their own temporary one."""
    if os.path.exists(os.path.join(path, 'done')):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='.tmp-', dir=os.path.dirname(path))
    try:
        build(tmp)
        open(os.path.join(tmp, 'done'), 'w').close()
        try:
            os.rename(tmp, path)
        except OSError:
            if not os.path.exists(os.path.join(path, 'done')):
                shutil.rmtree(path, ignore_errors=True)
                os.rename(tmp, path)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return path


def build_driver():
    key = file_hash(tree(os.path.join(DRIVER, 'src')) + [os.path.join(DRIVER, 'Cargo.toml')])

    def build(tmp):
        r = sh(['cargo', '+nightly', 'build', '--offline', '--manifest-path',
                os.path.join(DRIVER, 'Cargo.toml'), '--target-dir', os.path.join(tmp, 't')])
        if r.returncode:
            raise BuildError('driver build failed:\n' + r.stderr[-4000:])
        shutil.copy(os.path.join(tmp, 't', 'debug', 'mirdump'), os.path.join(tmp, 'mirdump'))
        shutil.rmtree(os.path.join(tmp, 't'), ignore_errors=True)
    d = atomic_dir(os.path.join(CACHE, 'driver-' + key), build)
    return os.path.join(d, 'mirdump'), key


def build_deps():
    """The crate's dependencies, as metadata for the nightly compiler."""
    with open(os.path.join(REPO, 'Cargo.toml')) as f:
        t = f.read()
    m = re.search(r'^\[dependencies\]\n(.*?)(?=^\[|\Z)', t, re.S | re.M)
    deps = m.group(1) if m else ''
    lock = os.path.join(REPO, 'Cargo.lock')
    h = hashlib.sha256((deps + open(lock).read()).encode()).hexdigest()[:24]

    def build(tmp):
        os.makedirs(os.path.join(tmp, 'src'))
        with open(os.path.join(tmp, 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "deps"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                    '[dependencies]\n' + deps)
        open(os.path.join(tmp, 'src', 'lib.rs'), 'w').close()
        shutil.copy(lock, tmp)
        r = sh(['cargo', '+nightly', 'check', '--offline', '--message-format=json', '--target-dir',
                os.path.join(tmp, 'target')], cwd=tmp)
        if r.returncode:
            raise BuildError('dependency build failed:\n' + r.stderr[-4000:])
        ext, dirs = {}, set()
        names = [re.split(r'[ =]', l)[0].replace('-', '_') for l in deps.splitlines()
                 if l.strip() and not l.startswith('#')]
        for l in r.stdout.splitlines():
            j = json.loads(l)
            if j.get('reason') != 'compiler-artifact':
                continue
            for fn in j['filenames']:
                rel = os.path.relpath(fn, tmp)
                dirs.add(os.path.dirname(rel))
                if j['target']['name'].replace('-', '_') in names and fn.endswith('.rmeta'):
                    ext[j['target']['name'].replace('-', '_')] = rel
        with open(os.path.join(tmp, 'ext.json'), 'w') as f:
            json.dump({'ext': ext, 'dirs': sorted(dirs)}, f)
    d = atomic_dir(os.path.join(CACHE, 'deps-' + h), build)
    with open(os.path.join(d, 'ext.json')) as f:
        j = json.load(f)
    return ({k: os.path.join(d, v) for k, v in j['ext'].items()},
            [os.path.join(d, x) for x in j['dirs']], h)


def features(c):
    fs = [c[1]]
    if c[2]:
        fs.append('compile-time-optimizations')
    return fs


def source_files():
    return tree(os.path.join(REPO, 'src')) + [os.path.join(REPO, 'Cargo.toml'),
                                              os.path.join(REPO, 'Cargo.lock')]


def common_args(c, dirs, ext):
    a = ['--edition', '2021', '--cap-lints', 'allow', '-Zalways-encode-mir', '-Zmir-opt-level=0',
         '-Coverflow-checks=on', '-Cdebug-assertions=off', '-Cdebuginfo=0', '--check-cfg',
         'cfg(NIGHTLY)']
    for f in features(c):
        a += ['--cfg', 'feature="%s"' % f]
    if c[0] == 'nightly':
        a += ['--cfg', 'NIGHTLY']
    for d in dirs:
        a += ['-L', 'dependency=' + d]
    for k, v in ext.items():
        a += ['--extern', '%s=%s' % (k, v)]
    return a


def dump(c, what='lib', witness='witness.rs'):
    """Path of the JSON dump of configuration c; what is 'lib' or 'repl'."""
    drv, dkey = build_driver()
    ext, dirs, hdeps = build_deps()
    leaves = os.path.join(DRIVER, 'leaves.txt')
    wit = os.path.join(DRIVER, witness)
    thr = os.path.join(DRIVER, 'threads.rs')
    mac = os.path.join(DRIVER, 'macros.rs')
    key = hashlib.sha256(('%s %s %s %s %s' % (dkey, hdeps, file_hash(source_files()),
                                              file_hash([leaves, wit, thr, mac, os.path.abspath(__file__)]), what)).encode()).hexdigest()[:24]
    name = config_name(c).replace(',', '-')

    def build(tmp):
        e = env()
        e.update(LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'), MIRDUMP_LEAVES=leaves,
                 RUSTC_BOOTSTRAP='1', RUSTC_ICE='0', CARGO_PKG_VERSION='0.0.0', CARGO_MANIFEST_DIR=REPO,
                 CARGO_PKG_NAME='xprs')
        lib = os.path.join(REPO, 'src', 'lib.rs')
        out = os.path.join(tmp, 'dump.json')
        base = common_args(c, dirs, ext)
        sysr = ['--sysroot', sysroot()]
        if what == 'lib':
            e.update(MIRDUMP_OUT=out, MIRDUMP_ROOT=lib, MIRDUMP_LOCAL='xprs')
            cmd = [drv] + sysr + ['--crate-name', 'xprs', '--crate-type', 'lib', lib, '--emit',
                                  'metadata', '-o', os.path.join(tmp, 'libxprs.rmeta')] + base
            text, errs = {k: open(p).read() for k, p in (('witness', wit), ('threads', thr), ('macros', mac))}, {}
            # the witnesses use the public interface: one that no longer compiles is left out, and says so
            full = ('witness', 'threads', 'macros')

            def with_parts(parts):
                with open(os.path.join(tmp, 'w.rs'), 'w') as g:
                    g.write(''.join(text[k] for k in parts))
                e['MIRDUMP_WITNESS'] = os.path.join(tmp, 'w.rs')
                return subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                      cwd=tmp)
            parts = full
            r = with_parts(full)
            if r.returncode:
                good = []
                for k in full:
                    r = with_parts((k,))
                    if r.returncode:
                        errs[k] = r.stdout[-20000:]
                    else:
                        good.append(k)
                parts = tuple(good)
                r = with_parts(parts)
            if r.returncode:
                raise BuildError('%s does not build:\n%s' % (config_name(c), r.stdout[-6000:]))
            with open(out) as g:
                j = json.load(g)
            j['witness'] = {'in': list(parts), 'errors': errs}
            with open(out, 'w') as g:
                json.dump(j, g, separators=(',', ':'))
        else:
            meta = os.path.join(tmp, 'libxprs.rmeta')
            cmd = [drv] + sysr + ['--crate-name', 'xprs', '--crate-type', 'lib', lib, '--emit',
                                  'metadata', '-o', meta] + base
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               cwd=tmp)
            if r.returncode:
                raise BuildError('%s does not build:\n%s' % (config_name(c), r.stdout[-6000:]))
            e.update(MIRDUMP_OUT=out, MIRDUMP_LOCAL='repl')
            cmd = [drv] + sysr + ['--crate-name', 'repl', '--crate-type', 'bin',
                                  os.path.join(REPO, 'src', 'bin', 'repl.rs'), '--emit', 'metadata',
                                  '-o', os.path.join(tmp, 'repl.rmeta'), '--extern', 'xprs=' + meta] + base
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               cwd=tmp)
            if r.returncode:
                raise BuildError('repl (%s) does not build:\n%s' % (config_name(c), r.stdout[-6000:]))
        if not os.path.exists(out):
            raise BuildError('no dump for %s:\n%s' % (config_name(c), r.stdout[-3000:]))
        for f in os.listdir(tmp):
            if f != 'dump.json':
                os.remove(os.path.join(tmp, f))
    d = atomic_dir(os.path.join(CACHE, 'dump-%s-%s-%s' % (what, name, key)), build)
    return os.path.join(d, 'dump.json')


def dump_all(configs=None, what='lib'):
    configs = configs or CONFIGS
    build_driver()
    build_deps()
    with ThreadPoolExecutor(8) as ex:
        return dict(zip(configs, ex.map(lambda c: dump(c, what), configs)))


def prune():
    """Keeps the cache small: only the newest dumps stay."""
    try:
        ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith('dump-')]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-96]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


if __name__ == '__main__':
    for c, p in dump_all().items():
        print(config_name(c), p, os.path.getsize(p))
    if len(sys.argv) > 1:
        print(dump(CONFIGS[0], 'repl'))
