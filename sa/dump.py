"""Builds the MIR driver, type-checks /repo's current source with it and returns the path of the dump.

Everything is built under a scratch directory; a dump is reused only when every input file is unchanged."""
import hashlib, os, shutil, subprocess, sys, fcntl, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))


class DumpError(Exception):
    pass


def inputs():
    fs = []
    for root in (os.path.join(REPO, 'akasa-core'), os.path.join(REPO, 'akasa'), os.path.join(VERIF, 'driver'),
                 os.path.join(VERIF, 'stubs'), os.path.join(VERIF, 'pkg')):
        for d, ds, names in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            fs += [os.path.join(d, n) for n in sorted(names) if n.endswith(('.rs', '.toml', '.lock', '.in'))]
    return fs


def key():
    h = hashlib.sha256()
    for f in inputs():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    return e


def sh(cmd, e, cwd=None):
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def ensure(verbose=False):
    """path of the JSON dump of akasa-core for the current source"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        k = key()
        out = os.path.join(CACHE, 'dump-' + k)
        f = os.path.join(out, 'akasa_core.json')
        if os.path.exists(f):
            return f
        e = env()
        tgt = os.path.join(CACHE, 'target')
        # 1. the driver
        rc, o = sh(['cargo', '+nightly', 'build', '--offline', '--locked', '--target-dir', os.path.join(CACHE, 'driver')], e,
                   os.path.join(VERIF, 'driver'))
        if rc:
            raise DumpError('driver does not build:\n' + o[-3000:])
        drv = os.path.join(CACHE, 'driver', 'debug', 'mirdump')
        # 2. a package around /repo's akasa-core
        pk = os.path.join(CACHE, 'pkg')
        os.makedirs(pk, exist_ok=True)
        t = open(os.path.join(VERIF, 'pkg', 'Cargo.toml.in')).read().replace('@REPO@', REPO).replace('@VERIF@', VERIF)
        with open(os.path.join(pk, 'Cargo.toml'), 'w') as fh:
            fh.write(t)
        shutil.copyfile(os.path.join(VERIF, 'pkg', 'Cargo.lock'), os.path.join(pk, 'Cargo.lock'))
        rc, o = sh(['rustc', '+nightly', '--print', 'sysroot'], e)
        e2 = dict(e)
        e2['LD_LIBRARY_PATH'] = os.path.join(o.strip(), 'lib')
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e2['MIRDUMP_OUT'] = tmp
        e2['RUSTC_WORKSPACE_WRAPPER'] = drv
        # cargo would skip a fresh crate
        for g in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', 'akasa-core-*')):
            shutil.rmtree(g, ignore_errors=True)
        rc, o = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--features', 'http', '--target-dir', tgt], e2, pk)
        g = os.path.join(tmp, 'akasa_core.json')
        if not os.path.exists(g):
            raise DumpError('no dump of akasa-core:\n' + o[-4000:])
        with open(os.path.join(tmp, 'cargo.log'), 'w') as fh:
            fh.write('rc=%d\n' % rc + o)
        for old in glob.glob(os.path.join(CACHE, 'dump-*')):
            if old != tmp and os.environ.get('VERIF_KEEP') is None:
                shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return f


if __name__ == '__main__':
    print(ensure(True))
