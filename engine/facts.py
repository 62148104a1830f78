"""Builds the compiler driver and extracts the typed, mono-resolved MIR of /repo's current working tree."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, what=''):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s' % (what or cmd[0], p.stdout[-4000:]))
    return p.stdout


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot'], what='rustc').strip()


def driver():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, 'driver', 'driver.rs')
    ver = sh(['rustc', '+nightly', '-vV'], what='rustc')
    h = hashlib.sha256(open(src, 'rb').read() + ver.encode()).hexdigest()[:16]
    out = os.path.join(CACHE, 'driver-' + h)
    if not os.path.exists(out):
        tmp = '%s.%d' % (out, os.getpid())
        sh(['rustc', '+nightly', '--edition', '2021', src, '-o', tmp], what='building the compiler driver')
        os.replace(tmp, out)
    return out


def extract(config='--all-features'):
    """{facts} of the crate as configured; always re-reads the current sources"""
    d = driver()
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tgt = os.path.join(CACHE, 't')
        for sub in ('debug/build', 'debug/.fingerprint'):
            p = os.path.join(tgt, sub)
            if os.path.isdir(p):
                for n in os.listdir(p):
                    if n.startswith('bytecodec'):
                        shutil.rmtree(os.path.join(p, n), ignore_errors=True)
        fd, out = tempfile.mkstemp(suffix='.json', dir=CACHE)
        os.close(fd)
        env = dict(os.environ)
        env.pop('RUSTFLAGS', None)
        env['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
        env['CARGO_TARGET_DIR'] = tgt
        env['RUSTC_WORKSPACE_WRAPPER'] = d
        env['MIRX_OUT'] = out
        try:
            sh(['cargo', '+nightly', 'check', '--offline', '--lib'] + ([config] if config else []), env=env, cwd=REPO,
               what='type-checking /repo')
            if os.path.getsize(out) == 0:
                raise BuildError('the driver produced no facts')
            return out
        except BaseException:
            os.unlink(out)
            raise


if __name__ == '__main__':
    driver()
    p = extract()
    os.unlink(p)
    print('driver and dependencies built')
