"""Build the MIR dumper, dump the shims and the current tree of the analysed crate."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PPOC_REPO', '/repo')
CRATE = 'parse_proof_of_concept'
FLAGS = '-Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums'


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s failed in %s:\n%s' % (' '.join(cmd), cwd, p.stdout[-4000:]))
    return p.stdout


def digest(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for f in sorted(glob.glob(d + '/**/*', recursive=True)):
            if os.path.isfile(f) and '/target/' not in f:
                h.update(f.encode() + b'\0' + open(f, 'rb').read())
    return h.hexdigest()[:16]


def sysroot():
    return run(['rustc', '+nightly', '--print', 'sysroot'], '/').strip()


def tools():
    """(mirdump binary, shims dump), built if they are missing or out of date"""
    b = os.path.join(VERIF, '.build')
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = digest(VERIF + '/driver/src', VERIF + '/shims/src') + '-' + hashlib.sha256(sysroot().encode()).hexdigest()[:8]
        d = os.path.join(b, h)
        exe, shims = d + '/mirdump', d + '/shims.json'
        if os.path.exists(exe) and os.path.exists(shims):
            return exe, shims
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix='ppoc-build-')
        try:
            run(['cargo', '+nightly', 'build', '--offline', '--target-dir', t], VERIF + '/driver')
            shutil.copy(t + '/debug/mirdump', exe + '.tmp')
            os.rename(exe + '.tmp', exe)
            dump(exe, VERIF + '/shims', 'shims', t)
            shutil.copy(t + '/shims.json', shims + '.tmp')
            os.rename(shims + '.tmp', shims)
        finally:
            shutil.rmtree(t, ignore_errors=True)
        return exe, shims


def env_for(exe):
    e = dict(os.environ)
    e.pop('RUSTC_WRAPPER', None)
    e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    e['CARGO_INCREMENTAL'] = '0'
    return e


def dump(exe, src, crate, out, flags=FLAGS):
    """type-check the crate with the dumping compiler"""
    t = tempfile.mkdtemp(prefix='ppoc-target-')
    try:
        e = env_for(exe)
        e['MIRDUMP_CRATES'] = crate
        e['MIRDUMP_OUT'] = out
        e['RUSTFLAGS'] = flags
        e['RUSTC_WORKSPACE_WRAPPER'] = exe
        run(['cargo', '+nightly', 'check', '--lib', '--offline', '--target-dir', t], src, e)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    p = '%s/%s.json' % (out, crate)
    if not os.path.exists(p):
        raise BuildError('no dump of ' + crate)
    return p


def dump_repo():
    """dumps of /repo's working tree -> (crate json paths, shims json path, cleanup)

    The second path is there only if the tree means something else without debug assertions."""
    exe, shims = tools()
    out = tempfile.mkdtemp(prefix='ppoc-dump-')
    try:
        p = [dump(exe, REPO, CRATE, out)]
        os.mkdir(out + '/release')
        r = dump(exe, REPO, CRATE, out + '/release', FLAGS + ' -Cdebug-assertions=off -Coverflow-checks=on')
        if open(p[0], 'rb').read() != open(r, 'rb').read():
            p.append(r)
    except BaseException:
        shutil.rmtree(out, ignore_errors=True)
        raise
    return p, shims, lambda: shutil.rmtree(out, ignore_errors=True)


if __name__ == '__main__':
    print(tools())
