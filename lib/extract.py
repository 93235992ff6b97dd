"""Extraction: runs the rustc driver over the code under /repo and loads the typed MIR dump.

Every run copies the working tree of /repo (sources only) into a scratch directory of
/verif/.cache, compiles it there with `cargo +nightly check` under the driver in
/verif/driver, and reads back resolved, monomorphic MIR.  Nothing is written in /repo and
nothing compiled is executed."""
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RTF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
DRIVER_SRC = os.path.join(VERIF, 'driver', 'main.rs')

sys.path.insert(0, os.path.join(VERIF, 'engine'))


class ExtractError(Exception):
    pass


def env_base():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '')
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        r = run(['rustc', '+nightly', '--print', 'sysroot'], env=env_base())
        if r.returncode:
            raise ExtractError('no nightly toolchain: ' + r.stderr)
        _sysroot = r.stdout.strip()
    return _sysroot


def driver():
    src = open(DRIVER_SRC, 'rb').read()
    h = hashlib.sha256(src + sysroot().encode()).hexdigest()[:16]
    d = os.path.join(CACHE, 'driver')
    exe = os.path.join(d, 'drv-' + h)
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        tmp = exe + '.tmp%d' % os.getpid()
        r = run(['rustc', '+nightly', '--edition', '2021', '-O', DRIVER_SRC, '-o', tmp], env=env_base())
        if r.returncode:
            raise ExtractError('driver does not build:\n' + r.stderr[-4000:])
        os.rename(tmp, exe)
    return exe


def copy_sources(dst):
    """working tree of REPO without build output and git data"""
    def ign(d, names):
        out = set(n for n in names if n in ('.git', 'target'))
        if os.path.abspath(d) == os.path.abspath(REPO):
            out |= set(n for n in names if n in ('doc', 'scripts'))
        return out
    shutil.copytree(REPO, dst, ignore=ign, symlinks=True)
    if not os.path.exists(os.path.join(dst, 'Cargo.lock')):
        shutil.copy(os.path.join(VERIF, 'data', 'Cargo.lock.fallback'), os.path.join(dst, 'Cargo.lock'))


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target', 'doc', 'scripts'))
        for f in sorted(files):
            p = os.path.join(base, f)
            if os.path.islink(p):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b'\0')
            h.update(open(p, 'rb').read())
    h.update(open(DRIVER_SRC, 'rb').read())
    return h.hexdigest()[:20]


def extract(what='lib'):
    """what: 'lib' | 'example:vm' | 'bin:rtf'. Returns path of JSON dump in a scratch dir."""
    exe = driver()
    keep = None
    if os.environ.get('RTF_DEV_CACHE'):     # development only: keep dumps by content hash
        keep = os.path.join(os.environ['RTF_DEV_CACHE'], tree_hash() + '-' + what.replace(':', '_') + '.json')
        if os.path.exists(keep):
            return keep
    work = os.path.join(CACHE, 'work-%d-%s' % (os.getpid(), what.replace(':', '_')))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    src = os.path.join(work, 'src')
    copy_sources(src)
    dump = os.path.join(work, 'dump')
    os.makedirs(dump)
    e = env_base()
    e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib') + ':' + e.get('LD_LIBRARY_PATH', '')
    e['RTF_DUMP_DIR'] = dump
    e['CARGO_TARGET_DIR'] = os.path.join(work, 'target')
    e['RUSTC_WORKSPACE_WRAPPER'] = exe
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_PROFILE_DEV_DEBUG'] = '0'
    cmd = ['cargo', '+nightly', 'check', '--offline', '--manifest-path', os.path.join(src, 'Cargo.toml')]
    if what == 'lib':
        cmd += ['-p', 'rtforth', '--lib']
        want = 'rtforth.lib.json'
    elif what.startswith('example:'):
        cmd += ['--example', what.split(':')[1]]
        want = what.split(':')[1] + '.bin.json'
    elif what.startswith('bin:'):
        n = what.split(':')[1]
        cmd += ['-p', n, '--bins']
        want = n + '.bin.json'
    else:
        raise ExtractError(what)
    r = run(cmd, env=e, cwd=src)
    if r.returncode:
        raise ExtractError('cargo check failed:\n' + r.stderr[-4000:])
    p = os.path.join(dump, want)
    if not os.path.exists(p):
        raise ExtractError('driver produced no dump; have %s' % os.listdir(dump))
    out = os.path.join(work, want)
    os.rename(p, out)
    shutil.rmtree(os.path.join(work, 'target'), ignore_errors=True)
    if keep:
        os.makedirs(os.path.dirname(keep), exist_ok=True)
        shutil.copy(out, keep)
    _work.append(work)
    return out


_work = []


def cleanup():
    for w in _work:
        shutil.rmtree(w, ignore_errors=True)
    del _work[:]


def source_file(rel):
    return open(os.path.join(REPO, rel), encoding='utf-8').read()
