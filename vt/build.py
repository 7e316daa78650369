"""Build the MIR driver and produce the MIR dumps of /repo's current tree."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
CACHE = os.environ.get('VT_CACHE', os.path.join(HERE, '.cache'))
DRIVER = os.path.join(HERE, 'driver', 'target', 'release', 'mirdump')


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def sources(repo=None):
    """Every file of the repository that decides what is compiled."""
    repo = repo or REPO
    out = []
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git'))
        for f in sorted(files):
            if f.endswith(('.rs', '.toml', '.lock')) or f in ('rust-toolchain',):
                out.append(os.path.join(root, f))
    return out


def tree_key(repo=None):
    h = hashlib.sha256()
    for p in sources(repo):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    for d in ('driver', 'probe'):
        for root, dirs, files in os.walk(os.path.join(HERE, d)):
            dirs[:] = sorted(x for x in dirs if x != 'target')
            for f in sorted(files):
                if f.endswith(('.rs', '.toml', '.lock')):
                    with open(os.path.join(root, f), 'rb') as fh:
                        h.update(f.encode() + b'\0' + fh.read() + b'\0')
    return h.hexdigest()[:24]


def build_driver():
    src = os.path.join(HERE, 'driver', 'src', 'main.rs')
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
        return
    rc, out = run(['cargo', '+nightly', 'build', '--release', '--offline'], os.path.join(HERE, 'driver'))
    if rc:
        raise BuildError('the MIR driver does not build:\n' + out[-4000:])


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out = run(['rustc', '+nightly', '--print', 'sysroot'], '/')
        if rc:
            raise BuildError(out)
        _sysroot = out.strip().splitlines()[-1]
    return _sysroot


def prune(cwd, args, env):
    """take out the entry points of the probe crate that the tree at hand has no use for any more (an
    operation was renamed, or has another signature): what they reach is then not analysed, the rest is"""
    e = dict(env)
    e.pop('RUSTC_WORKSPACE_WRAPPER')
    e['CARGO_TARGET_DIR'] = os.path.join(cwd, 'target')
    rc, out = run(['cargo', '+nightly', 'check', '--offline', '--message-format=json'] + args, cwd, e)
    bad = {}
    for l in out.splitlines():
        if not l.startswith('{'):
            continue
        try:
            m = json.loads(l)
        except ValueError:
            continue
        m = m.get('message') or {}
        if not isinstance(m, dict) or m.get('level') != 'error':
            continue
        for sp in m.get('spans', ()):
            if not sp.get('is_primary'):
                continue
            while sp:
                f = os.path.join(cwd, sp['file_name'])
                if os.path.dirname(os.path.abspath(f)) == os.path.join(cwd, 'src'):
                    bad.setdefault(f, set()).add(sp['line_start'])
                sp = (sp.get('expansion') or {}).get('span')
    done = False
    for f, lines in bad.items():
        with open(f) as fh:
            src = fh.read().split('\n')
        for ln in lines:
            i = ln - 1
            while i > 0 and (not src[i] or src[i][0] in ' })'):
                i -= 1
            if src[i].startswith(('macro_rules!', '//', 'pub mod', 'fn enc', 'pub trait', 'impl')):
                continue                # the uses of the macro go
            j = i
            if not src[i].rstrip().endswith((';', '}')):
                while j + 1 < len(src) and not src[j + 1].startswith('}'):
                    j += 1
                j += 1
            for k in range(i, min(j + 1, len(src))):
                if src[k]:
                    done = True
                src[k] = ''
        with open(f, 'w') as fh:
            fh.write('\n'.join(src))
    return done


TARGETS = {
    # name: (directory, crates to dump, package arguments, file)
    'probe': (None, 'vprobe', ['-p', 'vprobe', '--lib'], 'vprobe.json'),
    'bin': ('repo', 'at_asm:bin', ['-p', 'at-asm', '--bin', 'at-asm'], 'at_asm-bin.json'),
}


def dump(which):
    """Path of the MIR dump `which` for the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)       # checks may be run side by side
        return build(which)


def build(which):
    build_driver()
    where, crates, args, fname = TARGETS[which]
    d = os.path.join(CACHE, tree_key())
    path = os.path.join(d, fname)
    if os.path.exists(path):
        return path
    if os.path.isdir(CACHE):            # one tree at a time
        for old in os.listdir(CACHE):
            if old not in ('tgt', 'lock') and old != os.path.basename(d):
                shutil.rmtree(os.path.join(CACHE, old), ignore_errors=True)
    tmp = d + '.tmp%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(d, exist_ok=True)
    tgt = os.path.join(CACHE, 'tgt')
    env = {
        'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib'),
        'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow',
        'MIRDUMP_CRATES': crates,
        'MIRDUMP_OUT': tmp,
        'MIRDUMP_KEY': os.path.basename(d),
        'RUSTC_WORKSPACE_WRAPPER': DRIVER,
        'CARGO_TARGET_DIR': tgt,
        'CARGO_INCREMENTAL': '0',
    }
    cwd = REPO
    if where is None:
        cwd = os.path.join(tmp, 'probe')
        shutil.copytree(os.path.join(HERE, 'probe'), cwd, ignore=shutil.ignore_patterns('target'))
        toml = os.path.join(cwd, 'Cargo.toml')
        with open(toml) as f:
            t = f.read()
        with open(toml, 'w') as f:
            f.write(t.replace('../../repo', REPO))
    try:
        # a unit that cargo thinks is fresh is not compiled and so not dumped
        shutil.rmtree(os.path.join(tgt, 'debug', '.fingerprint'), ignore_errors=True)
        bd = os.path.join(tgt, 'debug', 'build')
        for x in os.listdir(bd) if os.path.isdir(bd) else ():
            if x.startswith(('at-', 'at_', 'vprobe')):
                shutil.rmtree(os.path.join(bd, x), ignore_errors=True)
        got = os.path.join(tmp, fname)
        for _ in range(8):
            rc, out = run(['cargo', '+nightly', 'check', '--offline'] + args, cwd, env)
            if not rc or where is not None or not prune(cwd, args, env):
                break
        if rc or not os.path.exists(got):
            raise BuildError('%s does not compile or was not dumped:\n%s' % (which, out[-6000:]))
        os.replace(got, path)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return path


if __name__ == '__main__':
    for w in sys.argv[1:] or TARGETS:
        print(dump(w))
