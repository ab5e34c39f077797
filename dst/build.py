"""Builds the simulator library, the program under test and the plugin stand-in from the current source tree."""
import os, subprocess, hashlib, shutil, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')          # development only: checks use /repo
BUILD = os.environ.get('DST_BUILD', os.path.join(VERIF, 'build'))
TARGET = os.path.join(BUILD, 'target')
SO = os.path.join(BUILD, 'libsim.so')
BIN = os.path.join(TARGET, 'debug', 'stuart')
PLUGIN = os.path.join(TARGET, 'debug', 'libsimplugin.so')

def _env():
    e = dict(os.environ)
    home = e.get('HOME', '/root')
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:%s/.cargo/bin:/root/.cargo/bin' % home
    e.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='', CARGO_TARGET_DIR=TARGET,
             TZ='UTC', CARGO_ENCODED_RUSTFLAGS='')
    e.pop('LD_PRELOAD', None)
    return e

def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\1')
            continue
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'node_modules'))
            for f in sorted(fs):
                q = os.path.join(d, f)
                if os.path.isfile(q):
                    h.update(os.path.relpath(q, p).encode() + b'\0' + open(q, 'rb').read() + b'\1')
    return h.hexdigest()

def source_hash():
    return _hash([os.path.join(REPO, x) for x in ('stuart', 'stuart-core', 'plugins', 'Cargo.toml', 'Cargo.lock')])

def _run(cmd, cwd, log, must=True):
    with open(log, 'ab') as f:
        f.write(('$ ' + ' '.join(cmd) + '\n').encode())
        f.flush()
        r = subprocess.run(cmd, cwd=cwd, env=_env(), stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if r.returncode and not must:
        return False
    if r.returncode:
        sys.stderr.write(open(log, errors='replace').read()[-6000:])
        raise SystemExit('dst: build failed: %s (log: %s)' % (' '.join(cmd), log))
    return True

def build():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    log = os.path.join(BUILD, 'build.log')
    open(log, 'wb').close()
    sh = _hash([os.path.join(VERIF, 'sim')])
    st = os.path.join(BUILD, 'sim.hash')
    if not (os.path.exists(SO) and os.path.exists(st) and open(st).read() == sh):
        tmp = SO + '.tmp'
        _run(['g++', '-std=c++17', '-O1', '-g', '-fPIC', '-shared', '-w', '-fvisibility=hidden', '-o', tmp,
              os.path.join(VERIF, 'sim', 'sim.cpp'), '-ldl', '-lpthread'], VERIF, log)
        os.rename(tmp, SO)
        open(st, 'w').write(sh)
    h = source_hash() + _hash([os.path.join(VERIF, 'plugin')])
    st = os.path.join(BUILD, 'src.hash')
    old = open(st).read() if os.path.exists(st) else ''
    if old != h or not os.path.exists(BIN) or not os.path.exists(PLUGIN):
        if old:
            os.unlink(st)
            # cargo looks at time stamps; the sources may have changed without a newer one
            _run(['cargo', 'clean', '--offline', '-p', 'stuart', '-p', 'stuart_core', '--target-dir', TARGET], REPO, log)
        _run(['cargo', 'build', '--locked', '--offline', '-p', 'stuart'], REPO, log)
        # the plugin stand-in is a crate of its own with the program's own dependency versions
        pd = os.path.join(BUILD, 'plugin')
        shutil.rmtree(pd, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, 'plugin'), pd)
        t = open(os.path.join(pd, 'Cargo.toml')).read().replace('@REPO@', REPO)
        open(os.path.join(pd, 'Cargo.toml'), 'w').write(t)
        shutil.copy(os.path.join(REPO, 'Cargo.lock'), os.path.join(pd, 'Cargo.lock'))
        if not _run(['cargo', 'build', '--offline'], pd, log, must=False):
            # the plugin interface changed: everything but plugins can still be judged
            sys.stderr.write('dst: the plugin stand-in does not build (log: %s); no plugins will be simulated\n' % log)
            open(PLUGIN, 'wb').close()
        open(st, 'w').write(h)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return dict(so=SO, bin=BIN, plugin=PLUGIN if os.path.getsize(PLUGIN) else None)

if __name__ == '__main__':
    print(build())
