"""Builds the check binary against /repo's working tree in many configurations, each with a target directory of its own."""
import fcntl, glob, hashlib, os, shutil, subprocess, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TARGET = os.path.join(ROOT, 'target')
STABLE = 'stable-x86_64-unknown-linux-gnu'
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'
X86 = 'x86_64-unknown-linux-gnu'


class Inconclusive(Exception):
    pass


def clean_env():
    e = {}
    for k, v in os.environ.items():
        if k.startswith(('CARGO_', 'RUST', 'MATMUL_', 'MMTEST_', 'MIRI', 'ASAN_', 'TSAN_', 'MM_')) and k not in ('CARGO_HOME', 'RUSTUP_HOME'):
            continue
        e[k] = v
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    e['RUST_BACKTRACE'] = '0'
    return e


def tree_hash(base, rel):
    h = hashlib.sha256()
    for r in rel:
        p = os.path.join(base, r)
        if os.path.isdir(p):
            for d, dn, fn in os.walk(p):
                dn.sort()
                dn[:] = [x for x in dn if x not in ('target', '.git')]
                for f in sorted(fn):
                    q = os.path.join(d, f)
                    h.update(os.path.relpath(q, base).encode() + b'\0')
                    with open(q, 'rb') as fh:
                        h.update(fh.read())
        elif os.path.exists(p):
            h.update(r.encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


_hashes = {}


def repo_hash():
    if 'r' not in _hashes:
        _hashes['r'] = tree_hash(REPO, ['src', 'build.rs', 'Cargo.toml'])
    return _hashes['r']


def harness_hash():
    if 'h' not in _hashes:
        _hashes['h'] = tree_hash(ROOT, ['harness/core/src', 'harness/core/Cargo.toml', 'harness/bin/src', 'harness/bin/Cargo.toml', 'harness/bin/Cargo.lock'])
    return _hashes['h']


class Cfg:
    def __init__(self, name, features='threading,cgemm,std', profile='release', env=None, toolchain=STABLE, target=None,
                 rustflags='', extra=(), miri=False, blk='', note=''):
        self.name = name
        self.features = features
        self.profile = profile
        self.env = dict(env or {})
        self.toolchain = toolchain
        self.target = target
        self.rustflags = rustflags
        self.extra = list(extra)
        self.miri = miri
        self.blk = blk
        self.note = note
        self.threading = 'threading' in features

    @property
    def dir(self):
        return os.path.join(TARGET, self.name)

    @property
    def bin(self):
        p = self.dir
        if self.target:
            p = os.path.join(p, self.target)
        return os.path.join(p, self.profile, 'mmcheck')

    def stamp(self):
        s = '|'.join([repo_hash(), harness_hash(), self.features, self.profile, repr(sorted(self.env.items())), self.toolchain, str(self.target), self.rustflags, repr(self.extra)])
        return hashlib.sha256(s.encode()).hexdigest()

    def cargo_env(self):
        e = clean_env()
        e['RUSTUP_TOOLCHAIN'] = self.toolchain
        e.update(self.env)
        if self.rustflags:
            e['RUSTFLAGS'] = self.rustflags
        if self.miri:
            e['MIRI_SYSROOT'] = miri_sysroot_dir(self.target)
            e['CARGO_TARGET_DIR'] = self.dir
        return e

    def cargo_args(self):
        a = ['--offline', '--no-default-features', '--features', self.features]
        if not self.miri:
            a += ['--target-dir', self.dir]
        if self.target:
            a += ['--target', self.target]
        if self.profile == 'release':
            a += ['--release']
        elif self.profile != 'debug':
            a += ['--profile', self.profile]
        return a + self.extra


def miri_sysroot_dir(target):
    return os.path.join(TARGET, 'miri-sysroot', target)


def run_cargo(cmd, env, timeout=800):
    try:
        p = subprocess.run(cmd, cwd=os.path.join(ROOT, 'harness/bin'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise Inconclusive('build timed out: ' + ' '.join(cmd))
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def lock(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    f = open(path, 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def ensure_miri_sysroot(target):
    d = miri_sysroot_dir(target)
    with lock(os.path.join(TARGET, 'miri-sysroot', target + '.lock')):
        ok = os.path.join(d, '.ok')
        if os.path.exists(ok):
            return
        shutil.rmtree(d, ignore_errors=True)
        e = clean_env()
        e['RUSTUP_TOOLCHAIN'] = NIGHTLY
        e['MIRI_SYSROOT'] = d
        # MIRI_SYSROOT being set means "use as is", so set up through the cache directory
        del e['MIRI_SYSROOT']
        e['XDG_CACHE_HOME'] = os.path.join(TARGET, 'miri-sysroot', 'cache-' + target)
        rc, out = run_cargo(['cargo', 'miri', 'setup', '--target', target], e)
        src = glob.glob(os.path.join(e['XDG_CACHE_HOME'], 'miri'))
        if rc != 0 or not src:
            raise Inconclusive('cargo miri setup failed for %s:\n%s' % (target, out[-2000:]))
        shutil.move(src[0], d)
        shutil.rmtree(e['XDG_CACHE_HOME'], ignore_errors=True)
        open(ok, 'w').close()


class BuildFailed(Exception):
    def __init__(self, cfg, log, in_repo):
        super().__init__('build of configuration %s failed' % cfg.name)
        self.cfg = cfg
        self.log = log
        self.in_repo = in_repo


def build(cfg):
    """Makes cfg.bin current.  Raises BuildFailed / Inconclusive."""
    os.makedirs(cfg.dir, exist_ok=True)
    if cfg.miri:
        ensure_miri_sysroot(cfg.target)
    with lock(os.path.join(cfg.dir, '.mmlock')):
        stamp = os.path.join(cfg.dir, '.stamp')
        want = cfg.stamp()
        try:
            have = open(stamp).read()
        except OSError:
            have = ''
        if have == want and (cfg.miri or os.path.exists(cfg.bin)):
            return
        try:
            os.unlink(stamp)
        except OSError:
            pass
        # cargo goes by modification times; here contents count
        for pat in ('matrixmultiply-*', 'mmcheck-*', 'mmcore-*'):
            for d in glob.glob(os.path.join(cfg.dir, '**', '.fingerprint', pat), recursive=True):
                shutil.rmtree(d, ignore_errors=True)
        if cfg.miri:
            cmd = ['cargo', 'miri', 'run'] + cfg.cargo_args() + ['--', 'noop']
            e = cfg.cargo_env()
            e['MIRIFLAGS'] = '-Zmiri-disable-isolation'
            rc, out = run_cargo(cmd, e)
        else:
            rc, out = run_cargo(['cargo', 'build'] + cfg.cargo_args(), cfg.cargo_env())
        if rc != 0:
            in_repo = 'could not compile `matrixmultiply`' in out or 'error: failed to run custom build command for `matrixmultiply' in out
            raise BuildFailed(cfg, out[-6000:], in_repo)
        with open(stamp, 'w') as f:
            f.write(want)


def build_all(cfgs, par=8):
    """Builds all; returns {name: exception} of those that failed."""
    seen = {}
    todo = []
    for c in cfgs:
        if c.name not in seen:
            seen[c.name] = c
            todo.append(c)
    errs = {}
    sem = threading.Semaphore(par)

    def one(c):
        with sem:
            try:
                build(c)
            except Exception as ex:
                errs[c.name] = ex
    ts = [threading.Thread(target=one, args=(c,)) for c in todo]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return errs


# ---------------------------------------------------------------- configurations
CFGS = {}


def _add(c):
    CFGS[c.name] = c


_add(Cfg('best', note='std, threading, cgemm; kernels chosen at run time'))
for k in ('fma', 'avx', 'sse2', 'none'):
    _add(Cfg(k, env={'MMTEST_FEATURE': k}, note='kernel family %s forced' % k))
_add(Cfg('nothread', features='cgemm,std'))
_add(Cfg('nostd', features='cgemm'))
_add(Cfg('nostd-native', features='cgemm', rustflags='-Ctarget-feature=+avx2,+fma', note='no std, AVX2 and FMA enabled at compile time'))
_add(Cfg('nostd-avx', features='cgemm', rustflags='-Ctarget-feature=+avx', note='no std, AVX enabled at compile time'))
_add(Cfg('nostd-fma', features='cgemm', rustflags='-Ctarget-feature=+avx,+fma', note='no std, AVX and FMA enabled at compile time, not AVX2'))
_add(Cfg('native', rustflags='-Ctarget-feature=+avx2,+fma', note='std, AVX2 and FMA enabled at compile time'))
_add(Cfg('minimal', features='std'))
_add(Cfg('checked', profile='checked', note='debug assertions and overflow checks on'))
_add(Cfg('checked-nostd', profile='checked', features='cgemm'))
for k in ('avx', 'sse2', 'none'):
    _add(Cfg('checked-' + k, profile='checked', env={'MMTEST_FEATURE': k}))
_san = dict(toolchain=NIGHTLY, target=X86, extra=['-Zbuild-std'])
_add(Cfg('asan', rustflags='-Zsanitizer=address -Cdebuginfo=1', **_san))
_add(Cfg('tsan', rustflags='-Zsanitizer=thread -Cdebuginfo=1', **_san))
_add(Cfg('miri-sse2', features='cgemm,std', profile='debug', toolchain=NIGHTLY, target=X86, miri=True))
_add(Cfg('miri-avx2', features='cgemm,std', profile='debug', toolchain=NIGHTLY, target=X86, miri=True, rustflags='-Ctarget-feature=+avx2,+fma'))
_add(Cfg('miri-avx', features='cgemm,std', profile='debug', toolchain=NIGHTLY, target=X86, miri=True, rustflags='-Ctarget-feature=+avx'))
_add(Cfg('miri-none', features='cgemm,std', profile='debug', toolchain=NIGHTLY, target=X86, miri=True, env={'MMTEST_FEATURE': 'none'}))
_add(Cfg('miri-thread', profile='debug', toolchain=NIGHTLY, target=X86, miri=True))
_add(Cfg('miri-nostd', features='cgemm', profile='debug', toolchain=NIGHTLY, target=X86, miri=True))
_add(Cfg('miri-aarch64', features='cgemm,std', profile='debug', toolchain=NIGHTLY, target='aarch64-unknown-linux-gnu', miri=True))
_add(Cfg('miri-aarch64-thread', profile='debug', toolchain=NIGHTLY, target='aarch64-unknown-linux-gnu', miri=True))
_add(Cfg('miri-i686', features='cgemm,std', profile='debug', toolchain=NIGHTLY, target='i686-unknown-linux-gnu', miri=True))
_add(Cfg('miri-i686-avx2', features='cgemm,std', profile='debug', toolchain=NIGHTLY, target='i686-unknown-linux-gnu', miri=True, rustflags='-Ctarget-feature=+avx2,+fma'))
_add(Cfg('miri-i686-avx', features='cgemm,std', profile='debug', toolchain=NIGHTLY, target='i686-unknown-linux-gnu', miri=True, rustflags='-Ctarget-feature=+avx'))
_add(Cfg('miri-s390x', features='cgemm,std', profile='debug', toolchain=NIGHTLY, target='s390x-unknown-linux-gnu', miri=True))


# ---------------------------------------------------------------- block size settings
def cc_env(**kw):
    """cc_env(s=(mc,kc,nc), d=...) -> environment of the build"""
    e = {}
    for t, v in kw.items():
        for n, x in zip(('MC', 'KC', 'NC'), v):
            if x is not None:
                e['MATMUL_%sGEMM_%s' % (t.upper(), n)] = str(x)
    return e


DEF_BLK = {'s': (64, 256, 1024), 'd': (64, 256, 1024), 'c': (32, 256, 512), 'z': (32, 256, 512)}


def cc_blk(**kw):
    out = []
    for t, v in kw.items():
        f = [x if x is not None else d for x, d in zip(v, DEF_BLK[t])]
        out.append('%s=%d,%d,%d' % (t, *[x if x != '' else 0 for x in f]))
    return ';'.join(out)


def cc(name, features='threading,cgemm,constconf,std', feature=None, **kw):
    env = cc_env(**kw)
    if feature:
        env['MMTEST_FEATURE'] = feature
    c = Cfg('cc-' + name, features=features, env=env, blk=cc_blk(**kw))
    c.cc = kw
    return c


def preload(what='cpuinfo'):
    """a library to preload: shows the process another /proc/cpuinfo (cpuinfo), counts its threads (threads), or answers
    for environment variables which are not set (env)"""
    so = os.path.join(TARGET, 'preload', what + '.so')
    src = os.path.join(ROOT, 'harness/preload/%s.c' % what)
    os.makedirs(os.path.dirname(so), exist_ok=True)
    with lock(so + '.lock'):
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, src, '-ldl'], capture_output=True, text=True)
            if r.returncode:
                raise Inconclusive('gcc: ' + r.stderr[-500:])
    return so
