"""The plan of every check: which executions are produced, and which observations decide the property."""
import os, subprocess
import build as B
from build import CFGS, cc, cc_blk, DEF_BLK, BuildFailed, Inconclusive
from run import Job, Obs

NOHANG = ['crash:*', 'panic', 'hang:*']
VALUE = ['result'] + NOHANG


class Ctx:
    def __init__(self, tier, seed, tmp):
        self.tier, self.seed, self.tmp = tier, seed, tmp
        self.deep = tier == 'thorough'
        self.extra = {}       # measured facts for the evidence file
        self.compared = 0

    def n(self, quick, factor=12):
        return quick * factor if self.deep else quick


def fuzz(ctx, cfg, profile, count, kinds, shards=8, env=None, **kw):
    c = CFGS[cfg] if isinstance(cfg, str) else cfg
    if profile != 'exh' and not c.miri and not kw.get('wrap') and c.name not in ('asan', 'tsan'):
        count *= 3
    shards = min(shards, max(1, count))
    per = (count + shards - 1) // shards
    js = []
    for i in range(shards):
        js.append(Job(c, 'fuzz', kinds, env=env, profile=profile, seed=ctx.seed, start=i, step=shards, count=per, timeout=kw.get('timeout', 800 if not ctx.deep else 7200),
                      **{k: v for k, v in kw.items() if k not in ('timeout',)}))
    return js


def vg(ctx, cfg, profile, count, kinds, shards=8, cap=40000):
    return fuzz(ctx, cfg, profile, count, kinds, shards, env={'MATMUL_NUM_THREADS': '1'}, wrap='valgrind', hostile=0, noprotect=1, cap=cap)


def miri(ctx, cfg, profile, count, kinds, shards=4, miriflags='', cap=1500, **kw):
    c = CFGS[cfg] if isinstance(cfg, str) else cfg
    js = fuzz(ctx, c, profile, count, kinds, shards, tiny=1, cap=cap, hostile=0, progress=1, **kw)
    for i, j in enumerate(js):
        j.miriflags = (miriflags + ' -Zmiri-seed=%d' % (ctx.seed * 131 + i)).strip()
    return js


def long(ctx, cfg, kinds, what='m,n,k', types='sdcz', t='4', weight=2):
    """more blocks than fit 16 bits, more elements than fit 32"""
    c = CFGS[cfg] if isinstance(cfg, str) else cfg
    return Job(c, 'long', kinds, env={'MATMUL_NUM_THREADS': t}, what=what, types=types, seed=ctx.seed, label='%s/long[%s %s]' % (c.name, what, types), weight=weight, slow=10, timeout=800)


def endless(ctx, cfg, kinds, t='4', **kw):
    """dimensions up to the largest"""
    c = CFGS[cfg] if isinstance(cfg, str) else cfg
    return Job(c, 'endless', kinds, env={'MATMUL_NUM_THREADS': t}, seed=ctx.seed, label='%s/endless[%s %s threads]' % (c.name, kw.get('what', 'long'), t), **kw)


def many(ctx, cfg, kinds, t='4', **kw):
    """millions of calls in one process, tens of thousands of calling threads, hundreds of them at once"""
    c = CFGS[cfg] if isinstance(cfg, str) else cfg
    return Job(c, 'many', kinds, env={'MATMUL_NUM_THREADS': t}, seed=ctx.seed, label='%s/many[%s]' % (c.name, ' '.join('%s %s' % x for x in sorted(kw.items()) if x[0] != 'weight')), timeout=800 if not ctx.deep else 7200, **kw)


KERNELS = ['best', 'fma', 'avx', 'sse2', 'none']


def c01(ctx):
    js = []
    for k in KERNELS + ['checked', 'nostd', 'nostd-native']:
        js += fuzz(ctx, k, 'exh', 15552, VALUE, shards=2)
    n = ctx.n
    js.insert(0, long(ctx, 'best', VALUE, 'k32', 'd', '1', 1))
    js += [long(ctx, 'best', VALUE, 'm,k'), long(ctx, 'best', VALUE, 'n', 'dz'), long(ctx, 'best', VALUE, 'n', 'sc', '1'), long(ctx, 'best', VALUE, 'mk32,kn32', 'd')]
    js += [long(ctx, 'nostd', VALUE, 'm,k', 'sdcz'), long(ctx, 'none', VALUE, 'm,k', 'sc', '3')]
    if ctx.deep:
        js += [long(ctx, k, VALUE, w, 'sdcz') for k in ('fma', 'avx', 'sse2', 'checked') for w in ('m,k', 'n')]
        js += [long(ctx, 'nostd', VALUE, 'k32', 'dz', '1', 1), long(ctx, 'best', VALUE, 'k32', 'z', '4', 4), long(ctx, 'best', VALUE, 'mk32,kn32', 'sz', '3')]
    js += [endless(ctx, c, VALUE, t) for c, t in (('best', '4'), ('best', '1'), ('checked', '4'), ('nostd', '1'))]
    js += [many(ctx, k, VALUE, calls=n(1000000)) for k in KERNELS]
    js += fuzz(ctx, 'best', 'prod', n(5600), VALUE)
    for k in ['fma', 'avx', 'sse2', 'none']:
        js += fuzz(ctx, k, 'prod', n(2000), VALUE)
    js += fuzz(ctx, 'best', 'thr', n(800), VALUE)
    for k in ['nothread', 'nostd', 'nostd-native', 'checked']:
        js += fuzz(ctx, k, 'prod', n(800), VALUE)
    js += fuzz(ctx, 'best', 'layout', n(1600), VALUE)
    if ctx.deep:
        for t in ('1', '2', '3'):
            js += fuzz(ctx, 'best', 'thr', 6000, VALUE, env={'MATMUL_NUM_THREADS': t})
        js += fuzz(ctx, 'best', 'prod', 2400, VALUE, cap=800000000)
    return js, None


def c02(ctx):
    n = ctx.n
    js = fuzz(ctx, 'best', 'layout', n(7200), VALUE)
    for k in ['fma', 'avx', 'sse2', 'none', 'checked', 'nostd-native']:
        js += fuzz(ctx, k, 'layout', n(2000), VALUE)
    js += fuzz(ctx, 'best', 'exh', 15552, VALUE, shards=2)
    js += fuzz(ctx, 'best', 'hist', n(1600), VALUE)
    return js, None


def c03(ctx):
    n = ctx.n
    K = VALUE + ['undef', 'nonfinite', 'vg:uninit', 'vg:other', 'miri:uninit', 'miri:ub']
    js = miri(ctx, 'miri-sse2', 'bz', n(64, 8), K, shards=2)
    js += miri(ctx, 'miri-avx2', 'bz', n(64, 8), K, shards=2)
    js += miri(ctx, 'miri-none', 'bz', n(48, 8), K, shards=1)
    js += vg(ctx, 'best', 'bz', n(160), K, shards=4)
    js += vg(ctx, 'sse2', 'bz', n(80), K, shards=2)
    js += vg(ctx, 'none', 'bz', n(80), K, shards=2)
    js += vg(ctx, 'avx', 'bz', n(80), K, shards=2)
    js += fuzz(ctx, 'best', 'bz', n(4800), K)
    for k in ['fma', 'avx', 'sse2', 'none', 'checked', 'nostd']:
        js += fuzz(ctx, k, 'bz', n(1200), K)
    return js, None


def c04(ctx):
    n = ctx.n
    K = VALUE + ['undef', 'gap', 'margin-c', 'margin-ab', 'nonfinite', 'vg:read', 'vg:write', 'miri:*', 'alloc']
    js = miri(ctx, 'miri-sse2', 'empty', n(120, 8), K, shards=2)
    js += vg(ctx, 'best', 'empty', n(160), K, shards=2)
    js += fuzz(ctx, 'best', 'empty', n(4800), K)
    for k in ['fma', 'avx', 'sse2', 'none', 'checked', 'checked-nostd', 'nostd', 'nothread']:
        js += fuzz(ctx, k, 'empty', n(1200), K)
    for k in ['best', 'checked', 'checked-nostd', 'nostd', 'nothread', 'none']:
        js.append(endless(ctx, k, K + NOHANG, what='empty', count=n(80)))
    return js, None


def c05(ctx):
    n = ctx.n
    K = ['gap', 'margin-c', 'margin-ab', 'crash:*:w', 'vg:write', 'tsan', 'undef']
    js = fuzz(ctx, 'tsan', 'foot', n(240), K, shards=4, env={'MATMUL_NUM_THREADS': '2'}, gapowner=1, noprotect=1, nosparse=1, hostile=0, cap=60000)
    js += vg(ctx, 'best', 'foot', n(480), K, shards=4)
    for k in ['sse2', 'none', 'avx', 'nostd']:
        js += vg(ctx, k, 'foot', n(160), K, shards=2)
    js += fuzz(ctx, 'best', 'foot', n(4800), K)
    for k in ['fma', 'avx', 'sse2', 'none', 'nostd', 'nostd-native']:
        js += fuzz(ctx, k, 'foot', n(1600), K)
    js += fuzz(ctx, 'best', 'layout', n(1600), K)
    js += fuzz(ctx, 'best', 'thr', n(320), K)
    js += fuzz(ctx, 'best', 'empty', n(800), K)
    return js, None


def c06(ctx):
    n = ctx.n
    K = ['crash:*:r', 'vg:read', 'tsan', 'vg:uninit', 'result', 'miri:*']
    js = fuzz(ctx, 'tsan', 'foot', n(160), K, shards=4, env={'MATMUL_NUM_THREADS': '2'}, gapowner=1, noprotect=1, nosparse=1, hostile=0, cap=60000)
    js += miri(ctx, 'miri-sse2', 'foot', n(64, 8), K, shards=2)
    js += vg(ctx, 'best', 'foot', n(600), K, shards=4)
    for k in ['sse2', 'none', 'avx', 'fma', 'nostd']:
        js += vg(ctx, k, 'foot', n(160), K, shards=2)
    js += vg(ctx, 'best', 'empty', n(80), K, shards=2)
    js += fuzz(ctx, 'best', 'foot', n(4800), K)
    for k in ['fma', 'avx', 'sse2', 'none', 'nostd', 'nostd-native']:
        js += fuzz(ctx, k, 'foot', n(1600), K)
    js += fuzz(ctx, 'best', 'empty', n(800), K)
    return js, None


def read_hashes(path):
    r = {}
    try:
        with open(path) as f:
            for l in f:
                i, a, b, d = l.split()
                r[int(i)] = (a, b, d)
    except (OSError, ValueError):
        pass
    return r


class Groups:
    """The same cases in several situations; their result hashes must agree."""

    def __init__(self, ctx, kind, norm, exact_only=False):
        self.ctx, self.kind, self.norm, self.exact_only = ctx, kind, norm, exact_only
        self.groups = {}

    def add(self, group, cfg, profile, count, kinds, label, shards=8, env=None, **kw):
        js = fuzz(self.ctx, cfg, profile, count, kinds, shards, env=env, **kw)
        for i, j in enumerate(js):
            p = os.path.join(self.ctx.tmp, 'h-%s-%s-%d' % (group, label, i))
            j.args['hashes'] = p
            j.label = '%s [%s]' % (j.label, label)
            self.groups.setdefault(group, []).append((label, j, p))
        return js

    def post(self):
        out = []
        for g, members in self.groups.items():
            ref = {}
            for label, j, p in members:
                for i, (a, b, d) in read_hashes(p).items():
                    if a == '0' * 16 or (self.exact_only and d != 'E'):
                        continue
                    h = a if self.norm else b
                    if i not in ref:
                        ref[i] = (label, h, j)
                        continue
                    self.ctx.compared += 1
                    if ref[i][1] != h and len(out) < 5:
                        out.append(Obs(j, self.kind, 'the result of case %d differs between "%s" and "%s"' % (i, ref[i][0], label), {'idx': i, 'other': ref[i][0], 'other_command': ref[i][2].argv(), 'other_config': ref[i][2].cfg.name, 'other_env': ref[i][2].env}, j.argv()))
        return out


def c07(ctx):
    n = ctx.n
    K = ['alloc', 'asan', 'miri:*', 'vg:*', 'tsan', 'crash:*', 'undef', 'hash']
    g = Groups(ctx, 'hash', norm=False)
    js = []
    js += miri(ctx, 'miri-sse2', 'foot', n(48, 10), K, shards=1)
    js += miri(ctx, 'miri-avx2', 'foot', n(96, 10), K, shards=2)
    js += miri(ctx, 'miri-avx', 'foot', n(48, 10), K, shards=1)
    js += miri(ctx, 'miri-none', 'foot', n(48, 10), K, shards=1)
    js += miri(ctx, 'miri-nostd', 'foot', n(32, 10), K, shards=1)
    js.append(miri_conc(ctx, 'miri-thread', K, 0))
    js += miri_thr(ctx, B.X86, n(2, 10), K)
    js += fuzz(ctx, 'asan', 'foot', n(1600), K, hostile=0, noprotect=1, shards=4)
    js += fuzz(ctx, 'asan', 'thr', n(160), K, hostile=0, noprotect=1, shards=2)
    js += vg(ctx, 'best', 'vg', n(160), K, shards=4)
    js += vg(ctx, 'nostd-native', 'vg', n(80), K, shards=2)
    js += fuzz(ctx, 'tsan', 'thr', n(96), K, shards=2, hostile=0, noprotect=1, cap=400000)
    # what the working memory held before, and how it is aligned, has no influence
    for k in ['best', 'nostd']:
        js += g.add(k, k, 'foot', n(2000), K, 'plain allocator', hostile=0)
        js += g.add(k, k, 'foot', n(2000), K, 'hostile allocator')
    for k in ['fma', 'avx', 'sse2', 'none', 'nostd-native', 'checked', 'checked-avx', 'checked-sse2', 'checked-none', 'checked-nostd']:
        js += fuzz(ctx, k, 'foot', n(1200), K + ['panic'])
    js += fuzz(ctx, 'best', 'prod', n(1600), K)
    js += fuzz(ctx, 'best', 'thr', n(320), K)
    return js, g.post


EQ_CFGS = ['best', 'fma', 'avx', 'sse2', 'none', 'nothread', 'nostd', 'nostd-native', 'nostd-avx', 'nostd-fma', 'native', 'minimal', 'checked', 'checked-nostd', 'checked-avx', 'checked-sse2', 'checked-none']


def c08(ctx):
    n = ctx.n
    K = VALUE + ['hash', 'build', 'nonfinite', 'undef']
    g = Groups(ctx, 'hash', norm=True, exact_only=True)
    js = []
    for k in EQ_CFGS:
        js += g.add('eq', k, 'eq', n(1200), K, k, complex=1)
    for k in EQ_CFGS:
        js += g.add('layout', k, 'layout', n(480), K, k, complex=1)
    for k in EQ_CFGS:
        js += g.add('empty', k, 'empty', n(240), K, k, complex=1, shards=4)
    for k in ['best', 'checked']:
        js += g.add('thr', k, 'thr', n(240), K, k)
    js += [endless(ctx, k, K) for k in ('best', 'checked', 'checked-nostd', 'nothread')]
    js += [endless(ctx, k, K, what='empty', count=n(40)) for k in ('best', 'checked', 'checked-nostd', 'nothread')]
    return js, g.post


def c09(ctx):
    n = ctx.n
    K = ['hash', 'hang:*', 'panic', 'crash:*', 'result']
    g = Groups(ctx, 'hash', norm=False)
    js = []
    for t in ['4', '1', '2', '3']:
        js += g.add('thr', 'best', 'thr', n(1200), K, '%s threads' % t, env={'MATMUL_NUM_THREADS': t})
    js += g.add('thr', 'nothread', 'thr', n(1200), K, 'without threading')
    js += g.add('thr', 'best', 'thr', n(1200), K, '4 threads on one CPU, delayed', noise=1)
    js += g.add('thr', 'best', 'thr', n(1200), K, '4 threads, reverse order', order='rev')
    for k in ['none', 'sse2']:
        for t in ['1', '2', '4']:
            js += g.add('thr-' + k, k, 'thr', n(320), K, '%s: %s threads' % (k, t), env={'MATMUL_NUM_THREADS': t})
    for t in ['1', '2', '3', '4']:
        js += g.add('prod', 'best', 'prod', n(480), K, '%s threads' % t, env={'MATMUL_NUM_THREADS': t})
    # small blocks: many chunks per thread, in uneven numbers
    c = cc('tiny', **TINY)
    for t in ['1', '2', '3', '4']:
        js += g.add('tiny', c, 'thr', n(480), K, '%s threads, small blocks' % t, env={'MATMUL_NUM_THREADS': t})
    return js, g.post


def miri_conc(ctx, cfg, kinds, i, **kw):
    j = Job(CFGS[cfg] if isinstance(cfg, str) else cfg, 'conc', kinds, env={'MATMUL_NUM_THREADS': str(2 + 2 * (i % 2))}, miriflags='-Zmiri-ignore-leaks -Zmiri-seed=%d' % (ctx.seed * 977 + i),
            seed=ctx.seed * 1000 + i, callers=2 + i % 2, rounds=kw.pop('rounds', 2), per=1, tiny=1, noprotect=1, first=i % 2, cap=400, label='%s/conc#%d' % (cfg if isinstance(cfg, str) else cfg.name, i), timeout=1500, **kw)
    return j


def miri_cc(name, target, feature=None):
    """small blocks make the loops over blocks and threads run on little data"""
    b = dict(s=(8, 700, 700), d=(8, 700, 700), c=(8, 700, 700), z=(8, 700, 700)) if name.endswith('thr') else dict(s=(8, 8, 8), d=(8, 8, 8), c=(8, 8, 8), z=(8, 8, 8))
    c = cc(name, features='cgemm,constconf,std' + (',threading' if name.endswith('thr') else ''), feature=feature, **b)
    c.miri, c.profile, c.toolchain, c.target = True, 'debug', B.NIGHTLY, target
    return c


def miri_thr(ctx, target, count, kinds, shards=2):
    """calls divided among threads, interpreted"""
    return miri(ctx, miri_cc('miri-%s-thr' % target.split('-')[0], target), 'mthr', count, kinds, shards=shards, cap=8000000 if ctx.deep else 4000000, timeout=900 if not ctx.deep else 7200, miriflags='-Zmiri-ignore-leaks', env={'MATMUL_NUM_THREADS': '4'})


def c10(ctx):
    K = VALUE + ['tsan', 'miri:*', 'gap', 'margin-c', 'margin-ab', 'alloc', 'undef', 'asan']
    js = []
    q = 1 if not ctx.deep else 8
    for i in range(2 * q):
        js.append(miri_conc(ctx, 'miri-thread', K, i))
    for i in range(4 * q):
        js.append(Job(CFGS['tsan'], 'conc', K, env={'MATMUL_NUM_THREADS': str(1 + i % 4)}, seed=ctx.seed * 100 + i, callers=[4, 2, 8, 3][i % 4], rounds=14, per=3, time=25, noprotect=1, first=i % 2, cap=1000000,
                      label='tsan/conc#%d' % i, weight=2))
    # first calls of many processes
    for i in range(24 * q):
        js.append(Job(CFGS['best'], 'conc', K, env={'MATMUL_NUM_THREADS': str(1 + (i + i // 4) % 4)}, seed=ctx.seed * 1000 + 500 + i, callers=[2, 4, 8, 16, 3, 6][i % 6], rounds=2, per=2, first=1, noise=i % 2, noprotect=1, hostile=(i // 2) % 2,
                      label='best/conc-first#%d' % i, weight=2))
    for i in range(12 * q):
        cfg = ['best', 'sse2', 'none', 'avx', 'best', 'checked'][i % 6]
        js.append(Job(CFGS[cfg], 'conc', K, env={'MATMUL_NUM_THREADS': str(4 - i % 4)}, seed=ctx.seed * 1000 + i, callers=[4, 2, 8, 16, 3, 5][(i + i // 6) % 6], rounds=60, per=4, time=8 if not ctx.deep else 60, noise=1, noprotect=1,
                      hostile=i % 2, cap=4000000, label='%s/conc#%d' % (cfg, i), weight=2))
    # the other ways to build: without threads of its own, without the standard library
    for i in range(8 * q):
        cfg = ['nothread', 'nostd', 'nothread', 'nostd-native'][i % 4]
        js.append(Job(CFGS[cfg], 'conc', K, env={'MATMUL_NUM_THREADS': '4'}, seed=ctx.seed * 1000 + 700 + i, callers=[4, 2, 8, 3][(i + i // 4) % 4], rounds=60 if i >= 4 else 2, per=3, first=int(i < 4), time=6 if not ctx.deep else 40, noise=(i // 2) % 2, noprotect=1,
                      hostile=i % 2, cap=2000000, label='%s/conc#%d' % (cfg, i), weight=2))
    # hundreds of callers at once, and some which do not rest
    for i, (cfg, c) in enumerate([('best', 300), ('nothread', 300), ('nostd', 300), ('none', 200), ('checked', 1100), ('tsan', 80)]):
        js.append(many(ctx, cfg, K, t=str(1 + i % 4), crowd=c, rounds=ctx.n(6 if cfg != 'tsan' else 2), weight=4))
    for i, cfg in enumerate(['best', 'nostd', 'checked']):
        js.append(many(ctx, cfg, K, t=str(4 - i), callers=8, calls=ctx.n(4000000), weight=4))
    return js, None


def physical_cpus():
    try:
        ids, cur = set(), {}
        for l in open('/proc/cpuinfo'):
            if ':' in l:
                k, v = [x.strip() for x in l.split(':', 1)]
                cur[k] = v
            elif cur:
                ids.add((cur.get('physical id', '0'), cur.get('core id', cur.get('processor'))))
                cur = {}
        return len(ids)
    except OSError:
        return 1


def c11(ctx):
    K = ['threads', 'panic', 'crash:*', 'hang:*', 'result']
    cpus = len(os.sched_getaffinity(0))
    par = cpus >= 2
    dmin = 2 if physical_cpus() >= 2 and par else 1
    m = 2 if par else 1
    vals = [('1', 1, 1), ('2', 2, m), ('3', 3, m), ('4', 4, m), ('5', 4, m), ('64', 4, m), ('1000000', 4, m), ('18446744073709551615', 4, m), ('0', 1, 1), ('00', 1, 1), ('02', 2, m), ('0004', 4, m),
            (None, 4, dmin), ('', 4, dmin), ('abc', 1, 1), ('-1', 1, 1), ('2.5', 1, 1), ('4 ', 1, 1), (' 2', 1, 1), ('0x4', 1, 1), ('18446744073709551616', 1, 1), ('99999999999999999999999999', 1, 1), ('four', 1, 1), ('2,2', 1, 1), ('\u0664', 1, 1), ('1e3', 1, 1), (b'\xff\xfe', 4, 1), (b'4\xff', 4, 1)]
    js = []
    TH = B.preload('threads')
    for cfg in ['best', 'none'] if not ctx.deep else ['best', 'none', 'sse2', 'avx', 'checked']:
        for v, mx, mn in (vals if cfg == 'best' or ctx.deep else vals[:6]):
            js.append(Job(CFGS[cfg], 'threads', K, env={'MATMUL_NUM_THREADS': v, 'LD_PRELOAD': TH}, max=mx, min=mn, rounds=1 if not ctx.deep else 6, label='%s/threads[%s]' % (cfg, 'unset' if v is None else ascii(v)), weight=4))
    # other machines: packages, cores each, hardware threads per core
    for i, (cpus, v, mx) in enumerate([('1,1,1', None, 1), ('1,1,8', None, 1), ('1,2,1', None, 2), ('1,2,4', '', 2), ('2,1,4', None, 2), ('1,3,2', None, 3), ('3,1,1', '', 3), ('1,4,2', None, 4), ('2,64,2', None, 4), ('1,1,2', '4', 4), ('1,1,1', '2', 2), ('2,8,2', '1', 1)]):
        js.append(Job(CFGS['best' if i % 3 else 'none'], 'threads', K, env={'MATMUL_NUM_THREADS': v, 'LD_PRELOAD': B.preload() + ':' + TH, 'MM_CPUS': cpus}, max=mx, min=min(mx, m), rounds=1, machine=cpus, label='%s/threads[%s, machine %s]' % ('best' if i % 3 else 'none', 'unset' if v is None else ascii(v), cpus), weight=4))
    # no other variable has a say
    EN = B.preload('env')
    for v, ans, mx, mn in [(None, '1', 4, dmin), ('', '1', 4, dmin), ('4', '1', 4, m), ('2', '8', 2, m), ('1', '4', 1, 1), (None, '64', 4, dmin)]:
        js.append(Job(CFGS['best'], 'threads', K, env={'MATMUL_NUM_THREADS': v, 'LD_PRELOAD': EN + ':' + TH, 'MM_ENV_ANSWER': ans}, max=mx, min=mn, rounds=1, label='best/threads[%s, other variables %s]' % ('unset' if v is None else ascii(v), ans), weight=4))
    # large products of many sizes do use the threads
    for i, (v, mx) in enumerate([('2', 2), ('4', 4), ('3', 3)]):
        js.insert(0, Job(CFGS['best'], 'threads', K, env={'MATMUL_NUM_THREADS': v, 'LD_PRELOAD': TH}, max=mx, min=m, rounds=1, seed=ctx.seed * 10 + i, sizes=ctx.n(16, 10), huge=int(i == 0), label='best/sizes[%s]' % v, weight=4, slow=6))
    for cfg in ['nothread', 'nostd', 'minimal']:
        for v in [None, '4', '2']:
            js.append(Job(CFGS[cfg], 'threads', K, env={'MATMUL_NUM_THREADS': v, 'LD_PRELOAD': TH}, max=1, min=1, nothreads=1, rounds=1, label='%s/threads[%s]' % (cfg, v), weight=4))
    # the limit also holds, and nothing fails, for generated calls
    for v in ['2', '3', '', 'x', '0', '77']:
        js += fuzz(ctx, 'best', 'thr', ctx.n(96), K, shards=2, env={'MATMUL_NUM_THREADS': v})
    # nor do threads come and go within calls of any kind
    for v, mx in [('1', 1), ('2', 2), ('4', 4)]:
        for prof in ['prod', 'thr', 'layout']:
            js += fuzz(ctx, 'best', prof, ctx.n(240), K, shards=2, env={'MATMUL_NUM_THREADS': v, 'LD_PRELOAD': TH}, maxthreads=mx)
    for cfg in ['nothread', 'nostd']:
        for prof in ['prod', 'thr']:
            js += fuzz(ctx, cfg, prof, ctx.n(240), K, shards=2, env={'MATMUL_NUM_THREADS': '4', 'LD_PRELOAD': TH}, maxthreads=0)
    return js, None


def c12(ctx):
    K = ['memory', 'leak', 'state', 'fpstate', 'output', 'miri:leak']
    js = []
    for i, (cfg, t) in enumerate([('best', '4'), ('best', '1'), ('best', '2'), ('nothread', '4'), ('nostd', '4'), ('none', '4'), ('sse2', '3'), ('avx', '4'), ('fma', '4'), ('checked', '4')]):
        js.append(Job(CFGS[cfg], 'resources', K + NOHANG, env={'MATMUL_NUM_THREADS': t}, seed=ctx.seed, profile='foot', calls=ctx.n(20000, 20), big=ctx.n(150, 20), count=ctx.n(400), cap=2000000, label='%s/resources[%s threads]' % (cfg, t), weight=1, stackscale=8 if cfg == 'checked' else 1))
    for cfg in ['best', 'nothread', 'nostd']:
        js.append(Job(CFGS[cfg], 'resources', K + NOHANG, env={'MATMUL_NUM_THREADS': None}, seed=ctx.seed, profile='foot', calls=ctx.n(4000, 20), big=ctx.n(40, 20), count=ctx.n(80), cap=2000000, label='%s/resources[threads not set]' % cfg, weight=1))
    js += miri(ctx, 'miri-sse2', 'prod', ctx.n(32, 8), K, shards=2)
    for prof, cnt in [('foot', 1600), ('prod', 800), ('layout', 800), ('scal', 800), ('nonfin', 800), ('empty', 800), ('thr', 160), ('bz', 400)]:
        js += fuzz(ctx, 'best', prof, ctx.n(cnt), K, shards=4 if prof == 'foot' else 2, state=1)
    for cfg in ['nothread', 'nostd', 'checked', 'none', 'sse2', 'avx']:
        for prof in ['foot', 'scal', 'nonfin', 'empty']:
            js += fuzz(ctx, cfg, prof, ctx.n(320), K, shards=1, state=1)
    return js, None


def c13(ctx):
    K = ['oom', 'crash:*', 'hang:*']
    js = []
    q = 1 if not ctx.deep else 10
    for i in range(4 * q):
        js.append(Job(CFGS['best'], 'oom', K, env={'MATMUL_NUM_THREADS': ['4', '1', '2', '3'][i % 4]}, seed=ctx.seed, start=i, shapes=6, label='best/oom#%d' % i))
    for i, cfg in enumerate(['nothread', 'nostd', 'nostd-native', 'sse2', 'none', 'fma', 'avx', 'checked'] * q):
        js.append(Job(CFGS[cfg], 'oom', K, env={'MATMUL_NUM_THREADS': '2'}, seed=ctx.seed, start=100 + i, shapes=6, label='%s/oom' % cfg))
    return js, None


def c14(ctx):
    n = ctx.n
    K = ['nonfinite', 'result'] + NOHANG
    js = fuzz(ctx, 'best', 'nonfin', n(6400), K)
    for k in ['fma', 'avx', 'sse2', 'none', 'nostd-native']:
        js += fuzz(ctx, k, 'nonfin', n(2400), K)
    for k in ['nothread', 'nostd', 'checked']:
        js += fuzz(ctx, k, 'nonfin', n(800), K)
    return js, None


TINY = dict(s=(8, 8, 8), d=(8, 8, 8), c=(8, 8, 8), z=(8, 8, 8))
ODD = dict(s=(9, 11, 13), d=(10, 10, 17), c=(9, 9, 9), z=(11, 13, 300))


def c15_builds(ctx):
    ok = [cc('tiny', **TINY),
          cc('odd', **ODD),
          cc('odd-none', feature='none', **ODD),
          cc('odd-sse2', feature='sse2', **ODD),
          cc('odd-avx', feature='avx', **ODD),
          cc('odd-fma', feature='fma', **ODD),
          cc('large', s=(512, 600, 65536), d=(129, 4096, 5000), c=(100, 300, 20000), z=(64, 1025, 1025)),
          # counters of 16 bits would not do
          cc('wide', s=(40, 65536, 65536), d=(24, 65535, 65536), c=(16, 65536, 65536), z=(16, 33000, 65535)),
          cc('mc-large', s=(65536, 65536, 65536), d=(65535, 65535, 65535), c=(40000, 40001, 65536), z=(65536, 65536, 65536)),
          cc('only-d', d=(16, 24, 40)),
          cc('only-s', s=(16, 24, 40)),
          cc('only-cz', c=(16, 24, 40), z=(12, 20, 30)),
          cc('partial', s=(None, None, 256), d=(None, 64, None), c=(256, None, None), z=(8, None, None)),
          cc('odd-nostd', features='cgemm,constconf', **ODD)]
    bad = [(cc('bad1', s=(0, 256, 1024), d=(300, 256, 1024), c=(32, 600, 512), z=(32, 256, 65537)), 'sdcz'),
           (cc('bad2', s=(64, 2000, 1024), d=(64, 256, 9223372036854775808), c=(300, 256, 512), z=(0, 0, 0)), 'sdcz'),
           (cc('bad3', s=(64, 256, 18446744073709551615)), 's'),
           (cc('bad4', d=(64, 63, 1024)), 'd'),
           (cc('bad5', z=(32, 256, 255), c=(0, 256, 512)), 'cz'),
           (cc('bad6', s=(64, 256, ''), d=('', 256, 1024), c=(3, 3, 3), z=(1, 1, 1)), 'sdcz'),
           (cc('bad7', s=(1, 256, 1024), d=(256, 255, 1024), c=(513, 512, 512), z=(64, 65536, 65537)), 'sdcz')]
    return ok, bad


MALFORMED = ['abc', '12a', '-5', ' 64', '64 ', '0x40', '6_4', '1e3', '6.4', '18446744073709551680', '99999999999999999999', '184467440737095516160', '+64', '\u0666\u0664', '/64', '64:']
VARS = ['MATMUL_%sGEMM_%s' % (t, d) for t in 'SDCZ' for d in ('MC', 'KC', 'NC')]


def c15(ctx):
    n = ctx.n
    K = VALUE + ['gap', 'margin-c', 'margin-ab', 'alloc', 'undef', 'refuse', 'memory', 'build']
    ok, bad = c15_builds(ctx)
    js = [Job(CFGS['best'], 'peaks', K, label='best/peaks')]
    for c in ok:
        if c.name in ('cc-wide', 'cc-mc-large'):
            js += fuzz(ctx, c, 'prod', n(320), K, shards=4, cap=40000000)
            continue
        js.append(Job(c, 'peaks', K, label=c.name + '/peaks'))
        js += fuzz(ctx, c, 'exh', 15552, K, shards=2)
        js += fuzz(ctx, c, 'prod', n(640), K, shards=4, cap=3000000)
        js += fuzz(ctx, c, 'foot', n(480), K, shards=4, cap=3000000)
    js += fuzz(ctx, ok[0], 'thr', n(400), K, cap=3000000)
    for c, types in bad:
        c.may_refuse = True
        js.append(Job(c, 'refuse', K, types=types, label=c.name + '/refuse'))
        rest = [t for t in 'sdcz' if t not in types]
        for t in rest:
            js += fuzz(ctx, c, 'prod', n(80), K, shards=1, only=t)
    return js, None


def c15_post(ctx, runner):
    """working memory follows the type's own settings only"""
    out = []
    pk = {}
    for j, s in runner.stats:
        if j.mode == 'peaks':
            pk[j.cfg.name] = (j, {x['type']: x for x in s['peaks']})
    if 'best' not in pk:
        return out
    ref = pk['best'][1]
    up = lambda x: (x + 7) // 8 * 8
    for name, (j, t) in pk.items():
        for ty, x in t.items():
            lim = x['size'] * x['kc'] * (2 * up(x['mc']) + up(x['nc'])) + 8192
            if x['peak'] > lim:
                out.append(Obs(j, 'memory', '%sgemm uses %d bytes of working memory with MC=%d KC=%d NC=%d (at most %d)' % (ty, x['peak'], x['mc'], x['kc'], x['nc'], lim), x, j.argv()))
            r = ref.get(ty)
            kw = getattr(j.cfg, 'cc', {})
            if r and ty not in kw and name != 'best' and not j.cfg.env.get('MMTEST_FEATURE') and 'threading' in j.cfg.features and abs(x['peak_default'] - r['peak_default']) > 4096:
                out.append(Obs(j, 'memory', '%sgemm uses %d bytes instead of %d although only settings of other types changed' % (ty, x['peak_default'], r['peak_default']), x, j.argv()))
            if r and ty in kw and name in ('cc-large',) and x['kc'] * x['nc'] > 4 * r['kc'] * r['nc'] and x['peak'] <= r['peak']:
                out.append(Obs(j, 'memory', '%sgemm uses no more working memory (%d) than with the default settings' % (ty, x['peak']), x, j.argv()))
    ctx.extra['working_memory_compared'] = sum(len(t) for _, t in pk.values())
    return out


def c15_malformed(ctx):
    """values which are not numbers (or do not fit) must fail the build"""
    out, tried, refused = [], 0, 0
    import threading
    combos = []
    vals = list(MALFORMED)
    for i, v in enumerate(vals):
        combos.append((VARS[(i * 5 + ctx.seed) % len(VARS)], v))
    if ctx.deep:
        combos = [(a, v) for a in VARS for v in vals]
    mu = threading.Lock()
    res = []

    def lane(k):
        d = os.path.join(B.TARGET, 'ccbad-%d' % k)
        os.makedirs(d, exist_ok=True)
        with B.lock(os.path.join(d, '.mmlock')):
            first = True
            for var, v in [('MATMUL_SGEMM_MC', '64'), ('MATMUL_ZGEMM_NC', '1024')] + combos[k::4] if k == 0 else [('MATMUL_DGEMM_KC', '256')] + combos[k::4]:
                if first:
                    import glob, shutil
                    for pat in ('matrixmultiply-*', 'mmcheck-*', 'mmcore-*'):
                        for q in glob.glob(os.path.join(d, '**', '.fingerprint', pat), recursive=True):
                            shutil.rmtree(q, ignore_errors=True)
                    first = False
                e = B.clean_env()
                e['RUSTUP_TOOLCHAIN'] = B.STABLE
                e[var] = v
                rc, log = B.run_cargo(['cargo', 'check', '--offline', '--no-default-features', '--features', 'std,cgemm,constconf', '--target-dir', d], e)
                with mu:
                    res.append((var, v, rc, log, v in ('64', '1024', '256')))
    ts = [threading.Thread(target=lane, args=(k,)) for k in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    job = Job(CFGS['best'], 'build', ['*'], label='constconf build')
    for var, v, rc, log, control in res:
        tried += 1
        if control:
            if rc != 0:
                raise Inconclusive('control build with %s=%s failed: %s' % (var, v, log[-800:]))
        elif rc == 0:
            out.append(Obs(job, 'accepted', 'the build accepted %s=%s' % (var, ascii(v)), {'variable': var, 'value': v}, []))
        elif 'could not compile `matrixmultiply`' not in log:
            raise Inconclusive('build with %s=%s failed elsewhere: %s' % (var, ascii(v), log[-800:]))
        else:
            refused += 1
    ctx.extra['malformed_settings_tried'] = tried
    ctx.extra['malformed_settings_refused_by_build'] = refused
    return out


def c08_features(ctx):
    """every combination of features compiles"""
    import itertools, threading, glob, shutil
    combos = []
    for t in itertools.product((0, 1), repeat=4):
        f = [x for x, y in zip(('std', 'threading', 'cgemm', 'constconf'), t) if y]
        combos.append(','.join(f))
    lanes = [combos[i::4] for i in range(4)]
    res, mu = [], threading.Lock()

    def lane(i):
        d = os.path.join(B.TARGET, 'features-%d' % i)
        os.makedirs(d, exist_ok=True)
        with B.lock(os.path.join(d, '.mmlock')):
            for pat in ('matrixmultiply-*', 'mmcheck-*', 'mmcore-*'):
                for q in glob.glob(os.path.join(d, '**', '.fingerprint', pat), recursive=True):
                    shutil.rmtree(q, ignore_errors=True)
            for f in lanes[i]:
                for args in ([], ['--target-dir-release']):
                    e = B.clean_env()
                    e['RUSTUP_TOOLCHAIN'] = B.STABLE
                    cmd = ['cargo', 'check', '--offline', '--no-default-features', '--features', f, '--target-dir', d] + (['--release'] if args else [])
                    rc, log = B.run_cargo(cmd, e)
                    with mu:
                        res.append((f, bool(args), rc, log))
    ts = [threading.Thread(target=lane, args=(i,)) for i in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    out = []
    for f, rel, rc, log in res:
        if rc == 0:
            continue
        if 'could not compile `matrixmultiply`' not in log:
            raise Inconclusive('check of features "%s" failed elsewhere: %s' % (f, log[-800:]))
        m = __import__('re').search(r'error.*', log)
        out.append(Obs(Job(CFGS['best'], 'build', ['*'], label='features'), 'build', 'the crate does not compile with features "%s"%s: %s' % (f, ' in release mode' if rel else '', m.group(0) if m else log[-300:]), {'features': f}, []))
    ctx.extra['feature_combinations_compiled'] = len(res)
    return out


def c16(ctx):
    n = ctx.n
    K = ['hash', 'hang:*', 'crash:*', 'panic', 'result']
    g = Groups(ctx, 'hash', norm=False)
    js = []
    for k, cnt in [('best', 1600), ('sse2', 640), ('none', 640), ('avx', 640)]:
        c = n(cnt)
        js += g.add(k, k, 'hist', c, K, 'in order')
        js += g.add(k, k, 'hist', c, K, 'reverse order, other process', order='rev', shards=4)
        js += g.add(k, k, 'hist', c, K, 'random order, other layouts and placements', order='shuf', relayout=1)
        js += g.add(k, k, 'hist', c, K, 'other layouts, plain allocator', relayout=2, hostile=0)
        if k == 'best':
            js += g.add(k, k, 'hist', c // 2, K, 'every call on a new thread', fresh=1)
            js += g.add(k, k, 'hist', c // 4, K, 'every call on a new thread, random order', fresh=1, order='shuf', relayout=3, shards=4)
            js += g.add(k, k, 'hist', c, K, 'other layouts', relayout=4)
            js += g.add(k, k, 'hist', c // 2, K, 'while a thread ends', fresh=2)
            js += g.add(k, k, 'hist', c // 2, K, 'on threads with a small stack', fresh=3)
            js += g.add(k, k, 'hist', c // 2, K, 'anywhere, after many calls', fresh=4, warm=3000, again=2, shards=4)
            js += g.add(k, k, 'hist', c // 4, K, 'after very many calls', warm=70000, shards=4)
            js += g.add(k, k, 'hist', c // 2, K, 'while a panic unwinds', fresh=5)
            for v in ['1', '3', '0']:
                js += g.add(k, k, 'hist', c // 4, K, 'unrelated environment variables set to ' + v, env={'LD_PRELOAD': B.preload('env'), 'MM_ENV_ANSWER': v}, shards=2)
    js.insert(0, many(ctx, 'best', K, calls=n(17000000)))
    js.insert(0, many(ctx, 'best', K, short=n(70000)))
    js += [many(ctx, 'best', K, t='1', calls=n(3000000), callers=3), many(ctx, 'nostd', K, short=n(20000)), many(ctx, 'nothread', K, calls=n(3000000))]
    for k in ['nostd', 'fma']:
        c = n(640)
        js += g.add(k, k, 'hist', c, K, 'in order', again=2)
        js += g.add(k, k, 'hist', c, K, 'random order, other layouts', order='shuf', relayout=5, fresh=4)
    return js, g.post


# instruction sets as in gate.rs
AVX, FMA, AVX2 = 1 << 5, 1 << 6, 1 << 7
NATIVE = 0b11111 | AVX | FMA | AVX2 | 1 << 9 | 1 << 8 | 1 << 11


def c17(ctx):
    K = ['gate', 'gate-unused', 'gate-crash', 'result', 'crash:*', 'hang:*', 'panic']
    js = []
    for cfg in ['best', 'nothread', 'minimal']:
        for i in range(8):
            js.append(Job(CFGS[cfg], 'gate', K, env={'MATMUL_NUM_THREADS': '1'}, seed=ctx.seed, shard=i, shards=8, random=(13 if cfg == 'best' else 5) * (1 if not ctx.deep else 12), label='%s/gate#%d' % (cfg, i), timeout=800 if not ctx.deep else 7200))
    js.append(Job(CFGS['nostd'], 'gate', K, seed=ctx.seed, dynamic=0, base=0, random=0, shard=0, shards=4, label='nostd/gate'))
    for cfg, base in [('nostd-native', NATIVE), ('native', NATIVE), ('nostd-avx', 0b11111 | AVX), ('nostd-fma', 0b11111 | AVX | FMA)]:
        js.append(Job(CFGS[cfg], 'gate', K, env={'MATMUL_NUM_THREADS': '1'}, seed=ctx.seed, dynamic=0, base=base, random=0, shard=0, shards=4, label='%s/gate' % cfg))
    return js, None


def c18(ctx):
    n = ctx.n
    K = VALUE + ['miri:*', 'gap', 'undef', 'nonfinite', 'build', 'margin-c', 'margin-ab']
    js = []
    for cfg, w in [('miri-aarch64', 3), ('miri-i686', 1), ('miri-s390x', 1)]:
        for prof, cnt in [('foot', 40), ('bz', 24), ('scal', 24), ('empty', 24), ('nonfin', 24)]:
            js += miri(ctx, cfg, prof, n(cnt * w, 8), K, shards=1 if w == 1 else 2)
        js += miri(ctx, cfg, 'exh', n(120 * w, 8), K, shards=2 if w == 1 else 4)
    for cfg in ['miri-i686-avx2', 'miri-i686-avx']:
        js += miri(ctx, cfg, 'foot', n(24, 8), K, shards=1)
        js += miri(ctx, cfg, 'exh', n(48, 8), K, shards=1)
    A64 = 'aarch64-unknown-linux-gnu'
    c = miri_cc('miri-a64-tiny', A64)
    js += miri(ctx, c, 'prod', n(48, 8), K, shards=2, cap=6000)
    js.append(miri_conc(ctx, 'miri-aarch64-thread', K, 0))
    js += miri_thr(ctx, A64, n(2, 10), K)
    js.sort(key=lambda j: (j.args.get('profile') == 'mthr', j.args.get('profile') == 'exh', j.args.get('count', 0)), reverse=True)
    return js, None


def c19(ctx):
    n = ctx.n
    js = fuzz(ctx, 'best', 'scal', n(4800), VALUE)
    for k in ['fma', 'avx', 'sse2', 'none', 'nostd-native']:
        js += fuzz(ctx, k, 'scal', n(1600), VALUE)
    for k in ['nothread', 'checked']:
        js += fuzz(ctx, k, 'scal', n(800), VALUE)
    c = cc('tiny', **TINY)
    js += fuzz(ctx, c, 'scal', n(1600), VALUE, cap=3000000)
    js += fuzz(ctx, 'best', 'thr', n(400), VALUE)
    return js, None


PLANS = {'C%02d' % i: globals()['c%02d' % i] for i in range(1, 20)}


def setup_cfgs():
    class X:
        tier, seed, deep, tmp = 'quick', 1, False, '/tmp'
    ctx = Ctx('quick', 1, '/tmp')
    seen = {}
    for f in PLANS.values():
        js, _ = f(ctx)
        for j in js:
            seen[j.cfg.name] = j.cfg
    return list(seen.values())
