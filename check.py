#!/usr/bin/env python3
"""check.py <property> [--replay FILE] | check.py --setup

Decides one property: builds the configurations it needs from /repo's working tree, produces the executions its plan
asks for, and lets the monitors judge them.  Exit 0: held on everything observed.  Exit 1: VIOLATION.  Exit 2: no answer.
"""
import json, os, re, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import build as B
import checks
from build import BuildFailed, Inconclusive, ROOT
from run import Runner, Job, Obs

LEVEL = {'C13': 'fault_enumeration'}
RULE = {
    'gen': 'cases are drawn from VERIF_SEED by the profile named in each job (dimensions around every tile and block size, layouts, scalars, contents); non-trivial: a distinct (configuration shard, type, dimensions, strides, scalars, sharing) with m, n > 0 whose result was computed and judged',
}


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(ROOT, 'known_findings.txt')) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l.strip())
                if m and m.group(1) == prop:
                    out.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


def merge(dst, src):
    for k, v in src.items():
        if isinstance(v, bool) or k in ('ev', 'next', 'wall', 'fails'):
            continue
        if isinstance(v, int):
            if k.startswith('max'):
                dst[k] = max(dst.get(k, 0), v)
            else:
                dst[k] = dst.get(k, 0) + v
        elif isinstance(v, dict):
            merge(dst.setdefault(k, {}), v)


def write_evidence(prop, ctx, runner, t0, nviol, errs=()):
    tot = {}
    samples = []
    hashes = set()
    percfg = {}
    for j, s in runner.stats:
        merge(tot, s)
        key = j.cfg.name + '/' + j.mode + ('/' + str(j.args['profile']) if 'profile' in j.args and j.mode == 'fuzz' else '') + ('/valgrind' if j.wrap else '')
        percfg[key] = percfg.get(key, 0) + s.get('cases', 0)
        for x in s.get('samples', []):
            if len(samples) < 6 and (len(samples) < 3 or j.cfg.name not in [y.get('config') for y in samples]):
                x = dict(x)
                x['config'] = j.cfg.name
                samples.append(x)
        hashes.update(s.get('orders_hash', []))
        for k in ('peaks', 'profiles'):
            if k in s and len(samples) < 8:
                samples.append({'config': j.cfg.name, k: s[k][:6]})
        if j.mode in ('threads', 'oom', 'refuse', 'resources', 'conc') and len(samples) < 8:
            samples.append({'job': j.label, 'observed': {k: v for k, v in s.items() if k not in ('ev', 'orders_hash', 'peaks')}})
    ev = tot.pop('cases', 0)
    distinct = tot.pop('distinct', 0)
    if prop == 'C10':
        distinct = len(hashes)
        rule = 'one evaluation is one call made while others were in flight; distinct: different orders in which the calls of a round completed (hash of the completion order per round)'
    elif prop == 'C11':
        distinct = sum(1 for j, _ in runner.stats if j.mode == 'threads') + distinct
        rule = 'calls under different values of MATMUL_NUM_THREADS; per (configuration, value) the CPU time of every thread of the process is observed during calls of 9 shapes; distinct: such (configuration, value) pairs plus distinct generated calls'
    elif prop == 'C12':
        distinct += sum(1 for j, _ in runner.stats if j.mode == 'resources')
        rule = 'calls with their allocations booked; working memory against growing dimensions, books and process state before/after thousands of calls; distinct: different generated calls, plus one per (configuration, thread count) workload of repeated calls'
    elif prop == 'C13':
        rule = 'one evaluation is one call in a process of its own with one planned allocation failure (the n-th request, alone or with all later ones, n counted up until no request is left); distinct and non-trivial: the failure fired'
    elif prop == 'C17':
        rule = 'one evaluation is one type on one emulated CPU, single-stepped; distinct: different (CPU profile, type)'
    else:
        rule = RULE['gen']
    cov = {'evaluations': ev, 'distinct_nontrivial': distinct, 'rule': rule, 'samples': samples or [{'note': 'no case completed'}],
           'measured': tot, 'cases_per_job_group': percfg, 'other_observations_not_deciding_this_property': runner.other}
    if hashes:
        cov['distinct_completion_orders'] = len(hashes)
    if ctx.compared:
        cov['result_hashes_compared'] = ctx.compared
    if ctx.extra:
        cov.update(ctx.extra)
    if errs:
        cov['errors'] = [e[:500] for e in errs][:5]
    d = {'property': prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': LEVEL.get(prop, 'exploration'), 'coverage': cov,
         'assumptions': ['held on the executions observed; nothing is claimed about inputs and schedules not produced'], 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(d, f, indent=1)
    os.replace(p + '.tmp', p)


def report(prop, obs, ctx):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, '%s-%d.json' % (prop, n))):
        n += 1
    p = os.path.join(d, '%s-%d.json' % (prop, n))
    j = obs.job
    env = {k: (v if not isinstance(v, bytes) else v.decode('latin1')) for k, v in j.env.items()}
    case = obs.case if isinstance(obs.case, dict) else {}
    argv = list(obs.argv)
    single = None
    if j.mode == 'fuzz' and isinstance(case.get('idx'), int) and j.args.get('order', 'fwd') == 'fwd':
        single = argv + ['--start', str(case['idx']), '--count', '1']
    with open(p, 'w') as f:
        json.dump({'property': prop, 'kind': obs.kind, 'what': obs.detail, 'case': obs.case, 'job': j.label, 'config': j.cfg.name, 'features': j.cfg.features, 'build_env': j.cfg.env, 'rustflags': j.cfg.rustflags, 'seed': ctx.seed, 'tier': ctx.tier,
                   'env': env, 'wrap': j.wrap, 'miriflags': j.miriflags, 'argv': argv, 'argv_single': single,
                   'how': 'python3 check.py %s --replay %s   (rebuilds the configuration and runs argv_single, or argv)' % (prop, p)}, f, indent=1)
    print('observed: [%s] %s: %s' % (j.label, obs.kind, obs.detail))
    if obs.case:
        print('case: ' + json.dumps(obs.case)[:700])
    print('VIOLATION property=%s replay=%s' % (prop, p), flush=True)


def check(prop, tier, seed):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='mmcheck-')
    ctx = checks.Ctx(tier, seed, tmp)
    runner = Runner()
    errs = []
    try:
        jobs, post = checks.PLANS[prop](ctx)
        cfgs = {}
        for j in jobs:
            cfgs.setdefault(j.cfg.name, j.cfg)
        violations = []
        if prop == 'C15':
            violations += checks.c15_malformed(ctx)
        if prop == 'C08':
            violations += checks.c08_features(ctx)
        fails = B.build_all(list(cfgs.values()))
        tb = time.time() - t0
        for name, ex in fails.items():
            j = next(x for x in jobs if x.cfg.name == name)
            if isinstance(ex, BuildFailed) and ex.in_repo and getattr(j.cfg, 'may_refuse', False):
                ctx.extra['inconsistent_settings_refused_by_build'] = ctx.extra.get('inconsistent_settings_refused_by_build', 0) + 1
            elif isinstance(ex, BuildFailed) and ex.in_repo and j.wants('build'):
                violations.append(Obs(j, 'build', 'configuration %s does not compile: %s' % (name, (re.search(r'error.*', ex.log) or [ex.log[-300:]])[0]), None, []))
            else:
                errs.append('%s: %s' % (ex, getattr(ex, 'log', '')[-1500:]))
        ctx.extra['build_s'] = round(tb, 1)
        if not violations:
            jobs = [j for j in jobs if j.cfg.name not in fails]
            runner.run(jobs, tmp, budget=max(120, 850 - tb) if tier == 'quick' else None)
            violations += runner.obs
            if not violations:
                if post:
                    violations += post()
                if prop == 'C15':
                    violations += checks.c15_post(ctx, runner)
        errs += runner.errors
        known = known_findings(prop)
        new = []
        for v in violations:
            if not any(rx.search(v.sig()) for rx, _ in known):
                new.append(v)
        for rx, text in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
        write_evidence(prop, ctx, runner, t0, len(new), errs)
        if new:
            for v in new[:3]:
                report(prop, v, ctx)
            return 1
        if errs:
            for e in errs[:6]:
                print('NO ANSWER: ' + e)
            return 2
        n = sum(s.get('cases', 0) for _, s in runner.stats)
        if n == 0:
            print('NO ANSWER: nothing was observed')
            return 2
        print('%s held on %d executions (%d jobs, build %.0f s, total %.0f s)' % (prop, n, len(runner.stats), tb, time.time() - t0))
        return 0
    finally:
        runner.cleanup()
        shutil.rmtree(tmp, ignore_errors=True)


def replay(prop, path):
    d = json.load(open(path))
    ctx = checks.Ctx(d.get('tier', 'quick'), d.get('seed', 1), tempfile.mkdtemp(prefix='mmreplay-'))
    try:
        jobs, _ = checks.PLANS[prop](ctx)
        j = next((x for x in jobs if x.label == d['job']), None) or next(x for x in jobs if x.cfg.name == d['config'])
        B.build(j.cfg)
        job = Job(j.cfg, j.mode, ['*'], env={k: v for k, v in d['env'].items()}, wrap=d['wrap'], miriflags=d['miriflags'], label=d['job'])
        argv = d.get('argv_single') or d['argv']
        argv = [a for i, a in enumerate(argv) if a != '--hashes' and (i == 0 or argv[i - 1] != '--hashes')]
        job.argv = lambda **k: argv
        job.mode = d['argv'][0] if d['argv'] else j.mode
        r = Runner()
        r.run([job], ctx.tmp)
        for o in r.obs:
            print('observed: %s: %s' % (o.kind, o.detail))
            print('case: %s' % json.dumps(o.case))
        for e in r.errors:
            print('error: ' + e)
        for _, s in r.stats:
            print(json.dumps(s)[:600])
        return 1 if r.obs else 0
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)


def main():
    if sys.argv[1] == '--setup':
        t0 = time.time()
        errs = B.build_all(checks.setup_cfgs(), par=6)
        for k, e in errs.items():
            print('setup: %s: %s' % (k, e), getattr(e, 'log', '')[-1500:])
        ctx = checks.Ctx('quick', 1, '/tmp')
        try:
            checks.c15_malformed(ctx)
            checks.c08_features(ctx)
        except Inconclusive as ex:
            print('setup: %s' % ex)
        print('setup done in %.0f s' % (time.time() - t0))
        return 0
    prop = sys.argv[1]
    if '--replay' in sys.argv:
        return replay(prop, sys.argv[sys.argv.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        return check(prop, tier if tier in ('quick', 'thorough') else 'quick', seed)
    except Inconclusive as ex:
        print('NO ANSWER: %s' % ex)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
