"""Runs jobs (one process each) under watch and collects what they report."""
import fnmatch, json, mmap, os, re, signal, struct, subprocess, tempfile, threading, time
from build import Cfg, clean_env, Inconclusive, ROOT

TICK = os.sysconf('SC_CLK_TCK')


class Job:
    def __init__(self, cfg, mode, kinds, env=None, wrap=None, miriflags='', timeout=600, weight=1, label='', slow=1, **args):
        self.cfg = cfg
        self.mode = mode
        self.args = {k.replace('_', '-'): v for k, v in args.items()}
        # what counts as a violation of the property: patterns over the kinds of observations
        self.kinds = list(kinds)
        self.env = dict(env or {})
        self.wrap = wrap
        self.miriflags = miriflags
        self.timeout = timeout
        self.weight = weight
        self.slow = slow
        self.label = label or '%s/%s%s' % (cfg.name, mode, '/' + str(args['profile']) if 'profile' in args else '')

    def argv(self, **over):
        a = dict(self.args)
        a.update(over)
        out = [self.mode]
        for k, v in a.items():
            out += ['--' + k, str(v)]
        if self.cfg.blk and 'blk' not in a:
            out += ['--blk', self.cfg.blk]
        if self.mode == 'fuzz':
            ks = [k for k in self.kinds if not any(c in k for c in '*:')]
            if '*' not in self.kinds and ks:
                out += ['--kinds', ','.join(ks)]
        return out

    def wants(self, kind):
        return any(fnmatch.fnmatchcase(kind, p) for p in self.kinds)

    def command(self, argv, log):
        env = clean_env()
        # a fixed number of threads unless the job says otherwise
        env['MATMUL_NUM_THREADS'] = '4'
        env.update(self.env)
        for k in [k for k, v in env.items() if v is None]:
            del env[k]
        if self.cfg.miri:
            e = self.cfg.cargo_env()
            e.update({k: v for k, v in self.env.items() if v is not None})
            e['MATMUL_NUM_THREADS'] = env.get('MATMUL_NUM_THREADS', '4')
            e['MIRIFLAGS'] = ('-Zmiri-disable-isolation ' + self.miriflags).strip()
            return ['cargo', 'miri', 'run', '-q'] + self.cfg.cargo_args() + ['--'] + argv, e, os.path.join(ROOT, 'harness/bin')
        cmd = [self.cfg.bin] + argv
        if self.wrap == 'valgrind':
            cmd = ['valgrind', '--tool=memcheck', '--leak-check=no', '--num-callers=8', '--error-limit=no', '--max-stackframe=200000000',
                   '--track-origins=no', '--log-file=' + log] + cmd
        if self.cfg.name == 'asan':
            env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0:log_path=' + log
        if self.cfg.name == 'tsan':
            env['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:handle_segv=0:handle_abort=0:log_path=' + log
        return cmd, env, ROOT


class Obs:
    """One observation that may violate a property."""
    def __init__(self, job, kind, detail, case, argv):
        self.job, self.kind, self.detail, self.case, self.argv = job, kind, detail, case, argv

    def sig(self):
        return '%s %s %s %s' % (self.job.label, self.kind, self.detail, json.dumps(self.case, sort_keys=True))


def proc_cpu(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            v = f.read().rsplit(')', 1)[1].split()
        return (int(v[11]) + int(v[12])) / TICK
    except (OSError, IndexError, ValueError):
        return None


def all_asleep(pid):
    try:
        for t in os.listdir('/proc/%d/task' % pid):
            with open('/proc/%d/task/%s/stat' % (pid, t)) as f:
                if f.read().rsplit(')', 1)[1].split()[0] != 'S':
                    return False
        return True
    except OSError:
        return False


class Runner:
    def __init__(self, slots=8):
        self.slots = slots
        self.stop = threading.Event()
        self.procs = set()
        self.mu = threading.Lock()
        self.obs = []          # wanted observations
        self.other = {}        # kinds seen but not decided by this property
        self.stats = []        # (job, stats dict)
        self.errors = []
        self.deadline = None

    # -- one process
    def _spawn(self, job, argv):
        d = tempfile.mkdtemp(prefix='mm', dir=self.tmp)
        heart = os.path.join(d, 'heart')
        with open(heart, 'wb') as f:
            f.write(b'\0' * 4096)
        log = os.path.join(d, 'log')
        cmd, env, cwd = job.command(argv, log)
        if not job.cfg.miri:
            env['MM_HEART'] = heart
        out, err = open(os.path.join(d, 'out'), 'wb'), open(os.path.join(d, 'err'), 'wb')
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=out, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
        with self.mu:
            self.procs.add(p)
        return p, d, heart, log

    def _kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def _watch(self, job, p, heart):
        """Waits; returns None, or why it was ended: 'stop', 'timeout', 'deadlock', 'endless'"""
        t0 = time.time()
        with open(heart, 'rb') as f:
            page = mmap.mmap(f.fileno(), 4096, prot=mmap.PROT_READ)
        last, since, cpu0 = None, time.time(), 0.0
        asleep_since = None
        slow = job.slow * (40 if job.wrap else (12 if job.cfg.name in ('tsan', 'asan') else 1))
        while True:
            try:
                p.wait(timeout=0.1 if time.time() - t0 < 2 else 0.4)
                return None
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if self.stop.is_set():
                self._kill(p)
                p.wait()
                return 'stop'
            if now - t0 > job.timeout or (self.deadline and now > self.deadline):
                self._kill(p)
                p.wait()
                return 'timeout'
            if job.cfg.miri:
                continue
            beat, case, inside = struct.unpack('QQQ', page[:24])
            cpu = proc_cpu(p.pid)
            if cpu is None:
                continue
            if beat != last or inside == 0:
                last, since, cpu0, asleep_since = beat, now, cpu, None
                continue
            # in a call, and no call ended or began since `since`
            if all_asleep(p.pid) and cpu - cpu0 < 60:
                if asleep_since is None:
                    asleep_since = (now, cpu)
                elif cpu - asleep_since[1] > 0.5:
                    asleep_since = (now, cpu)
                elif now - asleep_since[0] > 25:
                    self._kill(p)
                    p.wait()
                    return 'deadlock'
            else:
                asleep_since = None
            if cpu - cpu0 > 90 * slow:
                self._kill(p)
                p.wait()
                return 'endless'

    def _read(self, d, name):
        try:
            with open(os.path.join(d, name), 'rb') as f:
                return f.read().decode('utf-8', 'replace')
        except OSError:
            return ''

    def _logs(self, d):
        s = ''
        for f in sorted(os.listdir(d)):
            if f.startswith('log'):
                s += self._read(d, f)
        return s

    def note(self, job, kind, detail, case, argv):
        with self.mu:
            if job.wants(kind):
                self.obs.append(Obs(job, kind, detail, case, argv))
                return True
            self.other[kind] = self.other.get(kind, 0) + 1
            return False

    def run_job(self, job, depth=0, **over):
        argv = job.argv(**over)
        p, d, heart, log = self._spawn(job, argv)
        t0 = time.time()
        end = self._watch(job, p, heart)
        if os.environ.get('VERIF_DEBUG'):
            print('%7.1f s  %s' % (time.time() - t0, job.label), flush=True)
        with self.mu:
            self.procs.discard(p)
        out, err = self._read(d, 'out'), self._read(d, 'err')
        case = struct.unpack('Q', open(heart, 'rb').read(16)[8:16])[0]
        if end == 'stop':
            return
        fails, stats, crash, last, foreign = [], None, None, None, None
        for l in out.splitlines():
            if not l.startswith('{"ev":'):
                at = l.find('{"ev":')
                foreign = foreign or l[:at if at >= 0 else None][:200]
                if at < 0:
                    continue
                l = l[at:]
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j['ev'] == 'FAIL':
                fails.append(j)
            elif j['ev'] == 'STATS':
                stats = j
            elif j['ev'] == 'CRASH':
                crash = j
            elif j['ev'] == 'CASE':
                last = j['case']
        hit = False
        for f in fails:
            k = f['kind']
            if k == 'harness':
                self.errors.append('%s: harness: %s' % (job.label, f['detail']))
                continue
            if k == 'vg':
                continue
            hit |= self.note(job, k, f['detail'], f.get('case'), argv)
        logs = self._logs(d)
        if job.wrap == 'valgrind' and logs:
            hit |= self._valgrind(job, logs, fails, argv)
        if job.cfg.name == 'asan' and 'ERROR: AddressSanitizer' in logs:
            m = re.search(r'ERROR: AddressSanitizer: (.*)', logs)
            hit |= self.note(job, 'asan', m.group(1)[:200] + ' ' + frames(logs), {'idx': case}, argv)
        if job.cfg.name == 'tsan' and 'WARNING: ThreadSanitizer' in logs:
            for rep in logs.split('==================\n'):
                m = re.search(r'WARNING: ThreadSanitizer: (.*?) \(pid', rep)
                if m:
                    hit |= self.note(job, 'tsan', m.group(1) + ' ' + frames(rep), {'idx': case}, argv)
                    break
        if end in ('deadlock', 'endless'):
            hit |= self.note(job, 'hang:' + end, 'a call did not return: %s' % ('all threads of the process sleep, without any CPU time used' if end == 'deadlock' else 'CPU time limit for a single call exceeded'), {'idx': case}, argv)
        elif end == 'timeout':
            self.errors.append('%s: timed out' % job.label)
        elif job.cfg.miri:
            if p.returncode != 0:
                hit |= self._miri(job, err, last, argv)
        elif crash is not None:
            k = 'crash:%s:%s' % (crash['region'], {0: 'r', 1: 'w'}.get(crash['write'], '-')) if crash['signal'] in (11, 7) else 'crash:signal%d:-' % crash['signal']
            hit |= self.note(job, k, 'signal %d, %s access to %s' % (crash['signal'], {0: 'read', 1: 'write'}.get(crash['write'], 'unknown'), crash['region']), {'idx': crash['case']}, argv)
            self._continue(job, crash['case'], over, hit, depth)
        elif p.returncode == -9:
            self.errors.append('%s: killed (memory?)' % job.label)
        elif p.returncode != 0 and not (job.cfg.name == 'asan' and 'ERROR: AddressSanitizer' in logs):
            if p.returncode == 101 or 'harness panic' in err:
                self.errors.append('%s: harness failed: %s' % (job.label, err[-600:]))
            else:
                hit |= self.note(job, 'crash:exit%d:-' % p.returncode, 'the process ended abnormally: %s' % err[-300:], {'idx': case}, argv)
        elif stats is None:
            self.errors.append('%s: no statistics: %s' % (job.label, (out + err)[-300:]))
        # nothing but the harness writes to the standard streams
        if p.returncode == 0 and not job.cfg.miri and not job.wrap and job.cfg.name not in ('tsan', 'asan') and not fails and (foreign or err.strip()):
            hit |= self.note(job, 'output', 'the library wrote to standard %s: %s' % ('output' if foreign else 'error', (foreign or err)[:200]), {'idx': case}, argv)
        if stats is not None:
            with self.mu:
                self.stats.append((job, stats))
        if hit:
            self.stop.set()

    def _continue(self, job, case, over, hit, depth):
        """after a crash that this property does not decide, go on with the next case"""
        if hit or job.mode != 'fuzz' or self.stop.is_set() or depth >= 60:
            return
        start = int(over.get('start', job.args.get('start', 0)))
        step = int(job.args.get('step', 1))
        count = int(over.get('count', job.args.get('count', 1000)))
        if job.args.get('order', 'fwd') != 'fwd' or case < start or case > 1 << 40:
            return
        done = (case - start) // step + 1
        if done < count:
            self.run_job(job, depth + 1, start=start + done * step, count=count - done)

    def _valgrind(self, job, log, fails, argv):
        hit = False
        vg = [f for f in fails if f['kind'] == 'vg']
        case = vg[0]['case'] if vg else None
        kinds = []
        for pat, k in (('Invalid read', 'vg:read'), ('Invalid write', 'vg:write'), ('uninitialised', 'vg:uninit'), ('Invalid free', 'vg:free'), ('Mismatched free', 'vg:free')):
            m = re.search(r'==\d+== ' + ('.*' if k == 'vg:uninit' else '') + pat + r'[^\n]*\n((?:==\d+==    .*\n)*)', log)
            if m and vg:
                kinds.append((k, re.sub(r'==\d+==\s*', ' ', m.group(0))[:700]))
        for k, det in kinds:
            hit |= self.note(job, k, det, case, argv)
        if vg and not kinds:
            hit |= self.note(job, 'vg:other', vg[0]['detail'], case, argv)
        return hit

    def _miri(self, job, err, last, argv):
        m = re.search(r'error: Undefined Behavior: (.*)', err)
        loc = re.findall(r'--> (\S+)', err)
        loc = loc[0] if loc else ''
        if m:
            t = m.group(1)
            k = 'miri:ub'
            if 'uninitialized' in t:
                k = 'miri:uninit'
            elif 'Data race' in t:
                k = 'miri:race'
            return self.note(job, k, t[:300] + ' at ' + loc, last, argv)
        if 'memory leaked' in err:
            return self.note(job, 'miri:leak', 'memory leaked', last, argv)
        if 'the evaluated program deadlocked' in err:
            return self.note(job, 'miri:deadlock', 'deadlock', last, argv)
        m = re.search(r'error: (abnormal termination|.*alignment.*)', err)
        if m and 'unsupported' not in err:
            return self.note(job, 'miri:ub', m.group(1), last, argv)
        self.errors.append('%s: Miri: %s' % (job.label, err[-800:]))
        return False

    # -- many
    def run(self, jobs, tmp, budget=None):
        self.tmp = tmp
        if budget:
            self.deadline = time.time() + budget
        q = list(jobs)
        cond = threading.Condition()
        free = [self.slots]
        ths = []

        def one(j):
            try:
                if not self.stop.is_set():
                    self.run_job(j)
            except Exception as ex:
                self.errors.append('%s: %r' % (j.label, ex))
            finally:
                with cond:
                    free[0] += j.weight
                    cond.notify_all()
        for j in q:
            w = min(j.weight, self.slots)
            j.weight = w
            with cond:
                while free[0] < w:
                    cond.wait()
                free[0] -= w
            if self.stop.is_set():
                with cond:
                    free[0] += w
                break
            t = threading.Thread(target=one, args=(j,))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()

    def cleanup(self):
        self.stop.set()
        with self.mu:
            for p in list(self.procs):
                self._kill(p)


def frames(rep):
    fr = re.findall(r'#\d+ (?:0x[0-9a-f]+ in )?(\S.*?) (\S+:\d+)', rep)
    fr = [f for f in fr if 'rustlib' not in f[1]]
    return ' <- '.join('%s (%s)' % (a[:60], os.path.basename(b)) for a, b in fr[:5])
