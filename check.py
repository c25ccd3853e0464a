#!/usr/bin/env python3
"""check.py <ID> | --replay FILE | --setup | --list

Decides one property by generated-input search: builds the harness binaries the property needs against
/repo/include, runs their generators (random histories, exhaustive small states, all throw points), replays and
reports the first reproducible violation, and writes evidence/<ID>.json.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), VERIF_REPO (default /repo).
Exit: 0 held on everything explored, 1 violation, 2 the check could not run."""
import sys, os, re, json, time, hashlib, subprocess, threading, shutil, array, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
from spec import SPECS, RULES, TITLES  # noqa
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
HDIR = os.path.join(HERE, 'harness')
EN = ['copy', 'nmove', 'tmove', 'monly', 'int', 'uchar', 'big', 'str', 'pod', 'tmonly', 'nmta', 'tmna', 'tasg', 'long']
AN = ['stateful', 'minimal', 'fancy', 'std']
NCPU = min(8, os.cpu_count() or 4)
lock = threading.Lock()

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'include'), HDIR):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.pyc') or f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode()); h.update(b'\0')
                h.update(open(p, 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    return h.hexdigest()[:20]

class BuildError(Exception):
    pass

def run_cc(cmd, what):
    r = subprocess.run(cmd, cwd=HDIR, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    if r.returncode:
        raise BuildError(what + '\n' + ' '.join(cmd) + '\n' + r.stdout[-6000:])

def atomic(out, f):
    if os.path.exists(out):
        return
    tmp = '%s.tmp%d.%d' % (out, os.getpid(), threading.get_ident())
    f(tmp)
    os.rename(tmp, out)

objlocks = {}
def objlock(name):
    with lock:
        return objlocks.setdefault(name, threading.Lock())

SAN = {'': [], 'asan': ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
       'tsan': ['-fsanitize=thread'], 'fuzz': ['-fsanitize=fuzzer,address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=undefined']}

def cfgname(c):
    """c: dict(kind, cont, elem, alloc, std, debug, cc, san)"""
    return '%s_%s_%s_%s_%s%s%s%s' % (c['kind'], 'so' if c['cont'] else 'cb', c['elem'], c['alloc'], c['std'],
                                  '_dbg' if c['debug'] else '', '_' + c['cc'] if c['cc'] != 'g++' else '', '_' + c['san'] if c['san'] else '')

def build(c, key):
    d = os.path.join(BUILD, key)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, cfgname(c))
    if os.path.exists(out):
        return out
    san = SAN[c['san']]
    opt = ['-O1', '-g1', '-w']
    if c['kind'] == 'exec':
        objs = []
        for src in ('engine', 'profiles'):
            if c['san'] == 'fuzz':
                o = os.path.join(d, src + '_fuzz.o'); cc = 'clang++'; fl = ['-DCBV_FUZZ', '-fsanitize=address', '-O1']
            else:
                o = os.path.join(d, src + '.o'); cc = 'g++'; fl = ['-O2' if src == 'engine' else '-O0']
            with objlock(o):
                atomic(o, lambda t: run_cc([cc, '-std=c++17', '-w', '-c', src + '.cpp', '-o', t] + fl, src))
            objs.append(o)
        xo = out + '.o'
        fl = ['-std=c++' + c['std'], '-I' + os.path.join(REPO, 'include'), '-I.', '-DCONT=%d' % c['cont'],
              '-DELEM=%d' % EN.index(c['elem']), '-DALLOC=%d' % AN.index(c['alloc']),
              '-DCBV_ELEMNAME="%s"' % c['elem'], '-DCBV_ALLOCNAME="%s"' % c['alloc'], '-DCBV_STDNAME="%s"' % c['std'], '-DCBV_CCNAME="%s"' % c['cc']]
        if c['debug']:
            fl.append('-DCBV_DEBUG')
        atomic(xo, lambda t: run_cc([c['cc']] + opt + fl + san + ['-c', 'exec.cpp', '-o', t], cfgname(c)))
        atomic(out, lambda t: run_cc([c['cc']] + objs + [xo, '-o', t] + san, cfgname(c) + ' link'))
        os.unlink(xo)
    else:
        fl = ['-std=c++' + c['std'], '-I' + os.path.join(REPO, 'include'), '-I.', '-DCONT=%d' % c['cont'],
              '-DELEMNAME=E_%s' % c['elem'].upper(), '-DCBV_CFG="%s"' % cfgname(c)]
        if c['debug']:
            fl.append('-DCBV_DEBUG')
        atomic(out, lambda t: run_cc([c['cc']] + opt + fl + san + [c['kind'] + '.cpp', '-o', t, '-lpthread'], cfgname(c)))
    return out

# ------------------------------------------------------------------ running
def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, ''

def prune(key):
    """keep the builds of the last few trees only"""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d != key]
        now = time.time()
        for d in ds:  # leftovers of interrupted runs
            if os.path.basename(d).startswith('run-') and now - os.path.getmtime(d) > 7200:
                shutil.rmtree(d, ignore_errors=True)
        ds = sorted((d for d in ds if not os.path.basename(d).startswith('run-') and os.path.isdir(d)), key=os.path.getmtime)
        for d in ds[:-6]:
            if now - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.key = tree_hash()
        self.results, self.errors, self.violations, self.notes = [], [], [], []
        self.stop = threading.Event()
        prune(self.key)
        self.out = os.path.join(HERE, 'replays')
        os.makedirs(self.out, exist_ok=True)
        self.tmp = os.path.join(BUILD, 'run-%s-%d' % (pid, os.getpid()))
        os.makedirs(self.tmp, exist_ok=True)

    def run(self):
        spec = SPECS[self.pid](self.tier)
        if 'arch' in spec:
            return self.run_arch(spec)
        # build every configuration, then run its jobs; one pool for both
        import queue
        q = queue.PriorityQueue()
        n = 0
        groups = {}
        for cfg, job in spec['jobs']:
            groups.setdefault(cfgname(cfg), (cfg, []))[1].append(job)
        for i, (name, (cfg, jobs)) in enumerate(groups.items()):
            q.put((0, i, 'build', cfg, jobs)); n += 1
        self.pending = n
        cond = threading.Condition()
        seq = [10000]

        def worker():
            while True:
                with cond:
                    while q.empty() and self.pending > 0:
                        cond.wait(1)
                    if self.pending == 0:
                        return
                    item = q.get()
                new = []
                try:
                    if not self.stop.is_set():
                        if item[2] == 'build':
                            cfg, jobs = item[3], item[4]
                            try:
                                b = build(cfg, self.key)
                                for j in jobs:
                                    new.append((cfg, b, j))
                            except (BuildError, subprocess.TimeoutExpired) as e:
                                self.build_failed(cfg, str(e), spec)
                        else:
                            self.job(*item[3:])
                except Exception as e:  # a defect of the check itself
                    with lock:
                        self.errors.append('%s: %r' % (item[2], e))
                with cond:
                    for x in new:
                        seq[0] += 1
                        q.put((1, seq[0], 'job') + x)
                    self.pending += len(new) - 1
                    cond.notify_all()
        ths = [threading.Thread(target=worker) for _ in range(NCPU)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return self.finish(spec)

    def run_arch(self, spec):
        """generated programs: each is compiled against the tree and run (harness/arch.py)"""
        import arch, random
        n, budget = spec['arch']
        it = iter(range(n)); end = self.t0 + budget
        st = {'units': 0, 'family': 0, 'hashes': {}, 'ops': {}, 'samples': [], 'per': {}}

        def one(i):
            s = (self.seed * 1000003 + i * 7919) % (1 << 40)
            r = random.Random(s); p = arch.gen_prog(r, s, i)
            tag = 'p%d' % i
            try:
                f = arch.execute(p, REPO, HDIR, self.tmp, tag)
            except RuntimeError as e:
                with lock:
                    self.notes.append('not compiled: %s' % e)
                return
            cfg = ' '.join(p.args())
            with lock:
                d = st['per'].setdefault(cfg, {'rand': {'cases': 0, 'nontrivial': 0}})['rand']
                for u in p.units:
                    st['units'] += 1; d['cases'] += 1
                    for o in u[2]:
                        st['ops'][o] = st['ops'].get(o, 0) + 1
                for u in arch.nontrivial(p):
                    d['nontrivial'] += 1; st['family'] += 1
                    st['hashes'].setdefault(cfg, set()).add(hash(repr((sorted(u[0][1]) if u[0][0] == 'gen' else u[0], u[1], u[2]))))
                if len(st['samples']) < 6 and i % 5 == 1:
                    st['samples'].append({'config': cfg, 'mode': 'rand', 'case': p.text()[:3000]})
            if not f or self.stop.is_set():
                return
            if f[0] == 'timeout':  # a loaded machine is not a defect: only a program that never finishes is
                f = arch.execute(p, REPO, HDIR, self.tmp, tag + 'b', 400)
            for k in range(2):
                g = arch.execute(p, REPO, HDIR, self.tmp, tag + 'c%d' % k, 400) if f else None
                f = f if g and g[0] == f[0] else None
            if not f:
                with lock:
                    self.notes.append('a failure did not reproduce and was dropped: program %d' % i)
                return
            if f[0] == 'compile' and (p.std < 17 or p.flags) and arch.execute(arch.plain(p), REPO, HDIR, self.tmp, tag + 'p', 400):
                with lock:  # nothing compiles in this setting: not a matter of the element type
                    self.notes.append('not usable with: ' + cfg)
                return
            with lock:
                if self.stop.is_set():
                    return
                self.stop.set()
            p, f = arch.shrink(p, f, REPO, HDIR, self.tmp, tag + 's')
            dst = os.path.join(self.out, '%s-%s.cpp' % (self.pid, hashlib.sha256(p.text().encode()).hexdigest()[:10]))
            open(dst, 'w').write(arch.replay_text(self.pid, p, f))
            with lock:
                self.violations.append((dst, '%s: %s' % f, p.text()))

        def worker():
            while not self.stop.is_set() and time.time() < end:
                with lock:
                    i = next(it, None)
                if i is None:
                    return
                try:
                    one(i)
                except RuntimeError as e:
                    with lock:
                        self.notes.append('not compiled: %s' % e)
                except Exception as e:
                    with lock:
                        self.errors.append('program %d: %r' % (i, e))
        ths = [threading.Thread(target=worker) for _ in range(NCPU)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for cfg, m in st['per'].items():
            self.results.append({'cfg': cfg, 'mode': 'rand', 'cases': m['rand']['cases'], 'nontrivial': m['rand']['nontrivial'], 'family_cases': m['rand']['nontrivial'], 'throws': 0,
                                 'ops': {}, 'samples': [], 'found': [], 'broke': 0, 'complete': 0, 'hashes': st['hashes'].get(cfg, ())})
        if self.results:
            self.results[0]['ops'] = st['ops']
        self.extra_samples = st['samples']
        return self.finish(spec)

    def build_failed(self, cfg, msg, spec):
        name = cfgname(cfg)
        log('build failed:', name, msg[-1500:])
        must = spec.get('must_build')
        if must and must(cfg):
            p = os.path.join(self.out, '%s-build-%s.log' % (self.pid, name))
            open(p, 'w').write('# ' + self.pid + ': this configuration must compile and no longer does\n' + msg)
            with lock:
                self.notes.append('must-build failure: ' + name)
                self.violations.append((p, 'documented use no longer compiles: ' + name, 'build'))
        else:
            with lock:
                self.notes.append('configuration not built: ' + name)

    def job(self, cfg, binp, j):
        seed = (self.seed * 1000003 + int(hashlib.sha256((cfgname(cfg) + j['mode']).encode()).hexdigest()[:8], 16)) % (1 << 48)
        st = os.path.join(self.tmp, '%s-%s-%s.json' % (cfgname(cfg), j['mode'], j.get('shard', '0/1').replace('/', 'of')))
        if j['mode'] == 'fuzz':
            return self.fuzz_job(cfg, binp, j, seed)
        cmd = [binp, '--profile', j.get('profile', self.pid), '--mode', j['mode'], '--seed', str(seed), '--cases', str(j['cases']), '--time', str(j['time']),
               '--maxcap', str(j.get('maxcap', 4)), '--shard', j.get('shard', '0/1'), '--out', self.tmp, '--stats', st] + j.get('args', [])
        t = time.time()
        rc, _ = sh(cmd, j['time'] + 120)
        if not os.path.exists(st):
            with lock:
                self.errors.append('no result from %s (rc %s)' % (' '.join(cmd), rc))
            return
        d = json.load(open(st))
        d['cfg'] = cfgname(cfg); d['wall'] = round(time.time() - t, 2)
        hs = array.array('Q')
        if os.path.exists(st + '.hash'):
            hs.frombytes(open(st + '.hash', 'rb').read()); os.unlink(st + '.hash')
        d['hashes'] = hs
        with lock:
            self.results.append(d)
        for f in d['found']:
            if f['mine']:
                self.confirm(cfg, binp, j, f)

    def confirm(self, cfg, binp, j, f):
        ok = 0
        for _ in range(3):
            rc, o = sh([binp, '--profile', j.get('profile', self.pid), '--replay', f['path']] + j.get('args', []), 120)
            if rc == 1:
                ok += 1
        if ok < 3 and not (j.get('racy') and ok >= 1):
            with lock:
                self.notes.append('a failure did not reproduce (%d of 3) and was dropped: %s %s' % (ok, f['tag'], f['msg'][:200]))
            return
        dst = os.path.join(self.out, '%s-%s-%s.case' % (self.pid, cfgname(cfg), hashlib.sha256(open(f['path'], 'rb').read()).hexdigest()[:10]))
        txt = open(f['path']).read()
        open(dst, 'w').write('# property %s\nbuild %s\nprofile %s\nargs %s\n' % (self.pid, json.dumps(cfg), j.get('profile', self.pid), json.dumps(j.get('args', []))) + txt)
        with lock:
            self.violations.append((dst, '%s: %s: %s' % (f['tag'], f['op'], f['msg']), f.get('text', '')))
        self.stop.set()

    def fuzz_job(self, cfg, binp, j, seed):
        """coverage-guided search; a failing input is converted to a case and judged (and shrunk) by the plain engine"""
        name = '%s-%s' % (cfgname(cfg), j.get('shard', '0/1').replace('/', 'of'))
        corpus = os.path.join(self.tmp, 'corpus-' + cfgname(cfg)); os.makedirs(corpus, exist_ok=True)
        env = dict(os.environ, CBV_PROFILE=j.get('profile', self.pid), ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
        pre = os.path.join(self.tmp, 'art-%s-' % name)
        left, execs, cov, rnd, t = j['time'], 0, 0, 0, time.time()
        while left > 1 and not self.stop.is_set() and rnd < 6:
            p = subprocess.run([binp, corpus, '-seed=%d' % ((seed + rnd) % 2000000000 + 1), '-max_total_time=%d' % left, '-max_len=400', '-timeout=25', '-rss_limit_mb=3000', '-print_final_stats=1',
                                '-artifact_prefix=' + pre], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', timeout=left + 120)
            m = re.search(r'stat::number_of_executed_units:\s*(\d+)', p.stderr); cv = re.findall(r'cov: (\d+)', p.stderr)
            execs += int(m.group(1)) if m else 0; cov = max(cov, int(cv[-1]) if cv else 0); rnd += 1
            arts = [os.path.join(self.tmp, f) for f in os.listdir(self.tmp) if os.path.join(self.tmp, f).startswith(pre)]
            for a in arts:
                case = a + '.case'
                subprocess.run([binp, a], env=dict(env, CBV_CASE=case), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                os.rename(a, os.path.join(self.tmp, 'old-' + os.path.basename(a)))
                hit = False
                for c2 in (dict(cfg, san='', cc='g++'), dict(cfg, san='asan', cc='g++')):
                    b2 = build(c2, self.key); st = case + '.json'
                    sh([b2, '--profile', j.get('profile', self.pid), '--case', case, '--out', self.tmp, '--stats', st], 120)
                    for f in (json.load(open(st))['found'] if os.path.exists(st) else []):
                        if f['mine']:
                            self.confirm(c2, b2, j, f); hit = True
                    if hit:
                        break
                if not hit:
                    with lock:
                        self.notes.append('libFuzzer stopped on an input that violates nothing this property states: ' + ' '.join(p.stderr[-300:].split()))
            if not arts:
                break
            left = j['time'] - (time.time() - t)
        with lock:
            self.results.append({'cfg': cfgname(cfg), 'mode': 'fuzz', 'cases': execs, 'nontrivial': 0, 'family_cases': 0, 'throws': 0, 'ops': {}, 'samples': [],
                                 'found': [], 'broke': 0, 'complete': 0, 'hashes': array.array('Q'), 'cov': cov, 'wall': j['time']})

    def finish(self, spec):
        ev, fam, nt, thr = 0, 0, 0, 0
        per = {}; ops = {}; hashes = {}; samples = []
        for d in self.results:
            ev += d['cases']; fam += d['family_cases']; nt += d['nontrivial']; thr += d['throws']
            p = per.setdefault(d['cfg'], {})
            q = p.setdefault(d['mode'], {'cases': 0, 'nontrivial': 0, 'exhausted': True})
            q['cases'] += d['cases']; q['nontrivial'] += d['nontrivial']; q['exhausted'] = q['exhausted'] and bool(d['complete'])
            if 'cov' in d:
                q['coverage_edges'] = max(q.get('coverage_edges', 0), d['cov'])
            if not d['mode'].startswith('enum'):
                q.pop('exhausted', None)
            for k, v in d['ops'].items():
                ops[k] = ops.get(k, 0) + v
            hashes.setdefault(d['cfg'], set()).update(d['hashes'])
            if d['broke']:
                self.notes.append('run cut short by the memory guard: ' + d['cfg'])
            for s in d['samples'][:2]:
                if len(samples) < 6:
                    samples.append({'config': d['cfg'], 'mode': d['mode'], 'case': s})
        samples = getattr(self, 'extra_samples', samples)
        distinct = sum(len(s) for s in hashes.values())
        if not self.results and not self.violations:
            self.errors.append('nothing was explored')
        evd = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': spec['level'],
            'coverage': {
                'evaluations': ev, 'distinct_nontrivial': distinct,
                'rule': RULES[self.pid],
                'samples': samples or ['none'],
                'cases_with_a_relevant_operation': fam, 'nontrivial_cases_counted': nt, 'injected_exceptions_thrown': thr,
                'operations_executed': dict(sorted(ops.items())),
                'configurations': per,
            },
            'assumptions': spec.get('assumptions', []),
            'notes': self.notes,
            'wall_s': round(time.time() - self.t0, 1),
            'violations': len(self.violations),
            'violation_details': [{'replay': v[0], 'what': v[1][:1500], 'case': v[2][:4000]} for v in self.violations],
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        p = os.path.join(HERE, 'evidence', self.pid + '.json')
        json.dump(evd, open(p + '.tmp', 'w'), indent=1)
        os.rename(p + '.tmp', p)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for line in self.known():
            print(line)
        for e in self.errors:
            log('check error:', e)
        log('%s: %d cases, %d distinct non-trivial, %.1f s' % (self.pid, ev, distinct, time.time() - self.t0))
        if self.violations:
            for v in self.violations[:3]:
                log('  ' + v[1])
                print('VIOLATION property=%s replay=%s' % (self.pid, v[0]), flush=True)
            return 1
        return 2 if self.errors else 0

    def known(self):
        # recorded, unrepaired findings of this property (none: all defects found were repaired)
        p = os.path.join(HERE, 'known_findings.txt')
        r = []
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'finding: property=(\S+) (.*)', l)
                if m and m.group(1) == self.pid:
                    r.append('KNOWN-FINDING: property=%s %s' % (self.pid, m.group(2).strip()))
        return r

def replay(path):
    if path.endswith('.cpp'):
        import arch, tempfile
        with tempfile.TemporaryDirectory() as d:
            return arch.replay(path, REPO, HDIR, d)
    cfg = prof = None; args = []
    for l in open(path):
        if l.startswith('build '):
            cfg = json.loads(l[6:])
        elif l.startswith('profile ') and prof is None:
            prof = l.split()[1]
        elif l.startswith('args '):
            args = json.loads(l[5:])
    if not cfg:
        print(open(path).read()); return 1
    b = build(cfg, tree_hash())
    r = subprocess.run([b, '--profile', prof, '--trace', '--replay', path] + args)
    return r.returncode

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    if sys.argv[1] == '--list':
        for k in sorted(SPECS): print(k, TITLES.get(k, ''))
        return 0
    if sys.argv[1] == '--setup':
        for t in ('g++', 'clang++'):
            subprocess.check_call([t, '--version'], stdout=subprocess.DEVNULL)
        os.makedirs(BUILD, exist_ok=True)
        print('setup ok'); return 0
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    return Check(pid, tier, seed).run()

if __name__ == '__main__':
    sys.exit(main())
