"""Check framework: runs TLC, runs the code under test in worker processes,
collects coverage, writes evidence and prints the verdict.  Standard library only."""
import json, os, re, random, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 2)


class HarnessError(Exception):
    pass


class TlcResult:
    pass


class Check:
    def __init__(self, pid, tier, seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.rng = random.Random('%s-%s-%d' % (pid, tier, seed))
        self.work = tempfile.mkdtemp(prefix='vt_%s_' % pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.observations = 0
        self.kinds = {}
        self.samples, self.parts, self.violations = [], [], []
        self.assumptions = []
        self.n = 0
        self.lock = threading.Lock()

    # ------------------------------------------------------------------ TLC
    def overrides(self):
        """compiles spec/Rat.java (unbounded integers for Rat.tla) into the work directory"""
        d = os.path.join(self.work, 'java')
        with self.lock:
            if not os.path.isdir(d):
                os.makedirs(d)
                p = subprocess.run(['javac', '-cp', JAR, '-d', d, os.path.join(SPEC, 'Rat.java')], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    raise HarnessError('javac: ' + p.stdout[-2000:])
        return ':' + d

    def tlc(self, module, cfg, env=None, workers=None, timeout=800, args=()):
        with self.lock:
            self.n += 1
            tag = '%s_%d' % (module, self.n)
        cfgf = os.path.join(self.work, tag + '.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        meta = os.path.join(self.work, 'meta_' + tag)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx6g', '-Xss64m', '-Djava.io.tmpdir=' + self.work, '-cp', JAR + self.overrides(), 'tlc2.TLC',
               '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers or NCPU),
               '-deadlock', '-config', cfgf] + list(args) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        outf = os.path.join(self.work, tag + '.out')
        with open(outf, 'w') as fo:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -9
        shutil.rmtree(meta, ignore_errors=True)
        r = TlcResult()
        r.rc, r.outf = rc, outf
        r.generated = r.distinct = 0
        r.lines, r.err = [], []
        with open(outf, errors='replace') as f:
            for line in f:
                if line.startswith('"'):
                    try:
                        r.lines.append(json.loads(line))
                    except ValueError:
                        r.err.append(line.rstrip())
                    continue
                m = re.match(r'(\d+) states generated, (\d+) distinct', line)
                if m:
                    r.generated, r.distinct = int(m.group(1)), int(m.group(2))
                m = re.match(r'The number of states generated: (\d+)', line)
                if m and not r.generated:
                    r.generated = int(m.group(1))
                if rc not in (0,) and len(r.err) < 150 and not re.match(
                        'Progress|Parsing|Semantic|Linting|Computed|Running|Starting|Loading', line):
                    r.err.append(line.rstrip())
        return r

    def model(self, module, cfg, env=None, what='', workers=None, timeout=800, args=(), need=1):
        """A model-checking run whose failure is a defect of the specification (or of its
        property), never of the code: it stops the check as a harness error."""
        t = time.time()
        r = self.tlc(module, cfg, env, workers, timeout, args)
        if r.rc != 0:
            raise HarnessError('model %s: TLC exit %s\n%s' % (module, r.rc, '\n'.join((r.err[:40] + r.err[-110:]))))
        if r.distinct < need and '-simulate' not in args:
            raise HarnessError('model %s explored only %d states' % (module, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append(dict(part='model ' + module, what=what, distinct_states=r.distinct,
                               states_generated=r.generated, wall_s=round(time.time() - t, 1)))
        return r

    # ------------------------------------------------- execution of real code
    def execute(self, adapter, jobs, per_job=20, timeout=800, nproc=None):
        """Run jobs (list of dict) through lib/<adapter>.py in parallel worker processes."""
        t = time.time()
        jobs = list(jobs)
        for i, j in enumerate(jobs):
            j['id'] = i
        n = max(1, min(nproc or NCPU, (len(jobs) + 3) // 4))
        self.n += 1
        chunks = [jobs[i::n] for i in range(n)]
        outs = []
        env = dict(os.environ)
        env.update(PYTHONPATH=os.pathsep.join([os.path.join(REPO, 'src'), os.path.join(VERIF, 'lib')]),
                   PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(self.work, 'pyc'),
                   PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(self.work, 'mpl'),
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONWARNINGS='ignore')
        os.makedirs(os.path.join(self.work, 'mpl'), exist_ok=True)
        deadline = time.time() + timeout

        def one(k):
            inf = os.path.join(self.work, 'job_%d_%d.in' % (self.n, k))
            ouf = os.path.join(self.work, 'job_%d_%d.out' % (self.n, k))
            with open(inf, 'w') as f:
                for j in chunks[k]:
                    f.write(json.dumps(j) + '\n')
            done, crashes = {}, 0
            todo = chunks[k]
            while True:
                with open(ouf + '.log', 'a') as lf:
                    try:
                        subprocess.run([PY, os.path.join(VERIF, 'lib', 'exec_main.py'), adapter, inf, ouf, str(per_job)],
                                       env=env, cwd=self.work, stdout=lf, stderr=lf,
                                       timeout=max(5, deadline - time.time()))
                    except subprocess.TimeoutExpired:
                        pass
                if os.path.exists(ouf):
                    for line in open(ouf):
                        try:
                            d = json.loads(line)
                            done[d['id']] = d
                        except ValueError:
                            pass
                left = [j for j in todo if j['id'] not in done]
                if not left:
                    break
                # the worker died (hard crash or time): blame the first unfinished job
                crashes += 1
                log = open(ouf + '.log', errors='replace').read()[-2000:]
                done[left[0]['id']] = dict(id=left[0]['id'], crash='worker ended: ' + log[-400:])
                left = left[1:]
                if crashes > 5 or time.time() > deadline:
                    for j in left:
                        done[j['id']] = dict(id=j['id'], crash='not run: ' + log[-400:])
                    break
                todo = left
                with open(inf, 'w') as f:
                    for j in left:
                        f.write(json.dumps(j) + '\n')
                if not left:
                    break
            return done

        res = {}
        with ThreadPoolExecutor(n) as ex:
            for d in ex.map(one, range(n)):
                res.update(d)
        self.parts.append(dict(part='execute ' + adapter, jobs=len(jobs), wall_s=round(time.time() - t, 1)))
        return [res[i] for i in range(len(jobs))]

    # ----------------------------------------------------- trace validation
    def validate(self, module, adapter, jobs, traces, what='', timeout=800, cfg=None, chunk=4000, workers=None,
                 env=None, par=1):
        """Check recorded traces against a trace specification.  A trace is a dict with
        init, steps; every mismatch is a violation."""
        t = time.time()
        good = []
        for tr in traces:
            if 'crash' in tr:
                self.violation(adapter, module, jobs[tr['id']], 'code under test did not finish: ' + tr['crash'])
            else:
                good.append(tr)
        nobs = 0
        found = []
        parts = [good[i:i + chunk] for i in range(0, len(good), chunk)]

        def one(part):
            if len(found) >= 3:      # enough located; the rest of a failing batch need not be taken apart
                return ()
            r = run(part)
            # an evaluation error on recorded observations is located, and reported as a violation
            if r[2].rc not in (0, -9, 137, -15):
                if len(part) == 1:
                    found.append(1)
                    return [part, r[1], r[2], culprit(r[2].err)],
                h = len(part) // 2
                return one(part[:h]) + one(part[h:])
            return (r + [None],)

        def culprit(err):
            k = [i for i, x in enumerate(err) if 'Error:' in x or 'ERROR' in x]
            return ' '.join(err[k[0]:k[0] + 14])[:1500] if k else '\n'.join(err[-60:])[-1500:]

        def run(part):
            with self.lock:
                self.n += 1
                tag = self.n
            tf = os.path.join(self.work, 'traces_%d.ndjson' % tag)
            want = 0
            with open(tf, 'w') as f:
                for tr in part:
                    f.write(json.dumps(tr) + '\n')
                    want += len(tr['steps']) + 1
            e = dict(TRACES=tf)
            e.update(env or {})
            r = self.tlc(module, cfg or 'SPECIFICATION Spec\nVIEW View\n', e, workers or max(1, NCPU // par), timeout)
            os.unlink(tf)
            return [part, want, r]

        with ThreadPoolExecutor(par) as ex:
            results = [x for y in ex.map(one, parts) for x in y]
        for part, want, r, culprit in results:
            bad = {}
            for line in r.lines:
                if isinstance(line, str) and line.startswith('MISMATCH '):
                    d = json.loads(line[9:])
                    bad[d['id']] = d
            if culprit and not bad:
                i = part[0]['id']
                bad[i] = dict(id=i, bad=['the recorded observations have no meaning in the specification: ' + culprit])
            elif r.rc != 0:
                raise HarnessError('%s: TLC exit %s\n%s' % (module, r.rc, '\n'.join((r.err[:40] + r.err[-110:]))))
            if not bad and r.distinct != want:
                raise HarnessError('%s consumed %d of %d trace states' % (module, r.distinct, want))
            for i, d in bad.items():
                self.violation(adapter, module, jobs[i], d)
            self.transitions += r.generated
            self.states += r.distinct
            self.traces += len(part) - len(bad)
            nobs += sum(len(s.get('qs', [])) + 1 for tr in part for s in tr['steps'])
        self.observations += nobs
        for tr in good:
            for s in tr['steps']:
                for n, d in [('operation', s.get('op'))] + [('query', q.get('q')) for q in s.get('qs', [])]:
                    if isinstance(d, dict):
                        k = str(d.get('o') if n == 'operation' else d.get('q', d.get('k', d.get('o'))))
                        k = k + '/' + str(d['k']) if n == 'operation' and 'k' in d and isinstance(d['k'], str) else k
                        self.kinds.setdefault(n, {})[k] = self.kinds.setdefault(n, {}).get(k, 0) + 1
        if good and len(self.samples) < 4:
            s = json.dumps(jobs[good[len(good) // 2]['id']])
            self.samples.append(s if len(s) < 1500 else s[:1500] + '...')
        self.parts.append(dict(part='validate ' + module, what=what, traces=len(good), observations=nobs,
                               wall_s=round(time.time() - t, 1)))

    # -------------------------------------------------------------- verdict
    def violation(self, adapter, module, job, detail, key=None):
        self.violations.append(dict(adapter=adapter, module=module, job=job, detail=detail, key=key))

    def finish(self, level='model_checking'):
        known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)) if k.get('property') == self.pid and k.get('status') == 'known']
        new, seen = [], {}
        for v in self.violations:
            hit = None
            for k in known:
                if v['key'] is not None and v['key'] == k['key']:
                    hit = k
            if hit:
                seen[hit['key']] = hit
            else:
                new.append(v)
        for k in seen.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                observations_compared=self.observations, kinds=self.kinds,
                                samples=self.samples or ['none'], parts=self.parts),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(new))
        evd = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if new:
            rc = 1
            rd = os.path.join(evd, 'replay')
            os.makedirs(rd, exist_ok=True)
            new.sort(key=lambda v: len(json.dumps(v['job'])))
            if os.environ.get('VT_ALL'):
                json.dump(new, open(os.environ['VT_ALL'], 'w'))
            for i, v in enumerate(new[:3]):
                p = os.path.join(rd, '%s_%s_%d.json' % (self.pid, self.tier, i))
                with open(p, 'w') as f:
                    json.dump(v, f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
                print('   ' + json.dumps(v['detail'])[:600])
            if len(new) > 3:
                print('   (%d violating cases in all)' % len(new))
        else:
            print('OK property=%s tier=%s states=%d transitions=%d traces=%d observations=%d wall=%.1fs' % (
                self.pid, self.tier, self.states, self.transitions, self.traces, self.observations,
                time.time() - self.t0))
        return rc

    def cleanup(self):
        if os.environ.get('VT_KEEP'):
            print('work dir kept:', self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)
