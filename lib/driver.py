"""Hypothesis driver: shards, budgets, evidence, replay.  Never imports dill."""
import os, sys, json, time, hashlib, subprocess, tempfile, shutil, traceback, importlib, collections, signal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(ROOT, 'lib')
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')

class Violation(Exception):
    pass
class HarnessError(Exception):
    pass
class Skip(Exception):
    """The case turned out to lie outside of the domain (counted)."""

class BadProgram(Skip):
    """The generated program itself does not run: counted, and an error if there are many."""

class Zygote:
    def __init__(self, mods=('vlib', 'vdesc'), env=None, pythonpath=()):
        self.base = tempfile.mkdtemp(prefix='vz.')
        self.mods = list(mods)
        self.extra = list(pythonpath)
        self.env = env or {}
        self.p = None
    def start(self):
        e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
             'PYTHONPATH': ':'.join(self.extra + [REPO, LIB]), 'TMPDIR': self.base, 'HOME': self.base,
             'VERIF_DILL': os.path.realpath(self.extra[0] if self.extra else REPO), 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}
        e.update(self.env)
        self.errf = open(os.path.join(self.base, 'stderr'), 'wb')
        self.p = subprocess.Popen([PY, '-c', 'import zygote; zygote.main(%r, %r)' % (self.base, self.mods)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=e, cwd=self.base)
    def call(self, mod, fn, cpu=60, wall=90, **args):
        """Returns the value; raises Violation for crashes and hangs of the child, HarnessError for its errors."""
        r = self.raw(mod, fn, cpu, wall, args)
        if 'ok' in r: return r['ok']
        if 'violation' in r: raise Violation(r['violation'])
        if 'died' in r: raise Violation('the process died: ' + r['died'])
        if 'blocked' in r: raise Violation('blocked for ever: ' + r['blocked'])
        if 'timeout' in r: raise HarnessError('timeout: ' + r['timeout'])
        if 'GenError' in r['err']: 
            e = BadProgram('bad program'); e.text = r['err']; raise e
        raise HarnessError(r['err'])
    def raw(self, mod, fn, cpu, wall, args):
        if self.p is None: self.start()
        try:
            self.p.stdin.write(json.dumps({'mod': mod, 'fn': fn, 'args': args, 'cpu': cpu, 'wall': wall}).encode() + b'\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = b''
        if not line:
            self.errf.flush()
            err = open(os.path.join(self.base, 'stderr'), 'rb').read().decode(errors='replace')
            self.close()
            raise HarnessError('the zygote ended: ' + err[-3000:])
        return json.loads(line)
    def close(self):
        if self.p is not None:
            try: self.p.stdin.close()
            except OSError: pass
            try: self.p.wait(5)
            except Exception: self.p.kill(); self.p.wait()
            self.p.stdout.close()
            self.p = None
        shutil.rmtree(self.base, ignore_errors=True)

class Ctx:
    """What a property module's run() gets: zygotes on demand, classification, known findings."""
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.zy = {}
        self.labels = collections.Counter()
        self.known = load_known(prop)
        self.hit = collections.Counter()
    def zygote(self, key='z', **kw):
        z = self.zy.get(key)
        if z is None or z.p is None:
            if z is not None: shutil.rmtree(z.base, ignore_errors=True)
            z = self.zy[key] = Zygote(**kw)
            z.start()
        return z
    def label(self, *names):
        for n in names: self.cur.add(n)
    def nontrivial(self, flag=True):
        if flag: self.nt = True
    def fail(self, msg, key=None):
        """key identifies a known finding by its input class/call site."""
        if key is not None and key in self.known:
            self.hit[key] += 1
            return
        raise Violation(msg)
    def begin(self):
        self.cur, self.nt = set(), False
    def close(self):
        for z in self.zy.values(): z.close()

def load_known(prop):
    out = {}
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        for f in json.load(open(p))['findings']:
            if f['property'] == prop: out[f['key']] = f
    return out

def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')

def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:20]

def run_shard(prop, tier, seed, shard, nshards, outfile):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 60
    mod = importlib.import_module('props.' + prop.lower())
    budget = mod.BUDGET[tier]
    ctx = Ctx(prop, tier)
    stats = dict(evaluations=0, skipped=0, nontrivial=[], labels=collections.Counter(), samples=[], fail=None, error=None, bad=0)
    seen_nt = set()
    t0 = time.monotonic()
    limit = budget['seconds']
    state = dict(first=None, best=None)

    def one(case):
        if state['first'] is None and time.monotonic() - t0 > limit:
            stats['out_of_time'] = True
            return
        if state['first'] is None:
            stats['evaluations'] += 1
        ctx.begin()
        try:
            mod.run(case, ctx)
        except Skip as e:
            if type(e) is BadProgram: stats['bad'] += 1; stats.setdefault('badtext', e.text[-1500:])
            stats['skipped'] += 1
            stats['labels']['skip:' + str(e)] += 1
            return
        except Violation as e:
            if state['first'] is None:
                state['first'] = case
            n = len(json.dumps(case))
            state['best'] = (case, str(e))
            write_out(outfile + '.fail', dict(case=case, message=str(e)))
            raise
        except HarnessError as e:
            if state['first'] is not None:
                return                      # while shrinking: not a reproduction
            stats['error'] = str(e) + '\ncase: ' + json.dumps(case)[:4000]
            write_out(outfile, stats)
            ctx.close()
            os._exit(0)
        if state['first'] is None:
            for l in ctx.cur: stats['labels'][l] += 1
            if ctx.nt:
                h = case_hash(case)
                if h not in seen_nt:
                    seen_nt.add(h)
                    if len(stats['samples']) < 3 and len(json.dumps(case)) < 1800: stats['samples'].append(case)

    n = budget['cases']
    enum_cases = list(mod.enumerate_cases(tier)) if hasattr(mod, 'enumerate_cases') else []
    try:
        for i, case in enumerate(enum_cases):
            if i % nshards == shard: one(case)
        if n:
            strat = mod.cases(tier)
            @hypothesis.seed(seed_of(seed, prop, shard))
            @settings(max_examples=max(1, n // nshards), deadline=None, database=None, derandomize=False,
                      suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False,
                      phases=[Phase.generate, Phase.shrink])
            @given(strat)
            def test(case): one(case)
            test()
    except Violation:
        pass
    except BaseException as e:
        if state['best'] is None:
            stats['error'] = traceback.format_exc()[-5000:]
    if state['best'] is not None:
        case, msg = state['best']
        try:
            if hasattr(mod, 'minimize'): case, msg = mod.minimize(case, msg, ctx)
        except Exception: pass
        stats['fail'] = dict(case=case, message=msg)
    if stats['bad'] > 10 + stats['evaluations'] // 20 and not stats['fail']:
        stats['error'] = '%d of %d generated programs do not run, e.g. %s' % (stats['bad'], stats['evaluations'], stats['badtext'])
    stats['nontrivial'] = sorted(seen_nt)
    stats['known'] = dict(ctx.hit)
    ctx.close()
    write_out(outfile, stats)

def write_out(path, obj):
    with open(path + '.tmp', 'w') as f: json.dump(obj, f)
    os.replace(path + '.tmp', path)

def replay(prop, path):
    mod = importlib.import_module('props.' + prop.lower())
    d = json.load(open(path))
    ctx = Ctx(prop, 'quick'); ctx.begin()
    try:
        mod.run(d['case'], ctx)
    except Violation as e:
        print(str(e)); print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    except Skip as e:
        print('outside of the domain: %s' % e)
    finally:
        ctx.close()
    for k in ctx.hit: print('KNOWN-FINDING: property=%s %s' % (prop, ctx.known[k]['what']))
    print('the property holds for this case')
    return 0

def main(argv):
    prop, tier = argv[0], 'quick'
    if len(argv) > 1 and argv[1] == '--replay': return replay(prop, argv[2])
    if len(argv) > 1: tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('props.' + prop.lower())
    nshards = int(os.environ.get('VERIF_SHARDS', getattr(mod, 'SHARDS', 8)))
    t0 = time.monotonic()
    work = tempfile.mkdtemp(prefix='vc.%s.' % prop)
    procs = []
    try:
        for s in range(nshards):
            of = os.path.join(work, 'shard%d.json' % s)
            env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TMPDIR=work)
            env.pop('PYTHONPATH', None)
            p = subprocess.Popen([sys.executable, os.path.join(ROOT, 'check.py'), '--shard', prop, tier, str(seed), str(s), str(nshards), of],
                                 env=env, stdout=subprocess.DEVNULL, stderr=open(of + '.err', 'wb'), start_new_session=True, cwd=work)
            procs.append((p, of))
        hard = t0 + mod.BUDGET[tier]['seconds'] + 150
        failed_at = None
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.1)
            now = time.monotonic()
            if failed_at is None and any(os.path.exists(of + '.fail') for _, of in procs): failed_at = now
            done_fail = any(p.poll() is not None and os.path.exists(of + '.fail') for p, of in procs)
            if done_fail or now > hard or (failed_at and now > failed_at + 75):
                break
        outs, errors, fails = [], [], []
        for p, of in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait()
            if os.path.exists(of):
                o = json.load(open(of)); outs.append(o)
                if o['fail']: fails.append(o['fail'])
                elif o['error']: errors.append(o['error'])
            elif os.path.exists(of + '.fail'):
                fails.append(json.load(open(of + '.fail')))
            elif failed_at is None:
                errors.append('shard ended without a result: ' + open(of + '.err', errors='replace').read()[-3000:])
    finally:
        for p, _ in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
        shutil.rmtree(work, ignore_errors=True)
    wall = time.monotonic() - t0
    labels = collections.Counter(); known = collections.Counter()
    nt, samples = set(), []
    for o in outs:
        labels.update(o['labels']); known.update(o.get('known', {})); nt.update(o['nontrivial'])
    for i in range(3):
        for o in outs:
            if len(o['samples']) > i and sum(len(json.dumps(x)) for x in samples) < 9000 and len(samples) < 6: samples.append(o['samples'][i])
    cov = dict(evaluations=sum(o['evaluations'] for o in outs), distinct_nontrivial=len(nt), rule=mod.RULE, samples=samples,
               outside_domain=sum(o['skipped'] for o in outs), classes=dict(sorted(labels.items())), shards=nshards,
               stopped_by_time=sum(1 for o in outs if o.get('out_of_time')), known_finding_hits=dict(known))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(fails[:1]))
    if not samples: cov['samples'] = [f['case'] for f in fails[:1]] or ['none']
    if fails:
        f = min(fails, key=lambda f: len(json.dumps(f['case'])))
        rd = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.json' % (prop, case_hash(f['case'])))
        write_out(path, dict(property=prop, case=f['case'], message=f['message']))
        write_out(os.path.join(ROOT, 'evidence', prop + '.json'), ev)
        print(f['message'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('HARNESS ERROR (%d shards): %s' % (len(errors), errors[0]), file=sys.stderr)
        return 2
    kf = load_known(prop)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, kf[k]['what']))
    write_out(os.path.join(ROOT, 'evidence', prop + '.json'), ev)
    print('%s held on %d cases (%d distinct non-trivial), %.1f s' % (prop, cov['evaluations'], cov['distinct_nontrivial'], wall))
    return 0
