"""Common machinery of the checks: runs TLC (exhaustive runs, behaviour generation, trace validation), runs drivers,
confirms rejections, filters known findings, writes evidence and replay files."""
import concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
VERIF = vbuild.VERIF
SPECS = os.path.join(VERIF, 'specs')
JAR = '/opt/veriftools/tla/tla2tools.jar'
def _cp():
    c = [JAR]
    d = os.path.dirname(JAR)
    for f in sorted(os.listdir(d)):
        if f.endswith('.jar') and f != os.path.basename(JAR): c.append(os.path.join(d, f))
    return ':'.join(c)
CP = _cp()
NCPU = os.cpu_count() or 4

class CheckError(Exception): pass

def run_tlc(module, cfg, workdir, env=None, workers=1, extra=(), timeout=600, heap='2g', post=True):
    meta = tempfile.mkdtemp(prefix='tlc-', dir=workdir)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4',
           '-Djava.io.tmpdir=' + meta, '-Dtlc2.tool.impl.Tool.cdot=true', '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-lncheck', 'final', '-config', cfg] + list(extra) + [module]
    e = dict(os.environ); e.pop('JAVA_TOOL_OPTIONS', None); e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b''
        out, rc = (o.decode('utf8', 'replace') if isinstance(o, bytes) else o), -9
    shutil.rmtree(meta, ignore_errors=True)
    out = '\n'.join(x for x in out.split('\n') if not x.startswith(('Parsing file', 'Semantic processing', 'Linting of', 'Computed ')))
    st = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    n = lambda s: int(s.replace(',', ''))
    return {'rc': rc, 'out': out, 'generated': n(st[-1][0]) if st else 0, 'distinct': n(st[-1][1]) if st else 0, 'wall': time.time() - t0}

class Check:
    """One property's check.  parts append their counts to self.cov."""
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        try: self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        except ValueError: self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.states = self.trans = self.traces = self.events = 0
        self.samples, self.models, self.binds, self.viol, self.known_hit = [], [], [], [], []
        self.assumptions = []
        self.exhaustive_models = True
        self.opcounts = {}
        d = os.path.join(vbuild.BUILD, 'work'); os.makedirs(d, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + '-', dir=d)
        self.known = []
        kf = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(kf):
            for ln in open(kf):
                if ln.startswith('known: '):
                    k = json.loads(ln[7:])
                    if k['property'] == pid: self.known.append(k)
    def rng(self, salt=''):
        return random.Random('%s/%s/%s' % (self.seed, self.pid, salt))
    # ---- exhaustive model checking
    def model(self, module, cfg=None, workers=4, timeout=600, **kw):
        cfg = cfg or module + '.cfg'
        r = run_tlc(module, cfg, self.work, workers=workers, timeout=timeout, **kw)
        if r['rc'] == -9 and 'timeout_ok' in kw: pass
        if r['rc'] != 0 or 'No error has been found' not in r['out']:
            raise CheckError('the model %s/%s does not check (rc %s):\n%s' % (module, cfg, r['rc'], r['out'][-3000:]))
        self.states += r['distinct']; self.trans += r['generated']
        self.models.append({'model': module, 'config': cfg, 'distinct_states': r['distinct'], 'states_generated': r['generated'], 'wall_s': round(r['wall'], 1)})
        return r
    def models_parallel(self, lst):
        with concurrent.futures.ThreadPoolExecutor(max(1, NCPU // 2)) as ex:
            fs = [ex.submit(self.model, m, c, 2) for m, c in lst]
            for f in fs: f.result()
    def behaviours(self, module, cfg, env=None, num=None, depth=None, timeout=300, workers=1):
        """Behaviours generated from the model: every line the model prints as ["BHV", json]."""
        extra = []
        if num: extra = ['-simulate', 'num=%d' % num, '-depth', str(depth or 20), '-seed', str(self.seed)]
        r = run_tlc(module, cfg, self.work, env=env, workers=workers, extra=extra, timeout=timeout)
        if r['rc'] not in (0,) :
            raise CheckError('generating behaviours from %s failed (rc %s):\n%s' % (module, r['rc'], r['out'][-3000:]))
        res = []
        for ln in r['out'].split('\n'):
            if ln.startswith('<<"BHV", '):
                res.append(json.loads(json.loads(ln[len('<<"BHV", '):-2])))
        self.states += r['distinct']; self.trans += r['generated']
        self.models.append({'model': module, 'config': cfg, 'distinct_states': r['distinct'], 'states_generated': r['generated'], 'behaviours': len(res), 'wall_s': round(r['wall'], 1)})
        if not res: raise CheckError('%s generated no behaviour:\n%s' % (module, r['out'][-2000:]))
        return res
    # ---- driving the code
    def run_driver(self, binary, scenarios, tag, shards=None, env=None, timeout=800, args=()):
        """scenarios: list of (id, [lines]).  Returns the list of trace files (one per shard)."""
        shards = max(1, min(shards or NCPU, len(scenarios)))
        d = os.path.join(self.work, tag); os.makedirs(d, exist_ok=True)
        groups = [scenarios[i::shards] for i in range(shards)]
        def one(i):
            sf, tf = os.path.join(d, '%d.scr' % i), os.path.join(d, '%d.ndjson' % i)
            with open(sf, 'w') as f:
                for sid, lines in groups[i]:
                    f.write('scn %s\n' % sid); f.write('\n'.join(lines) + '\n')
            e = dict(os.environ); e.update(env or {})
            try:
                r = subprocess.run([binary, sf, tf, d] + list(args), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError('driver %s timed out' % binary)
            if r.returncode: raise CheckError('driver %s ended with %d: %s' % (binary, r.returncode, r.stdout[-500:]))
            return tf
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            return list(ex.map(one, range(shards)))
    def validate(self, module, traces, cfg=None, env=None, heap='3g', timeout=800):
        """Runs the trace specification over each trace file.  Returns (accepted ids, [(id, event index in scenario, event)])."""
        cfg = cfg or 'Trace.cfg'
        def one(tf):
            e = {'TRACE': tf}; e.update(env or {})
            r = run_tlc(module, cfg, self.work, env=e, heap=heap, timeout=timeout)
            m = re.findall(r'^<<"RESULT", "(.*)">>$', r['out'], re.M)
            if not m:
                raise CheckError('trace validation %s failed to run (rc %s):\n%s' % (module, r['rc'], r['out'][-3500:]))
            res = json.loads(json.loads('"' + m[-1] + '"'))
            ev = [json.loads(x) for x in open(tf)]
            acc, rej = [], []
            for q in res:
                first, last, top = q['first'], q['last'], q['top']
                sid = ev[first - 1]['id']
                self.events += last - first + 1
                for k in ev[first:last]: self.opcounts[k['op']] = self.opcounts.get(k['op'], 0) + 1
                if top > last: acc.append(sid)
                else: rej.append((sid, top - first, ev[top - 1], ev[first - 1:last]))
            return acc, rej, r
        acc, rej = [], []
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for a, b, r in ex.map(one, traces):
                acc += a; rej += b
                self.states += r['distinct']; self.trans += r['generated']
        return acc, rej
    # ---- a binding: scenarios -> driver -> traces -> specification
    def bind(self, name, binary, scenarios, module, cfg=None, env=None, denv=None, sig=None, confirm=True, shards=None, heap='3g'):
        """sig(event, scenario_events, lines) -> string naming the rejected behaviour, matched against known findings.
        Scenarios with a known finding are to be generated so that one scenario shows one finding."""
        byid = dict(scenarios)
        if len(byid) != len(scenarios): raise CheckError('duplicate scenario ids in ' + name)
        t0 = time.time(); e0 = self.events
        tr = self.run_driver(binary, scenarios, name, shards, env=denv)
        t1 = time.time()
        acc, rej = self.validate(module, tr, cfg, env, heap=heap)
        if len(acc) + len(rej) != len(scenarios): raise CheckError('%s: %d scenarios, %d answers' % (name, len(scenarios), len(acc) + len(rej)))
        if rej and confirm:
            per, ids = {}, []
            for q in sorted(rej, key=lambda q: str(q[0])):       # a few of every kind
                k = sig(q[2], q[3][:q[1]], byid[q[0]]) if sig else q[2].get('op', '?')
                per[k] = per.get(k, 0) + 1
                if per[k] <= 8 and len(ids) < 160 and q[0] not in ids: ids.append(q[0])
            again = [(sid, byid[sid]) for sid in ids]
            tr2 = self.run_driver(binary, again, name + '-again', min(NCPU, len(again)), env=denv)
            _, rej2 = self.validate(module, tr2, cfg, env, heap=heap)
            bad = dict((r[0], r) for r in rej2)
            rej = [bad[sid] for sid, _ in again if sid in bad]
        self.traces += len(acc) + len(rej)
        for sid, k, ev, evs in rej:
            s = sig(ev, evs[:k], byid[sid]) if sig else ev.get('op', '?')
            kn = [x for x in self.known if re.fullmatch(x['signature'], s)]
            if kn: self.known_hit.append((kn[0], sid)); continue
            self.violation(name, sid, byid[sid], {'driver': os.path.basename(binary), 'spec': module, 'rejected_event_number': k, 'rejected_event': ev, 'signature': s,
                                                  'accepted_prefix_tail': evs[max(0, k - 5):k]})
        if scenarios:
            sid, lines = scenarios[len(scenarios) // 2]
            self.samples.append({'binding': name, 'scenario': sid, 'script': [x[:200] for x in lines[:14]]})
        self.binds.append({'binding': name, 'spec': module, 'scenarios': len(scenarios), 'accepted': len(acc), 'rejected': len(rej), 'events': self.events - e0, 'driver_s': round(t1 - t0, 1), 'tlc_s': round(time.time() - t1, 1)})
    def violation(self, name, sid, lines, info):
        d = os.path.join(VERIF, 'build', 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s-%s.json' % (self.pid, name, re.sub(r'[^A-Za-z0-9_.-]', '_', str(sid))[:60]))
        info = dict(info); info.update({'property': self.pid, 'binding': name, 'scenario': sid, 'script': lines, 'tier': self.tier, 'seed': self.seed})
        with open(p, 'w') as f: json.dump(info, f, indent=1)
        self.viol.append((p, info))
    def finish(self):
        for k in self.known:
            hits = [s for kk, s in self.known_hit if kk is k]
            if hits or k.get('always'): print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        cov = {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces, 'trace_events': self.events,
               'samples': self.samples[:12] or ['none'], 'models': self.models, 'bindings': self.binds, 'events_by_kind': self.opcounts,
               'known_findings_seen': len(self.known_hit)}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for p, info in self.viol[:20]:
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            print('   %s: scenario %s: event %s: %s' % (info['binding'], info['scenario'], info.get('rejected_event_number'), json.dumps(info.get('rejected_event'))[:600]))
        print('%s %s: %d model states, %d traces (%d events) validated, %d violations, %.1f s' % (self.pid, self.tier, self.states, self.traces, self.events, len(self.viol), time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.viol else 0

def main(pid, fn, level='model_checking'):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except (CheckError, vbuild.BuildError) as x:
        print('ERROR %s: %s' % (pid, x)); rc = 1 if c.viol else 2
        if c.viol: c.finish()
        shutil.rmtree(c.work, ignore_errors=True)
    except Exception:
        traceback.print_exc(); rc = 2
        shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)
