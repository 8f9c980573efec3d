"""Common machinery of the checks: builds a driver from /repo's working tree, runs it, lets TLC judge what it recorded."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
REPO = os.environ.get('REPO', '/repo')
B = os.environ.get('VBUILD', V + '/build')
JARS = '/opt/veriftools/tla/tla2tools.jar'

class CheckError(Exception): pass

class TLCResult:
    def __init__(self): self.states = 0; self.distinct = 0; self.ok = False; self.violated = None; self.out = ''; self.bad = []; self.depth = 0; self.infos = []

def load_findings(prop):
    """KNOWN_FINDINGS: lines 'finding: property=ID key=KEY text' (suppress exactly that key) and 'fixed: ...' (suppress nothing)."""
    r = []
    p = V + '/KNOWN_FINDINGS'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3).strip()))
    return r

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.dir = f'{B}/run/{prop}'
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.viol = {}; self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0}
        self.samples = []; self.assumptions = []; self.notes = []
        self.t0 = time.time(); self.models = []; self.level = 'model_checking'

    # ---- violations ----
    def violation(self, key, detail, files=()):
        if key in self.viol: self.viol[key]['count'] += 1; return
        d = f'{B}/violations/{self.prop}'
        os.makedirs(d, exist_ok=True)
        p = f"{d}/{re.sub(r'[^A-Za-z0-9_.-]', '_', key)[:80]}.txt"
        with open(p, 'w') as f:
            f.write(f'property={self.prop}\nkey={key}\nseed={self.seed} tier={self.tier}\n{detail}\n')
            for x in files: f.write(f'file: {x}\n')
        self.viol[key] = {'detail': detail, 'path': p, 'count': 1}

    # ---- building and running ----
    def build(self, target):
        import build
        return build.build([target])[0]

    def run(self, cmd, timeout=600, env=None, what='driver'):
        e = dict(os.environ); e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=self.dir, start_new_session=True)
            return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired as x:
            return 'timeout', (x.stdout or b'').decode(errors='replace'), (x.stderr or b'').decode(errors='replace')

    def driver(self, binary, args, timeout=300, env=None, crash_key=None):
        """Runs a driver. A crash or a hang of the code under test, if it repeats, is a violation. Returns stdout or None."""
        for attempt in (1, 2):
            rc, out, err = self.run([binary] + [str(a) for a in args], timeout=timeout, env=env)
            if rc == 0: return out
            if rc == 77: raise CheckError(f'driver set-up failed: {binary} {args}\n{err[-3000:]}')
        what = 'no-progress' if rc == 'timeout' else 'abort'
        m = re.findall(r'(?:Check failed|FATAL|CHECK|terminate|error:)[^\n]*', err)
        log = f'{self.dir}/crash.log'
        open(log, 'w').write(f'{binary} {args}\nrc={rc}\n{err[-20000:]}')
        self.violation(crash_key or f'{what}:{os.path.basename(binary)}:{args[0] if args else ""}',
                       f'the code under test ended with rc={rc} twice (a negative rc is a signal): {binary} {" ".join(map(str,args))}\n' + '\n'.join(m[-5:]) + '\n' + err[-3000:], [log])
        return None

    # ---- TLC ----
    def tlc(self, spec, cfg, env=None, workers=8, timeout=600, heap='6g', args=(), deadlock=False):
        """Runs TLC on specs/<spec>.tla with specs/<cfg>."""
        md = f'{self.dir}/tlc_{hashlib.md5((spec+cfg+str(env)+str(time.time())).encode()).hexdigest()[:8]}'
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-cp', f'{JARS}:/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/CommunityModules.jar',
               'tlc2.TLC', '-workers', str(workers), '-metadir', md, '-config', f'{V}/specs/{cfg}', '-noGenerateSpecTE', '-fpmem', '0.3']
        if not deadlock: cmd.append('-deadlock')
        cmd += list(args) + [f'{V}/specs/{spec}.tla']
        rc, out, err = self.run(cmd, timeout=timeout, env=dict(env or {}), what='tlc')
        shutil.rmtree(md, ignore_errors=True)
        r = TLCResult(); r.out = out + err; r.rc = rc
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
        if m: r.states, r.distinct = (int(x.replace(',', '')) for x in m[-1])
        m = re.search(r'The depth of the complete state graph search is (\d+)', out)
        if m: r.depth = int(m.group(1))
        r.bad = re.findall(r'^<<"BAD", (.*)>>$', join_tlc(out), re.M)
        r.infos = re.findall(r'^<<"INFO", (.*)>>$', join_tlc(out), re.M)
        r.ok = rc == 0
        if rc in (12, 13, 10, 11): r.violated = {12: 'safety', 13: 'liveness', 11: 'deadlock', 10: 'assumption'}[rc]
        if rc not in (0, 12, 13, 11):
            raise CheckError(f'TLC failed on {spec}/{cfg}: rc={rc}\n{out[-4000:]}\n{err[-2000:]}')
        return r

    def model(self, spec, cfg, what, timeout=600, heap='6g', workers=8, args=(), deadlock=False, env=None):
        """Model-checks the specification itself. A violation here is a violation of the specified design."""
        r = self.tlc(spec, cfg, timeout=timeout, heap=heap, workers=workers, args=args, deadlock=deadlock, env=env)
        self.models.append({'model': cfg, 'what': what, 'states': r.distinct, 'generated': r.states, 'depth': r.depth})
        self.cov['states'] += r.distinct; self.cov['transitions'] += r.states
        if r.violated:
            m = re.search(r'(Invariant|Action property|Temporal properties|property) (\S+) (is|was|were) violated', r.out)
            p = f'{self.dir}/{cfg}.trace'; open(p, 'w').write(r.out)
            self.violation(f'spec:{cfg}:{m.group(2) if m else r.violated}', f'TLC: the specification violates {m.group(2) if m else r.violated}\n' + r.out[-6000:], [p])
        return r

    def judge(self, spec, cfg, trace, env=None, workers=8, timeout=600, heap='8g', keyre=None, steps=None, what=''):
        """Lets TLC judge recorded steps. The trace specification prints <<"BAD", "key", ...>> for every recorded step that
        no behaviour of the specification allows. A rejection is reported only when a second run repeats it."""
        e = {'TRACE': trace}; e.update(env or {})
        r = self.tlc(spec, cfg, env=e, workers=workers, timeout=timeout, heap=heap)
        if r.bad or r.violated:
            r2 = self.tlc(spec, cfg, env=e, workers=workers, timeout=timeout, heap=heap)
            if sorted(r2.bad) != sorted(r.bad) or r2.violated != r.violated: raise CheckError(f'TLC verdicts differ between runs on {trace}')
            keep = f'{B}/violations/{self.prop}'; os.makedirs(keep, exist_ok=True)
            kt = f'{keep}/{os.path.basename(trace)}'
            if os.path.exists(trace): shutil.copy(trace, kt)
            if r.violated and not r.bad:
                m = re.search(r'(Invariant|Action property|Temporal properties) (\S+) (is|was|were) violated', r.out)
                self.violation(f'trace:{spec}:{m.group(2) if m else r.violated}', r.out[-8000:], [kt])
            for b in r.bad:
                k = re.match(r'"([^"]*)"', b)
                self.violation(k.group(1) if k else b[:60], f'recorded step rejected by {spec}: {b}', [kt])
        self.models.append({'model': cfg, 'what': what or 'conformance', 'states': r.distinct})
        self.cov['states'] += r.distinct; self.cov['transitions'] += max(r.states, r.distinct)
        return r

    def add_traces(self, n): self.cov['traces_validated_against_impl'] += n
    def sample(self, s): 
        if len(self.samples) < 12: self.samples.append(s)

    # ---- result ----
    def finish(self):
        known = load_findings(self.prop); new = {}; hit = {}
        for k, v in self.viol.items():
            f = [t for (kk, t) in known if kk == k]
            if f: hit[k] = f[0]
            else: new[k] = v
        for k, t in known:
            print(f'KNOWN-FINDING: property={self.prop} {t}' + ('' if k in hit else ' (listed; not reached in this run)'))
        if not self.samples: self.samples = [self.models[0]] if self.models else ['none']
        cov = dict(self.cov); cov['samples'] = self.samples; cov['models'] = self.models
        if self.notes: cov['notes'] = self.notes
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'assumptions': self.assumptions,
              'violations': [{'key': k, 'replay': v['path'], 'count': v['count']} for k, v in new.items()]}
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{V}/evidence/{self.prop}.json', 'w'), indent=1)
        for k, v in new.items():
            print(f'VIOLATION property={self.prop} replay={v["path"]}')
            print(f'  {k}: {v["detail"][:1500]}')
        if not new: print(f'OK property={self.prop} {json.dumps(self.cov)} wall={ev["wall_s"]}s')
        return 1 if new else 0

def join_tlc(out):
    """TLC wraps long printed tuples; put each printed tuple on one line."""
    res = []; cur = None
    for l in out.split('\n'):
        if cur is None:
            if l.startswith('<<"BAD"') or l.startswith('<< "BAD"') or l.startswith('<<"INFO"') or l.startswith('<< "INFO"'):
                cur = l
            else: res.append(l); continue
        else: cur += ' ' + l.strip()
        if cur.count('<<') == cur.count('>>'):
            c = re.sub(r'\s+', ' ', cur)
            c = re.sub(r'^<< "', '<<"', c); c = re.sub(r' >>$', '>>', c)
            res.append(c); cur = None
    if cur: res.append(cur)
    return '\n'.join(res)

def ndjson(path, recs):
    with open(path, 'w') as f:
        for r in recs: f.write(json.dumps(r, separators=(',', ':')) + '\n')
