"""Framework shared by all checks: TLC runner, scenario execution in worker
processes, trace validation by TLC, verdicts, known findings and evidence.

The oracle is always the TLA+ specification in /verif/spec: this file only moves
data (scenarios to the code under test, recorded traces to TLC) and counts.
"""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
JAR = ('/opt/veriftools/tla/tla2tools.jar:'
       '/opt/veriftools/tla/CommunityModules-deps.jar')
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- TLC
class TLCResult(object):
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.states = self.transitions = 0
        for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out):
            self.transitions, self.states = int(m.group(1)), int(m.group(2))
        self.ok = 'Model checking completed. No error has been found.' in out


def start_tlc(module, cfg=None, env=None, workers=2, xmx='3g', simulate=None, tmp=None, dfs=False):
    meta = tempfile.mkdtemp(prefix='tlc-', dir=tmp)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + xmx, '-cp', JAR, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE']
    if simulate:
        cmd += simulate
    cmd += ['-config', (cfg or module) + '.cfg', module + '.tla']
    fout = open(os.path.join(meta, 'stdout'), 'w+')
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=fout, stderr=subprocess.STDOUT)
    p._fout, p._t0, p._meta = fout, time.time(), meta
    return p


def wait_tlc(p, timeout=800):
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise MachineryError('TLC timed out')
    p._fout.flush()
    p._fout.seek(0)
    out = p._fout.read()
    p._fout.close()
    shutil.rmtree(p._meta, ignore_errors=True)
    return TLCResult(out, rc, time.time() - p._t0)


def run_tlc(module, **kw):
    timeout = kw.pop('timeout', 800)
    return wait_tlc(start_tlc(module, **kw), timeout)


# ---------------------------------------------------------------- encodings
def B(b):
    """bytes -> sequence of integers 0..255"""
    return list(b)


def T(s):
    """text -> sequence of code points; absent (None) -> <<-1>>"""
    if s is None:
        return [-1]
    if isinstance(s, bytes):
        return [-2] + list(s)
    return [ord(c) for c in s]


def H(headers):
    return [[T(n), T(v)] for n, v in headers]


# ---------------------------------------------------------------- the check
class Check(object):
    """One property.  Subclasses provide scenarios; `driver` names the module in
    harness/ that executes one scenario on the real code; `trace` names the TLA+
    trace specification that judges the recorded case."""
    pid = None
    driver = None
    trace = None
    level = 'model_checking'
    technique = ''
    level_note = ''
    assumptions = []
    models = []           # (module, cfg, {tier: {env}}) exhaustive design models
    shards = 4
    case_timeout = 20

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.rng = random.Random('%s-%s' % (self.pid, seed))
        self.quick = tier == 'quick'
        os.makedirs(OUT, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix='%s-' % self.pid, dir=OUT)
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.model_states = self.model_transitions = 0
        self.log = []
        self.notes = {}

    # -- to override
    def scenarios(self):
        return []

    # -- model phase
    def gen(self, module, cfg=None, env=None, timeout=600, xmx='3g', workers=4, simulate=None):
        """Run a design model: its invariants must hold; behaviours it prints
        (lines SCN <json>) are returned."""
        r = run_tlc(module, cfg=cfg, env=env, timeout=timeout, tmp=self.tmp, xmx=xmx,
                    workers=workers, simulate=simulate)
        return self.gen_result(module, cfg, r)

    def gen_result(self, module, cfg, r):
        if not r.ok:
            sys.stdout.write(r.out[-6000:])
            raise MachineryError('design model %s/%s failed' % (module, cfg))
        self.model_states += r.states
        self.model_transitions += r.transitions
        scn = []
        for line in sorted(r.out.splitlines()):      # TLC's workers print in any order
            if line.startswith('"SCN '):
                scn.append(json.loads(json.loads(line)[4:]))
        self.log.append('model %s/%s: %d states, %d transitions, %d behaviours, %.1fs' % (
            module, cfg or module, r.states, r.transitions, len(scn), r.wall))
        return scn

    # -- execution of the real code
    def execute(self, scns, nproc=None):
        nproc = min(nproc or NCPU, max(1, len(scns)))
        chunk = [[] for _ in range(nproc)]
        for i, s in enumerate(scns):
            s['id'] = i
            chunk[i % nproc].append(s)
        cases = {}
        pending = [(k, c) for k, c in enumerate(chunk) if c]
        rounds = 0
        while pending:
            rounds += 1
            if rounds > 60:
                raise MachineryError('workers keep dying')
            procs = []
            for k, c in pending:
                fin = os.path.join(self.tmp, 'in%d-%d.jsonl' % (rounds, k))
                fout = os.path.join(self.tmp, 'out%d-%d.jsonl' % (rounds, k))
                with open(fin, 'w') as f:
                    for s in c:
                        f.write(json.dumps(s) + '\n')
                e = dict(os.environ)
                e['PYTHONPATH'] = REPO + os.pathsep + os.path.join(VERIF, 'harness')
                e['PYTHONDONTWRITEBYTECODE'] = '1'
                e['PYTHONHASHSEED'] = '0'
                e['VERIF_SCRATCH'] = self.tmp
                e['VERIF_CASE_TIMEOUT'] = str(self.case_timeout)
                p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(VERIF, 'harness', 'worker.py'),
                                      self.driver, fin, fout], env=e, stdout=subprocess.DEVNULL,
                                     stderr=open(fout + '.err', 'w'), cwd=self.tmp)
                procs.append((k, c, fin, fout, p))
            nxt = []
            for k, c, fin, fout, p in procs:
                budget = 600 if self.quick else 3000
                try:
                    p.wait(timeout=max(1, budget - (time.time() - self.t0)))
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                done = []
                if os.path.exists(fout):
                    with open(fout) as f:
                        for line in f:
                            if line.endswith('\n'):
                                r = json.loads(line)
                                done.append(r)
                                cases[r['id']] = r
                err = open(fout + '.err').read()
                if p.returncode == 3 or (p.returncode != 0 and not done and 'HARNESS' in err):
                    raise MachineryError('driver error: ' + err[-3000:])
                if len(done) < len(c):
                    # the worker died (crash or hard hang) on the next scenario
                    bad = c[len(done)]
                    sys.stderr.write('worker died (rc %s) on scenario %d: %s\n' % (
                        p.returncode, bad['id'], err[-1500:]))
                    cases[bad['id']] = {'id': bad['id'], 'dead': 1}
                    rest = c[len(done) + 1:]
                    if rest:
                        nxt.append((k, rest))
            pending = nxt
        return [cases[i] for i in range(len(scns))]

    # -- validation by TLC
    def validate(self, cases, trace=None, shards=None, env=None):
        trace = trace or self.trace
        verdict = {}
        alive = []
        for c in cases:
            if c.get('dead'):
                verdict[c['id']] = ('bad', 0, 'terminates', c.get('why') or 'no end, or the process died')
            else:
                alive.append(c)
        shards = min(shards or self.shards, max(1, len(alive)))
        # balance by size
        sized = sorted(((len(json.dumps(c)), c) for c in alive), key=lambda x: -x[0])
        bins = [[0, []] for _ in range(shards)]
        for n, c in sized:
            b = min(bins, key=lambda x: x[0])
            b[0] += n
            b[1].append(c)
        todo = [cs for _, cs in bins if cs]
        w = max(1, NCPU // shards)
        rounds = 0
        while todo:
            rounds += 1
            procs = []
            for k, cs in enumerate(todo):
                fn = os.path.join(self.tmp, 'cases-%s-%d-%d.json' % (trace, rounds, k))
                with open(fn, 'w') as f:
                    json.dump(cs, f)
                e = {'CASES': fn}
                e.update(env or {})
                procs.append((cs, start_tlc(trace, cfg=trace, env=e, workers=w, tmp=self.tmp, xmx='4g'), fn))
            todo = []
            for cs, p, fn in procs:
                r = wait_tlc(p, timeout=800 if self.quick else 6000)
                for line in r.out.splitlines():
                    m = re.match(r'"(OK|BAD) (\d+) (\d+) (\S*) ?(.*)"$', line)
                    if m:
                        i = int(m.group(2))
                        if m.group(1) == 'OK':
                            verdict.setdefault(i, ('ok', int(m.group(3)), '', ''))
                        else:
                            verdict[i] = ('bad', int(m.group(3)), m.group(4), m.group(5) or '')
                missing = [c for c in cs if c['id'] not in verdict]
                if not r.ok or missing:
                    # a recorded value that the specification cannot even be evaluated for: not a behaviour of it
                    at = re.findall(r'^(?:/\\ )?c = (\d+)$', r.out, re.M)
                    bad = cs[int(at[-1]) - 1] if at and 'The error occurred when TLC was evaluating' in r.out else None
                    if bad is None or rounds > 6 and not any(v[0] == 'bad' for v in verdict.values()):
                        keep = os.path.join(OUT, 'machinery-%s.json' % self.pid)
                        shutil.copy(fn, keep)
                        sys.stdout.write(r.out[-5000:])
                        raise MachineryError('trace validation with %s broke (missing %s); cases kept in %s' % (
                            trace, [c['id'] for c in missing[:5]], keep))
                    err = r.out[r.out.find('Error:'):][:1500].replace('\n', ' ')
                    verdict[bad['id']] = ('bad', 0, self.pid + '.outside-of-the-specification', err)
                    missing = [c for c in missing if c['id'] not in verdict]
                    if rounds > 6:
                        for c in missing:
                            verdict.setdefault(c['id'], ('bad', 0, self.pid + '.not-judged', 'many traces like the one above'))
                    elif missing:
                        todo.append(missing)
                self.states += r.states
                self.transitions += r.transitions
                self.log.append('trace %s: %d cases, %d states, %.1fs' % (trace, len(cs), r.states, r.wall))
        return verdict

    # -- how much the specification binds: accepted traces, one observed value changed in each
    observed = {
        'TraceReader': {'read': ['out'], 'readline': ['out'], 'next': ['rb'], 'wrap': ['tell']},
        'TraceArchive': {'next': ['kind', 'rec'], 'read': ['out'], 'line': ['out'], 'extent': ['off', 'size'], 'reopen': ['rec', 'out'],
                         'verdict': ['passed', 'nprob']},
        'TraceHeaders': {'': ['hs', 'ret', 'rb', 'status', 'gets']},
        'TraceBlock': {'parse': ['exc', 'proto', 'status', 'hdrs', 'rest'], 'serialise': ['text', 'utf8', 'ascii', 'buff'],
                       'back': ['hdrs2', 'status2', 'rest']},
        'TraceTimestamp': {'': ['out', 'exc']},
        'TraceCli': {'index': ['lines'], 'extract': ['out'], 'check': ['code', 'says'], 'recompress': ['code', 'count', 'segs'], 'copy': ['n', 'exc', 'segs']},
        'TraceWriter': {'write': ['texts', 'exc'], 'contents': ['texts', 'exc'], 'back': ['kind', 'rec', 'out']},
        'TraceCapture': {'got': ['exc', 'status', 'hdrs'], 'read': ['out', 'exc'], 'exit': ['got'], 'enter': ['exc'], 'req': ['exc'],
                         'close': ['exc'], 'target': ['members', 'text', 'segs']},
    }

    def corrupt(self, ev, rng):
        ways = []

        def walk(o, put, at):
            def way(f, what):
                ways.append((lambda: put(f()), '%s %s' % (at, what)))
            if isinstance(o, bool):
                way(lambda: not o, 'flip')
            elif isinstance(o, int):
                way(lambda: o + 1, '+1')
            elif isinstance(o, str):
                way(lambda: '' if o else 'Error', 'text')
            elif isinstance(o, dict):
                for a in o:
                    walk(o[a], lambda x, a=a: o.__setitem__(a, x), at + '.' + a)
            elif isinstance(o, list):
                if all(type(x) is int for x in o):     # a text
                    i = rng.randrange(len(o)) if o else 0
                    way(lambda: o[:i] + [o[i] % 64 + 33] + o[i + 1:] if o and o[i] >= 0 else [88], 'char %d' % i)
                    if o and o[0] >= 0:
                        way(lambda: o[:-1], 'short')
                else:
                    for i in range(len(o)):
                        walk(o[i], lambda x, i=i: o.__setitem__(i, x), at + '[%d]' % i)
                    way(lambda: o[:-1], 'one less')
        obs = self.observed[self.trace]
        for a in ['exc'] if ev.get('exc') and self.trace != 'TraceBlock' else obs.get(ev.get('op', ''), obs.get('', [])):
            if a in ev and not (a in ('rec', 'out') and ev.get('kind', 'rec') not in ('rec', '')):
                walk(ev[a], lambda x, a=a: ev.__setitem__(a, x), '%s.%s' % (ev.get('op', ''), a))
        if not ways:
            return ''
        f, what = rng.choice(ways)
        f()
        return what

    def selftest(self, cases, verdict):
        rng = random.Random('self-%s' % self.seed)
        good = [c for c in cases if verdict[c['id']][0] == 'ok' and c.get('evs') and len(json.dumps(c)) < 200000]
        bent = []
        for c in rng.sample(good, min(len(good), 60 if self.quick else 300)):
            c = json.loads(json.dumps(c))
            c['bent'] = self.corrupt(rng.choice(c['evs']), rng)
            if c['bent']:
                bent.append(c)
        state = self.states, self.transitions, self.log
        self.log = []
        try:
            v = self.validate(bent, shards=2)
            judged = [c for c in bent if not v[c['id']][2].endswith('.not-judged')]
            missed = [c['bent'] for c in judged if v[c['id']][0] == 'ok']
            self.notes['self_test'] = {'accepted_traces_with_one_recorded_value_changed': len(judged),
                                       'rejected': len(judged) - len(missed)}
            if os.environ.get('VERIF_SELF'):
                print(self.notes['self_test'], *sorted(missed), sep='\n')
        except MachineryError as e:
            self.notes['self_test'] = {'broke': str(e)[:300]}
        self.states, self.transitions, self.log = state

    # -- known findings
    def known(self):
        res = []
        fn = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(fn):
            for line in open(fn):
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d['property'] == self.pid:
                        res.append(d)
        return res

    def sample_of(self, s, case):
        d = json.dumps(s)
        return json.loads(d) if len(d) < 1500 else {'scenario_head': d[:1500]}

    def run(self):
        rc = 2
        try:
            rc = self._run()
        except MachineryError as e:
            print('ERROR: %s' % e)
            rc = 2
        finally:
            if not os.environ.get('VERIF_KEEP'):
                shutil.rmtree(self.tmp, ignore_errors=True)
        return rc

    def _run(self):
        scns = self.scenarios()
        part = os.environ.get('VERIF_SAMPLE')       # development: a part of them only
        if part:
            scns = self.rng.sample(scns, int(len(scns) * float(part)))
        t1 = time.time()
        cases = self.execute(scns)
        t2 = time.time()
        verdict = self.validate(cases)
        t3 = time.time()
        return self.report(scns, cases, verdict, (t1 - self.t0, t2 - t1, t3 - t2))

    def report(self, scns, cases, verdict, times):
        known = self.known()
        hit = {}
        violations = []
        for s in scns:
            v = verdict[s['id']]
            if v[0] == 'ok':
                continue
            tag = s.get('finding')
            k = [d for d in known if tag is not None and d['id'] == tag and
                 (v[2] in d['clauses'])]
            if k:
                hit[k[0]['id']] = k[0]
                continue
            violations.append((s, v))
        for k in hit.values():
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k['id'], k['what']))
        rdir = os.path.join(OUT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for s, v in violations:
            shown.setdefault(v[2], []).append((s, v))
        for clause, lst in shown.items():
            lst.sort(key=lambda x: len(json.dumps(x[0])))
            for s, v in lst[:1]:
                fn = os.path.join(rdir, '%s-%s-%d.json' % (self.pid, re.sub(r'\W+', '_', clause), s['id']))
                with open(fn, 'w') as f:
                    json.dump({'property': self.pid, 'scenario': s, 'event': v[1], 'clause': clause,
                               'detail': v[3][:3000]}, f)
                print('clause %s rejected in %d case(s); first at event %d: %s' % (
                    clause, len(lst), v[1], v[3][:700]))
                print('VIOLATION property=%s replay=%s' % (self.pid, fn))
        if not violations and not getattr(self, 'replaying', False) and not os.environ.get('VERIF_SAMPLE'):
            self.selftest(cases, verdict)
        ok = [s for s in scns if verdict[s['id']][0] == 'ok']
        nontriv = sum(1 for s in ok if verdict[s['id']][1] > 1)
        rnd = random.Random(self.seed)
        samples = [self.sample_of(s, cases[s['id']]) for s in rnd.sample(scns, min(4, len(scns)))]
        cov = {
            'states': self.states + self.model_states,
            'transitions': self.transitions + self.model_transitions,
            'traces_validated_against_impl': len(scns),
            'traces_accepted': len(ok),
            'traces_with_more_than_one_event': nontriv,
            'design_model_states': self.model_states,
            'samples': samples,
            'phases': self.log,
        }
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': list(self.assumptions),
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', '%s.json' % self.pid), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d traces, %d rejected, %d known; gen %.1fs exec %.1fs validate %.1fs' % (
            self.pid, self.tier, len(scns), len(violations), len(hit), *times))
        return 1 if violations else 0


def seeded_bytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n)) if n < 5000 else hashlib.shake_128(
        str(rng.random()).encode()).digest(n)
