"""check.py PROPERTY quick|thorough

Records sessions of the real library and validates them against the
specification with TLC.  Exit 0: the property held on everything explored;
1: VIOLATION; 2: the machinery failed (no verdict).
"""
import concurrent.futures
import fnmatch
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
REPO = os.environ.get('VP_REPO', '/repo')
SHARDS = 8
sys.path.insert(0, HERE)
import config          # noqa: E402


class Broken(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(kw)
    return e


def run_worker(args, out, limit):
    """-> (info, hung event or None)"""
    try:
        p = subprocess.run([PY, '-W', 'ignore', os.path.join(HERE, 'worker.py')] + args + [out],
                           env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=limit, universal_newlines=True)
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        p, rc, err = None, -9, 'timeout'
    if rc == 0:
        return json.loads(p.stdout.splitlines()[-1]), None
    try:
        cur = open(out + '.cur').read().strip()
    except IOError:
        cur = ''
    if cur and rc < 0:          # it died or hung in the library
        return {'episodes': 0, 'errors': 0, 'events': 0}, json.loads(cur)
    raise Broken('worker %s: exit %s\n%s' % (args, rc, err[-3000:]))


def tlc(cfg, module, tmp, name, limit, workers=1, extra=(), heap='2g', **envs):
    """-> (exit code, output)"""
    meta = os.path.join(tmp, 'meta-' + name)
    cmd = ['java', '-Djava.io.tmpdir=' + tmp, '-XX:+UseParallelGC', '-Xmx' + heap,
           '-XX:ParallelGCThreads=2', '-Xss16m', '-cp', TLA, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=env(**envs), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=limit, universal_newlines=True)
    except subprocess.TimeoutExpired:
        raise Broken('TLC %s: no answer within %d s' % (name, limit))
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def printed(out, word):
    """JSON values of the lines printed with PrintT(word o ToJson(..))"""
    for line in out.splitlines():
        if line.startswith('"' + word + ' '):
            yield json.loads(json.loads(line)[len(word) + 1:])


def states(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states', out)
    return (int(m[-1][1].replace(',', '')), int(m[-1][0].replace(',', ''))) if m else (0, 0)


class Check(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.clauses, self.episodes = config.PROPS[prop]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.bad = []              # (clause, event, expected, episode)
        self.other = {}            # clauses of other properties
        self.cov, self.samples = {}, []
        self.traces = self.events = self.states = self.trans = self.skipped = 0
        self.gen_errors, self.models, self.known = 0, [], []

    def relevant(self, clause):
        return any(fnmatch.fnmatchcase(clause, p) for p in self.clauses)

    # --- recorded sessions -----------------------------------------------------
    def judge(self, trace, name, limit):
        lines = open(trace).read().splitlines()
        if not lines:
            return
        rc, out = tlc('Trace.cfg', 'Trace.tla', self.tmp, name, limit, TRACE=trace)
        done = list(printed(out, 'DONE'))
        bads = list(printed(out, 'BAD'))
        if not done or done[0]['n'] != len(lines):
            m = re.findall(r'^/\\ i = (\d+)$', out, re.M)
            if m and 'r' in json.loads(lines[int(m[-1]) - 1]) and 'evaluat' in out and not any(
                    x in out for x in ('OutOfMemory', 'StackOverflow', 'ndDeserialize')):
                # an observation the specification cannot even be applied to
                k = int(m[-1])
                bads.append({'i': k, 'c': self.clause_of(json.loads(lines[k - 1])),
                             'x': 'not a value of the kind specified'})
                if os.environ.get('VP_DEBUG'):
                    sys.stderr.write(out[-3000:])
            else:
                raise Broken('TLC on %s: exit %s\n%s' % (trace, rc, out[-3000:]))
        s, t = states(out)
        with self.lock:
            self.states += s
            self.trans += max(0, t - 1)
            for k, n in (done[0]['cov'] if done else {}).items():
                self.cov[k] = self.cov.get(k, 0) + n
            for b in bads:
                ev = json.loads(lines[b['i'] - 1])
                if self.relevant(b['c']):
                    self.bad.append((b['c'], ev, b['x'], self.episode(lines, b['i'])))
                else:
                    self.other[b['c']] = self.other.get(b['c'], 0) + 1
                    if os.environ.get('VP_DEBUG') and self.other[b['c']] < 4:
                        sys.stderr.write('OTHER %s %s\n%s\n' % (
                            b['c'], b['x'], '\n'.join(self.episode(lines, b['i']))[-60000:]))
            if len(self.samples) < 3:
                self.samples += self.sample(lines)

    def clause_of(self, ev):
        c = {'build': 'part-chain', 'add': 'sched-add', 'drop': 'sched-drop', 'q': ev.get('op'),
             'same': 'same-' + ev.get('what', ''), 'next': 'next'}.get(ev['ev'], ev['ev'])
        return c if self.relevant(c) else self.clauses[0].replace('*', 'value')

    @staticmethod
    def episode(lines, i):
        a = i - 1
        while a > 0 and '"ev": "reset"' not in lines[a]:
            a -= 1
        return lines[a:i]

    def sample(self, lines):
        for k in range(len(lines) // 2, len(lines)):
            e = json.loads(lines[k])
            if e['ev'] in ('q', 'table', 'build', 'same', 'reject', 'cal', 'help') and \
                    len(lines[k]) < 3000:
                return [e]
        return []

    def shard(self, i, rnd, seconds):
        name = '%d-%d' % (rnd, i)
        out = os.path.join(self.tmp, name + '.ndjson')
        seed = '%d/%d/%d' % (self.seed, rnd, i)
        info, hung = run_worker(['gen', self.prop, seed, str(self.episodes), str(seconds)], out,
                                seconds + 150)
        with self.lock:
            self.traces += info['episodes']
            self.events += info['events']
            self.gen_errors += info['errors']
            if hung:
                self.hang(out, hung)
        if not hung:
            self.judge(out, name, seconds + 400)
        if info['errors'] and os.environ.get('VP_DEBUG'):
            sys.stderr.write(open(out + '.err').read()[-3000:])
        for x in (out, out + '.cur', out + '.err'):
            if os.path.exists(x):
                os.remove(x)

    # --- models --------------------------------------------------------------------
    def model(self, name, envs):
        """check a model and execute the sessions it describes on the library"""
        t0 = time.time()
        tag = '%s-%s' % (name, '-'.join(envs.values()))
        rc, out = tlc('%s.cfg' % name, '%s.tla' % name, self.tmp, 'mc-' + tag,
                      840, workers=4, heap='6g', TIER=self.tier, SEED=str(self.seed), **envs)
        if rc != 0:
            raise Broken('model %s: exit %s\n%s' % (tag, rc, '\n'.join(
                x[:2000] for x in out.splitlines() if not x.startswith('"SCN'))[-3000:]))
        lines = sorted(x for x in out.splitlines() if x.startswith('"SCN '))
        s, t = states(out)
        total = len(lines)
        # all of it or a sample of queries of all sessions
        rng = random.Random(self.seed)
        share = min(1.0, config.MODEL_BYTES[self.tier] / float(1 + sum(map(len, lines))))
        kept = []
        for x in lines:
            if name == 'MC_Queries':        # queries there are independent of each other
                kept.append([ev for ev in json.loads(json.loads(x)[4:])
                             if ev['ev'] not in ('q', 'table') or rng.random() < share])
            elif rng.random() < share:
                kept.append(json.loads(json.loads(x)[4:]))
        ended = time.time()
        # one file for each shard, about the same size
        parts = [[] for _ in range(SHARDS)]
        for i, x in enumerate(kept):
            parts[i % SHARDS].append((i, x))
        left = [0]
        with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
            for f in [ex.submit(self.execute, '%s-%d' % (tag, i), p, left)
                      for i, p in enumerate(parts) if p]:
                f.result()
        with self.lock:
            self.models.append({
                'model': name, 'parameters': envs, 'distinct_states': s, 'states_generated': t,
                'sessions': total, 'sessions_executed': len(kept), 'events_executed': left[0],
                'model_checking_s': round(ended - t0, 1), 'wall_s': round(time.time() - t0, 1)})
            self.states += s
            self.trans += t

    def execute(self, name, sessions, left):
        src = os.path.join(self.tmp, name + '.in')
        n = 0
        with open(src, 'w') as f:
            for k, evs in sessions:
                f.write(json.dumps([k, evs]) + '\n')
                n += len(evs)
        out = os.path.join(self.tmp, name + '.ndjson')
        info, hung = run_worker(['exec', src], out, 840)
        with self.lock:
            self.traces += info['episodes']
            self.events += info['events']
            left[0] += n
            if hung:
                self.hang(out, hung)
        if not hung:
            self.judge(out, name, 840)
        for x in (src, out, out + '.cur'):
            if os.path.exists(x):
                os.remove(x)

    def hang(self, out, hung):
        lines = [x for x in open(out).read().splitlines() if x.endswith('}')]
        self.bad.append(('no-answer', hung, 'an answer',
                         self.episode(lines, len(lines)) + [json.dumps(hung)]))

    # --- all ---------------------------------------------------------------------------
    def run(self):
        self.tmp = tempfile.mkdtemp(prefix='vp-%s-' % self.prop)
        try:
            self.explore()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        return self.verdict()

    def explore(self):
        thorough = self.tier == 'thorough'
        budget = float(os.environ.get('VP_BUDGET', '600' if thorough else '0'))
        seconds = 150
        rnd = 0
        if os.environ.get('VP_NOMODELS') != '1':
            for name, envs in config.MODELS.get(self.prop, []):
                self.model(name, envs)
        self.t1 = time.time()
        if os.environ.get('VP_NORANDOM') == '1':
            self.rounds = 0
            return
        with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
            while True:
                fs = [ex.submit(self.shard, i, rnd, seconds) for i in range(SHARDS)]
                for f in fs:
                    f.result()
                rnd += 1
                took = (time.time() - self.t1) / rnd
                if self.bad or time.time() - self.t0 + took > budget:
                    break
        self.rounds = rnd

    def verdict(self):
        judged = sum(n for k, n in self.cov.items())
        listed = load_known()
        left = []
        for b in self.bad:
            key = config.known_key(self.prop, b)
            if key and (self.prop, key) in listed:
                self.known.append((key, listed[self.prop, key]))
            else:
                left.append(b)
        for key, text in sorted(set(self.known)):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, key, text))
        self.evidence(len(left))
        if left:
            d = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(d, exist_ok=True)
            left.sort(key=lambda b: len(b[3]))
            path = os.path.join(d, '%s.ndjson' % self.prop)
            with open(path, 'w') as f:
                f.write('\n'.join(left[0][3]) + '\n')
            kinds = {}
            for b in left:
                kinds[b[0]] = kinds.get(b[0], 0) + 1
            for b in left[:5]:
                ev = dict(b[1])
                print('  clause %s\n    expected %s\n    event    %s' % (
                    b[0], json.dumps(b[2])[:600], json.dumps(ev)[:1500]))
            print('  disagreements: %s' % kinds)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        if self.other:
            print('note: clauses of other properties failed: %s' % self.other)
        if self.gen_errors > self.traces * 0.2:
            raise Broken('%d of %d episodes could not be made' % (self.gen_errors, self.traces))
        if not judged or not self.events:
            raise Broken('nothing was explored')
        print('OK property=%s tier=%s traces=%d events=%d states=%d wall=%.1fs' % (
            self.prop, self.tier, self.traces, self.events, self.states, time.time() - self.t0))
        return 0

    def evidence(self, violations):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = {'states': self.states, 'transitions': self.trans,
               'traces_validated_against_impl': self.traces,
               'events_judged': self.events,
               'rounds': self.rounds,
               'outcomes_per_clause': dict(sorted(self.cov.items())),
               'models': self.models,
               'generator_errors': self.gen_errors,
               'samples': self.samples[:3]}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov,
              'assumptions': config.ASSUMPTIONS, 'wall_s': round(time.time() - self.t0, 1),
              'violations': violations}
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')


def load_known():
    r = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m:
                r[m.group(1), m.group(2)] = m.group(3).strip()
    return r


def main():
    prop, tier = sys.argv[1], (sys.argv[2:] + ['quick'])[0]
    try:
        rc = Check(prop, tier).run()
    except Broken as e:
        print('BROKEN: %s' % e)
        rc = 2
    sys.exit(rc)


if __name__ == '__main__':
    main()
