"""Build, run the harness, validate traces with TLC, report."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import tours

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
COLLECTIONS = os.path.join(REPO, 'collections')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SHARDS = 8


class Infra(Exception):
    """Something that is not a verdict: the check exits 2."""


def java():
    home = '/usr/lib/jvm/java-17-openjdk-amd64'
    exe = os.path.join(home, 'bin/java')
    return exe if os.path.exists(exe) else 'java'


def rmtree(path):
    path = os.path.abspath(path)
    if not path.startswith(BUILD + os.sep):
        raise Infra('refusing to remove ' + path)
    shutil.rmtree(path, ignore_errors=True)


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, subs, files in sorted(os.walk(root)):
            subs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build():
    """Compiles /repo's current tree and the harness; returns the class directory."""
    key = tree_hash(os.path.join(COLLECTIONS, 'src/main'), HARNESS)
    out = os.path.join(BUILD, 'classes', key)
    if os.path.exists(os.path.join(out, 'OK')):
        return out
    tmp = out + '.%d' % os.getpid()
    rmtree(tmp)
    os.makedirs(tmp)
    libs = os.path.join(HARNESS, 'lib')
    cmd = [java(), '-XX:TieredStopAtLevel=1', '-cp', os.path.join(libs, 'freemarker-2.3.32.jar'),
           os.path.join(HARNESS, 'tool/Build.java'), COLLECTIONS, tmp,
           os.path.join(libs, 'spotbugs-annotations-4.7.3.jar'), os.path.join(HARNESS, 'src')]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        rmtree(tmp)
        raise Infra('build failed\n' + r.stdout[-4000:] + r.stderr[-4000:])
    open(os.path.join(tmp, 'OK'), 'w').close()
    old = os.path.join(BUILD, 'classes')
    for d in sorted(os.listdir(old), key=lambda d: os.path.getmtime(os.path.join(old, d)))[:-6]:
        rmtree(os.path.join(old, d))
    try:
        os.rename(tmp, out)
    except OSError:  # someone else made it meanwhile
        rmtree(tmp)
    return out


# ------------------------------------------------------------------ scenarios

class Scenario:
    def __init__(self, sid, conf, ops):
        self.id, self.conf, self.ops = sid, dict(conf), [str(o) for o in ops]

    def text(self):
        return ('S %s %s\n' % (self.id, ' '.join('%s=%s' % kv for kv in sorted(self.conf.items())))
                + ''.join(o + '\n' for o in self.ops))


def write_scenarios(path, scenarios):
    with open(path, 'w') as f:
        for s in scenarios:
            f.write(s.text())


def run_harness(classes, component, scen_file, outdir, shards=SHARDS, only=None, props=None, xmx='6g', timeout=600):
    cmd = [java(), '-Xmx' + xmx, '-Xss4m', '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=1'] + (props or []) + [
        '-cp', classes, 'H', component, scen_file, outdir, str(shards)] + ([only] if only else [])
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0:
        raise Infra('harness failed: %s\n%s%s' % (' '.join(cmd), r.stdout[-3000:], r.stderr[-6000:]))
    m = re.search(r'executions (\d+) distinct (\d+) events (\d+) hangs (\d+)', r.stdout)
    if not m:
        raise Infra('harness said nothing: ' + r.stdout[-2000:] + r.stderr[-2000:])
    return dict(zip(('executions', 'distinct', 'events', 'hangs'), map(int, m.groups())))


# ------------------------------------------------------------------ TLC

def tlc(module, cfg_text, workdir, env=None, workers=1, xmx='3g', timeout=800, extra=(), props=()):
    os.makedirs(workdir, exist_ok=True)
    cfg = os.path.join(workdir, module + '.cfg')
    with open(cfg, 'w') as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    gc = (['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-XX:CICompilerCount=1'] if workers == 1
          else ['-XX:+UseParallelGC'])
    cmd = [java(), '-Xmx' + xmx, '-Xss64m'] + gc + list(props) + [
        '-DTLA-Library=' + SPEC, '-cp', TLA, 'tlc2.TLC', '-metadir', os.path.join(workdir, 'meta_' + module),
        '-workers', str(workers), '-fp', '0', '-deadlock', '-noGenerateSpecTE', '-config', cfg] + list(extra) + [
        os.path.join(SPEC, module + '.tla')]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=workdir, env=e)
    rmtree(os.path.join(workdir, 'meta_' + module))
    return r.returncode, r.stdout + r.stderr


def model_check(module, cfg_text, workdir, workers=4, xmx='4g', timeout=800, props=(), extra=()):
    """Exhaustive check of a model; returns (states, transitions, output)."""
    rc, out = tlc(module, cfg_text, workdir, workers=workers, xmx=xmx, timeout=timeout, props=props, extra=extra)
    if rc != 0:
        i = out.find('Error:')
        raise Infra('model %s does not hold (rc %d):\n%s' % (module, rc, out[i:i + 6000]))
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return int(m[-1][1]), int(m[-1][0]), out


def judge_set(judge):
    return '{' + ', '.join('"%s"' % p for p in sorted(judge)) + '}'


def trace_cfg(judge, consts=''):
    return ('SPECIFICATION TSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n'
            'CONSTANT Judge = %s\n%s' % (judge_set(judge), consts))


class Rejection:
    """One trace the specification does not allow."""

    judge, jvm = None, None

    def __init__(self, component, module, consts, scenario, target, pos, lines, message=''):
        self.component, self.module, self.consts = component, module, consts
        self.scenario, self.target = scenario, target
        self.pos, self.lines, self.message = pos, lines, message


def read_idx(path):
    out = []
    with open(path) as f:
        for line in f:
            a = line.split()
            out.append((int(a[0]), int(a[1]), a[2], a[3], int(a[4])))
    return out


def validate_file(module, cfg, path, workdir, timeout=800):
    """(number of accepted events, None) or (accepted, message)"""
    total = sum(1 for _ in open(path))
    if total == 0:
        return 0, total, None
    rc, out = tlc(module, cfg, workdir, env={'TRACE': path}, timeout=timeout)
    m = re.search(r'<<"ACCEPTED", (\d+)>>', out)
    if m and rc == 0:
        if int(m.group(1)) != total:
            raise Infra('%s accepted %s of %d events\n%s' % (module, m.group(1), total, out[-3000:]))
        return total, total, None
    m = re.search(r'<<"REJECTED", (\d+)>>', out)
    if m:
        return int(m.group(1)) - 1, total, 'rejected'
    # an evaluation error: the recorded event has a shape the specification has no meaning for
    states = re.findall(r'^State (\d+):', out, re.M)
    if states and 'Error:' in out and ('evaluating' in out or 'Attempted' in out):
        i = out.find('Error:')
        return int(states[-1]) - 1, total, 'no meaning: ' + out[i:i + 1500]
    raise Infra('TLC failed on %s %s (rc %d):\n%s' % (module, path, rc, out[:2000] + out[-3000:]))


def validate_shard(component, module, consts, judge, d, k, workdir, limit, timeout, keep=None):
    """Validates one shard; after a rejection cuts the trace out and goes on, `limit` times.

    keep(rejection) says whether a rejection counts towards the limit."""
    path = os.path.join(d, 'shard_%d.ndjson' % k)
    idx = read_idx(os.path.join(d, 'shard_%d.idx' % k))
    cfg = trace_cfg(judge, consts)
    rejections, accepted = [], 0
    cur, cut, tries = path, list(idx), 0
    lines = None
    while True:
        n, total, msg = validate_file(module, cfg, cur, os.path.join(workdir, 'tlc_%d' % k), timeout)
        if msg is None:
            accepted += total
            break
        if lines is None:
            lines = open(path).read().split('\n')
        pos = 1
        for j, (start, cnt, sid, target, same) in enumerate(cut):
            if pos + cnt > n + 1:
                break
            pos += cnt
        mine = lines[start - 1:start - 1 + cnt]
        r = Rejection(component, module, consts, sid, target, n + 1 - pos, mine, msg)
        rejections.append(r)
        accepted += n
        tries += 1
        if tries >= limit:
            break
        cut = cut[j + 1:]  # the traces before are accepted
        if not cut:
            break
        cur = os.path.join(d, 'cut_%d.ndjson' % k)
        with open(cur, 'w') as f:
            for start, cnt, _, _, _ in cut:
                f.write('\n'.join(lines[start - 1:start - 1 + cnt]) + '\n')
    return accepted, rejections


def validate(component, module, judge, d, workdir, consts='', limit=1, timeout=800, shards=SHARDS):
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(lambda k: validate_shard(component, module, consts, judge, d, k, workdir, limit, timeout),
                         range(shards)))
    return sum(a for a, _ in rs), [r for _, l in rs for r in l]


# ------------------------------------------------------------------ one check

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, 'run', prop)
        rmtree(self.dir)
        os.makedirs(self.dir)
        self.states = self.transitions = self.validated = self.executions = self.events = 0
        self.samples, self.models, self.conform = [], [], []
        self.violations = []
        self.classes = None
        self.lock = threading.Lock()

    @property
    def quick(self):
        return self.tier != 'thorough'

    def model(self, name, states, transitions, note=''):
        self.states += states
        self.transitions += transitions
        self.models.append({'model': name, 'distinct_states': states, 'states_generated': transitions, 'note': note})

    def explore(self, module, consts, props_text, tours_rng=None, budget=0, length=60, workers=4, xmx='4g', note='',
                timeout=800):
        """Model checks a concrete model; returns the walks over its transitions if asked."""
        cfg = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + props_text
               + ('ACTION_CONSTRAINT EmitTr\n' if tours_rng else '')
               + ''.join('CONSTANT %s = %s\n' % kv for kv in consts.items()))
        t = time.time()
        name = '%s(%s)' % (module, ', '.join('%s=%s' % kv for kv in sorted(consts.items()) if kv[0] not in ('Judge', 'Emit')))
        st, tr, out = model_check(module, cfg, os.path.join(self.dir, 'model_%d' % (hash(name) & 0xffffffff)),
                                  workers=workers, xmx=xmx, timeout=timeout)
        res, cov = [], ''
        if tours_rng:
            init, succ = tours.graph(out)
            res, covered, total = tours.walks(init, succ, tours_rng, budget, length)
            if not res:
                raise Infra('no transitions printed by ' + name)
            cov = '%d of %d distinct transitions walked on the real classes in %d histories' % (covered, total, len(res))
        with self.lock:
            self.model(name, st, tr, (note + ' ' + cov).strip() + ' %.1f s' % (time.time() - t))
        return res

    def conformance(self, component, module, scenarios, judge=None, consts='', limit=1, props=None, filt=None,
                    timeout=800, name=None, shards=SHARDS, only=None):
        """Runs the scenarios on the real code and validates the traces. Returns the rejections."""
        name = name or component
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        sf = os.path.join(d, 'scenarios.txt')
        write_scenarios(sf, scenarios)
        byid = {s.id: s for s in scenarios}
        if len(byid) != len(scenarios):
            raise Infra('duplicate scenario ids')
        t = time.time()
        st = run_harness(self.classes, component, sf, d, shards=shards, props=props, only=only)
        t1 = time.time()
        acc, rej = validate(component, module, judge or {self.prop}, d, d, consts, limit, timeout, shards)
        for r in rej:
            r.scenario = byid[r.scenario]
            r.judge, r.jvm = sorted(judge or {self.prop}), props
        self.executions += st['executions']
        self.events += st['events']
        ntr = sum(len(read_idx(os.path.join(d, 'shard_%d.idx' % k))) for k in range(shards))
        good = ntr - len(rej)
        self.validated += max(good, 0)
        self.conform.append({'component': name, 'specification': module, 'scenarios': len(scenarios),
                             'executions_on_real_classes': st['executions'], 'distinct_traces': st['distinct'],
                             'events_recorded': st['events'], 'events_validated': acc, 'rejected': len(rej),
                             'ops': op_counts(d, shards),
                             'harness_s': round(t1 - t, 1), 'tlc_s': round(time.time() - t1, 1)})
        if scenarios and len(self.samples) < 6:
            for k in range(shards):
                idx = read_idx(os.path.join(d, 'shard_%d.idx' % k))
                if idx:
                    start, cnt, sid, target, same = idx[len(idx) // 2]
                    with open(os.path.join(d, 'shard_%d.ndjson' % k)) as f:
                        ls = f.read().split('\n')[start - 1:start - 1 + min(cnt, 6)]
                    self.samples.append({'component': name, 'target': target, 'scenario': byid[sid].text()[:400],
                                         'first_events': [x[:300] for x in ls], 'identical_on_other_targets': same - 1})
                    break
        return rej

    def violation(self, r, prop=None):
        prop = prop or self.prop
        n = len(self.violations) + 1
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'component': r.component, 'module': r.module, 'consts': r.consts,
                       'judge': r.judge or [prop], 'jvm': r.jvm, 'scenario': r.scenario.text(), 'target': r.target,
                       'rejected_at': r.pos, 'event': r.lines[r.pos] if r.pos < len(r.lines) else None,
                       'before': r.lines[max(0, r.pos - 5):r.pos], 'message': r.message}, f, indent=1)
        self.violations.append(path)
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, VERIF)))
        print('  %s %s, scenario %s, event %d: %s' % (r.component, r.target, r.scenario.id, r.pos,
                                                     (r.lines[r.pos] if r.pos < len(r.lines) else '?')[:600]))
        for b in r.lines[max(0, r.pos - 3):r.pos]:
            print('    before: ' + b[:300])
        if r.message and r.message != 'rejected':
            print('    ' + r.message[:600])

    def finish(self, assumptions=()):
        ev = {'property': self.prop, 'tier': 'thorough' if self.tier == 'thorough' else 'quick', 'seed': self.seed,
              'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.validated, 'samples': self.samples,
                           'evaluations': self.events, 'models': self.models, 'conformance': self.conform},
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d model states, %d executions, %d events, %d distinct traces accepted, %d violations, %.1f s'
              % (self.prop, self.states, self.executions, self.events, self.validated, len(self.violations),
                 time.time() - self.t0))
        return 1 if self.violations else 0


def op_counts(d, shards):
    out = {}
    for k in range(shards):
        with open(os.path.join(d, 'shard_%d.ndjson' % k)) as f:
            for line in f:
                op = line[7:line.index('"', 7)]
                out[op] = out.get(op, 0) + 1
    return out
