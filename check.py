#!/usr/bin/env python3
"""Decides one property.  Usage: check.py ID [quick|thorough]

 1. TLC checks the specification exhaustively within the bounds of the
    configurations of the property and prints its transitions;
 2. a sample of these (all of them in the thorough tier) and seeded random
    histories are executed on the real code in /repo;
 3. TLC judges every recorded execution against the specification.

Exit 0: the property held on everything explored; 1: VIOLATION; 2: the
machinery failed."""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import judge  # noqa
from judge import MachineryError  # noqa
from props import PROPS, claims, SENSITIVITY  # noqa

PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
HARNESS = os.path.join(HERE, 'harness')
SPEC = os.path.join(HERE, 'spec')
OUT = os.path.join(HERE, 'out')


def run(cmd, out, hashseed, timeout, display=''):
    """one process of the harness -> (return code or None, traces)"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED=str(hashseed), GDK_BACKEND='x11', DISPLAY=display,
               G_DEBUG='', NO_AT_BRIDGE='1')
    err = out + '.err'
    with open(err, 'wb') as e:
        p = subprocess.Popen([PY] + cmd, env=env, stdout=e, stderr=e,
                             cwd=HARNESS, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = None
    traces = []
    if os.path.exists(out):
        for line in open(out):
            try:
                traces.append(json.loads(line))
            except ValueError:
                pass
    return rc, traces, tail(err)


class Xvfb(object):
    """an X server for the widgets"""
    def __init__(self):
        r, w = os.pipe()
        self.p = subprocess.Popen(
            ['Xvfb', '-displayfd', str(w), '-screen', '0', '800x600x24',
             '-nolisten', 'tcp', '-noreset'], pass_fds=[w],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            start_new_session=True)
        os.close(w)
        with os.fdopen(r) as f:
            number = f.readline().strip()
        if not number:
            raise MachineryError('Xvfb does not start')
        self.display = ':' + number

    def stop(self):
        self.p.terminate()
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


def tail(path):
    with open(path, 'rb') as f:
        return f.read()[-3000:].decode('utf8', 'replace')


class Check(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.p = PROPS[prop]
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.start = time.time()
        self.work = tempfile.mkdtemp(prefix='larch-%s-' % prop)
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.stats = {'states': 0, 'transitions': 0}
        self.models = {}
        self.crashes = []       # (journal, what)
        self.x, self.lock = None, threading.Lock()
        self.limit = 400 if tier == 'quick' else 5000

    def hashseed(self, *what):
        h = hashlib.sha256(repr((self.seed,) + what).encode()).digest()
        return int.from_bytes(h[:3], 'big')

    # 1. the specification --------------------------------------------------
    def model(self, module, cfg, emit):
        """-> list of behaviours (only with emit)"""
        path = os.path.join(SPEC, 'MC_%s.cfg' % cfg)
        text = open(path).read()
        if emit:
            text = text.replace('Emit = FALSE', 'Emit = TRUE')
            path = os.path.join(self.work, 'MC_%s_emit.cfg' % cfg)
            with open(path, 'w') as f:
                f.write(text)
        rc, out = judge.tlc(module, path, self.work, workers=4,
                            timeout=self.limit * 2, heap='6g')
        if rc != 0 or 'No error has been found' not in out:
            raise MachineryError('the specification does not satisfy its '
                                 'properties (%s %s):\n%s' % (module, cfg, out[-3000:]))
        m = re.search(r'(\d+) states generated, (\d+) distinct', out)
        self.stats['transitions'] += int(m.group(1))
        self.stats['states'] += int(m.group(2))
        self.models['%s/%s' % (module, cfg)] = {
            'states': int(m.group(2)), 'transitions': int(m.group(1))}
        if not emit:
            return []
        return [line for line in out.splitlines() if line.startswith('"EDGE|')]

    # 2. executions ---------------------------------------------------------
    def harness(self, name, cmd):
        out = os.path.join(self.work, name + '.ndjson')
        display = ''
        if 'widget' in cmd[1:2] or cmd[0].endswith('columns.py'):
            with self.lock:
                if self.x is None:
                    self.x = Xvfb()
            display = self.x.display
        rc, traces, err = run(cmd + [out], out, self.hashseed(name), self.limit, display)
        if rc != 0:
            ops = []
            if os.path.exists(out + '.journal'):
                for line in open(out + '.journal'):
                    try:
                        ops.append(json.loads(line))
                    except ValueError:
                        pass
            if rc is None or rc < 0:
                # killed by the time limit, or crashed
                self.crashes.append((ops, 'no end within %d s' % self.limit
                                     if rc is None else 'signal %d' % -rc))
            else:
                raise MachineryError('%s failed (%s)\n%s' % (cmd, rc, err))
        return traces

    def random_traces(self):
        jobs = []
        for prof, (quick, thorough) in sorted(self.p['profiles'].items()):
            n = quick if self.tier == 'quick' else thorough
            parts = max(2, min(16, n // 25))
            for k in range(parts):
                cmd = [os.path.join(HARNESS, 'gen.py'), prof]
                if self.p['family'] == 'Columns':
                    cmd = [os.path.join(HARNESS, 'columns.py')]
                jobs.append(('%s-%d' % (prof, k),
                             cmd + [str(self.seed * 1000 + k), str(max(1, n // parts))]))
        random.Random(self.seed).shuffle(jobs)
        return [self.pool.submit(self.harness, n, c) for n, c in jobs]

    def edge_traces(self, futs):
        """futs: (future of model, cfg, mode, number)"""
        out = []
        for fut, cfg, mode, number in futs:
            lines = fut.result()
            r = random.Random('%d-%s-%s' % (self.seed, cfg, mode))
            if number and number < len(lines):
                lines = r.sample(lines, number)
            parts = max(1, min(8, len(lines) // 150)) if self.tier == 'quick' \
                else max(8, len(lines) // 3000)
            for k in range(parts):
                src = os.path.join(self.work, 'e-%s-%s-%d.in' % (cfg, mode, k))
                with open(src, 'w') as f:
                    for line in lines[k::parts]:
                        f.write(json.loads(line)[5:] + '\n')
                name = 'edge-%s-%s-%d' % (cfg, mode, k)
                out.append(self.pool.submit(
                    self.harness, name,
                    [os.path.join(HARNESS, 'columns.py' if self.p['family'] == 'Columns'
                                  else 'edges.py'), mode,
                     str(self.seed * 1000 + k), src]))
        return out

    # 3. verdict ------------------------------------------------------------
    def violation(self, what, trace, line, clauses):
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, '%s-%s-%d.json' % (self.prop, self.tier, self.seed))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what,
                       'clauses': sorted(clauses), 'line': line,
                       'trace': trace}, f, indent=1)
        print('%s: %s' % (self.prop, what))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))

    def main(self):
        try:
            return self.decide()
        except MachineryError as e:
            print('MACHINERY FAILURE (no verdict): %s' % e)
            return 2
        finally:
            self.pool.shutdown(wait=False, cancel_futures=True)
            if self.x is not None:
                self.x.stop()
            shutil.rmtree(self.work, ignore_errors=True)

    def decide(self):
        tier = 0 if self.tier == 'quick' else 1
        self.pool2 = concurrent.futures.ThreadPoolExecutor(2)
        models = {}
        edges = []
        wanted = {}
        for module, cfg, mode, numbers in self.p['edges']:
            if numbers[tier] is not None:
                wanted.setdefault((module, cfg), True)
        for module, cfg, when in self.p['models']:
            if when <= tier:
                wanted.setdefault((module, cfg), False)
        for (module, cfg), emit in sorted(wanted.items()):
            models[module, cfg] = self.pool2.submit(self.model, module, cfg, emit)
        futs = self.random_traces()
        threads = []
        nth = self.p.get('threads', (0, 0))[tier]
        if nth:
            parts = 16
            threads = [self.pool.submit(
                self.harness, 'threads-%d' % k,
                [os.path.join(HARNESS, 'threads.py'),
                 str(self.seed * 1000 + k), str(nth // parts)])
                for k in range(parts)]
        for module, cfg, mode, numbers in self.p['edges']:
            if numbers[tier] is not None:
                edges.append((models[module, cfg], cfg, mode, numbers[tier]))
        futs += self.edge_traces(edges)
        traces = []
        for f in futs:
            traces += f.result()
        for m in models.values():
            m.result()
        tgen = time.time() - self.start
        problems = [t for t in traces if t['problem'] and not t['guilty']]
        bad, st = judge.judge(traces, self.work, chunk=9000,
                             module=self.p['family'] + 'Trace')
        self.stats['states'] += st['states']
        self.stats['transitions'] += st['lines']

        found = []     # (trace, line, clauses of this property, all clauses)
        other = {}
        for t, i, clauses in bad:
            mine = [c for c in clauses
                    if claims(self.prop, c, traces[t], i, clauses)]
            if mine:
                found.append((t, i, mine, clauses))
            else:
                for c in clauses:
                    other[c] = other.get(c, 0) + 1
        ntraces = len(traces)
        queue = []
        if threads:
            tt = []
            for f in threads:
                tt += f.result()
            rejected, st2 = judge.accept(tt, self.work, 'QueueTrace')
            ntraces += len(tt)
            self.stats['states'] += st2['states']
            self.stats['transitions'] += st2['lines']
            queue = [(tt[t], k) for t, k in rejected]
            self.stats['schedules'] = len(tt)
            self.stats['schedule_stops'] = sum(t['stops'] for t in tt)
        nviol = 0
        for t in traces:
            if t['problem'] and t['guilty'] and self.prop in ('C01', 'C08') and \
                    not any(b[0] for b in bad if traces[b[0]] is t):
                nviol += 1
                self.violation('a query raised an exception: ' + t['problem'][-300:],
                               t, len(t['lines']), ['exc.query'])
                break
        for ops, what in self.crashes:
            if claims(self.prop, 'crash', {'lines': [{'o': o, 'qx': [], 'out': 'hang'}
                                                     for o in ops[1:]]}, len(ops) - 2, ()):
                nviol += 1
                self.violation('the process did not survive (%s)' % what,
                               {'lines': [{'o': o} for o in ops[1:]]},
                               len(ops) - 2, ['crash'])
                break
        if found:
            found.sort(key=lambda x: x[1])
            t, i, mine, clauses = found[0]
            nviol += len(set(x[0] for x in found))
            o = traces[t]['lines'][i]['o']
            self.violation('%s, step %d (%s): %s' % (
                traces[t]['src'], i + 1,
                ' '.join('%s=%s' % (k, o[k]) for k in ('op', 'n', 'p', 'v', 'f', 'c')
                         if o.get(k, '') not in ('', '~none')), ', '.join(mine)),
                dict(traces[t], lines=traces[t]['lines'][:i + 1]), i, mine)
        if queue:
            nviol += len(queue)
            t, k = queue[0]
            self.violation('%s: line %d of the recorded schedule (%s) cannot be '
                           'explained' % (t['src'], k + 1, t['lines'][min(k, len(t['lines']) - 1)]),
                           t, k, ['queue'])
        if not nviol and self.crashes:
            raise MachineryError('a process ended: %s' % self.crashes[0][1])
        if not nviol and problems and not bad:
            raise MachineryError('driver failed: %s' % problems[0]['problem'])
        sens = None
        if not nviol and not other:
            sens = self.sensitivity(traces)
        self.evidence(traces, ntraces, nviol, other, sens, tgen)
        for line in known_findings(self.prop):
            print(line)
        print('%s %s: %d executions judged, %d states, %d violations, %.0f s%s' % (
            self.prop, self.tier, ntraces, self.stats['states'], nviol,
            time.time() - self.start,
            '' if not other else '; clauses of other properties failed: %s' % other))
        return 1 if nviol else 0

    def sensitivity(self, traces):
        """falsify recorded executions: the judge has to notice"""
        r = random.Random(self.seed)
        todo = []
        for name, func in SENSITIVITY.get(self.prop, []):
            n = 0
            cand = traces[:]
            r.shuffle(cand)
            for t in cand[:400]:
                c = json.loads(json.dumps(t))
                k = func(c, r)
                if k is not None:
                    c['lines'] = c['lines'][:k + 1]
                    todo.append((name, c, k))
                    n += 1
                    if n == 5:
                        break
        if not todo:
            return None
        bad, _ = judge.judge([c for _, c, _ in todo], self.work,
                             module=self.p['family'] + 'Trace')
        hit = {}
        for t, i, cl in bad:
            if any(claims(self.prop, c, todo[t][1], i, cl) for c in cl):
                hit[t] = True
        res = {}
        for k, (name, c, _) in enumerate(todo):
            a = res.setdefault(name, [0, 0])
            a[1] += 1
            a[0] += bool(hit.get(k))
        for name, (a, b) in res.items():
            if a == 0:
                raise MachineryError('the judge does not notice falsified '
                                     'executions (%s)' % name)
        return {k: '%d of %d noticed' % tuple(v) for k, v in res.items()}

    def evidence(self, traces, ntraces, nviol, other, sens, tgen):
        kinds, refused, observed = {}, 0, 0
        for t in traces:
            for l in t['lines']:
                kinds[l['o']['op']] = kinds.get(l['o']['op'], 0) + 1
                refused += l['out'] == 'raise'
                observed += bool(l.get('has'))
        r = random.Random(self.seed)
        samples = []
        for t in r.sample(traces, min(2, len(traces))):
            samples.append({'src': t['src'], 'operations': [
                ' '.join([l['o']['op']] + ['%s=%s' % (k, l['o'][k]) for k in
                                           ('n', 'p', 'v', 'f', 'th', 'c', 'fun')
                                           if l['o'].get(k, '') not in ('', '~none', 'm')])
                for l in t['lines']]})
        cov = dict(self.stats)
        cov.update({
            'traces_validated_against_impl': ntraces,
            'samples': samples,
            'operations': kinds, 'refused_operations': refused,
            'observed_states': observed, 'models': self.models,
            'falsified_executions': sens or {},
            'generation_s': round(tgen, 1)})
        if other:
            cov['clauses_of_other_properties'] = other
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov,
              'assumptions': self.p['assumptions'],
              'wall_s': round(time.time() - self.start, 1),
              'violations': nviol}
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def known_findings(prop):
    path = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % prop):
                yield 'KNOWN-FINDING: ' + line[len('finding: '):].strip()


if __name__ == '__main__':
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(Check(prop, tier).main())
