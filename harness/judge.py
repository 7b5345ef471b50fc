"""Runs TLC.  judge(traces, workdir) -> (list of (trace index, line index,
clauses), stats); raises MachineryError when TLC did not give a verdict on
every trace."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class EvaluationError(MachineryError):
    """TLC could not evaluate the specification on a trace: the recorded
    values do not have the form which the specification can describe"""


def tlc(module, cfg, workdir, env=None, workers=1, extra=(), timeout=3000,
        heap='3g'):
    e = dict(os.environ)
    e.update(env or {})
    md = tempfile.mkdtemp(prefix='md-', dir=workdir)
    gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
    cmd = ['java', gc, '-Djava.io.tmpdir=' + md, '-Xmx' + heap, '-Xss64m', '-cp', CP, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE',
           '-config', cfg] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC did not finish in %d s: %s' % (timeout, cfg))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout


def _judge(module, traces, workdir, timeout):
    fd, path = tempfile.mkstemp(prefix='traces-', suffix='.json', dir=workdir)
    with os.fdopen(fd, 'w') as f:
        json.dump(traces, f)
    rc, out = tlc(module, module + '.cfg', workdir, {'TRACES': path},
                  timeout=timeout)
    os.remove(path)
    done, bad = set(), set()
    for line in out.splitlines():
        m = re.match(r'"DONE\|(\d+)\|', line)
        if m:
            done.add(int(m.group(1)) - 1)
        m = re.match(r'"BAD\|(\d+)\|(\d+)\|(.*)"$', line)
        if m:
            cl = tuple(sorted(re.findall(r'\\"([^"\\]+)\\"', m.group(3))))
            bad.add((int(m.group(1)) - 1, int(m.group(2)) - 1, cl))
    if rc != 0 or 'No error has been found' not in out or \
            len(done) != len(traces):
        evaluation = re.search(
            r'Attempted to|evaluating the (expression|nested)|was not in the domain'
            r'|TLC threw an unexpected exception', out) and not re.search(
            r'OutOfMemory|StackOverflow|Java heap|No space left', out)
        raise (EvaluationError if evaluation else MachineryError)('TLC gave no verdict (rc=%d, %d of %d traces)\n%s'
                             % (rc, len(done), len(traces), out[-3000:]))
    m = re.search(r'(\d+) states generated, (\d+) distinct', out)
    return bad, int(m.group(2))


def _judge_all(module, traces, workdir, timeout):
    """as _judge, but a trace which cannot be evaluated is rejected"""
    try:
        return _judge(module, traces, workdir, timeout)
    except EvaluationError:
        if len(traces) == 1:
            return set([(0, len(traces[0]['lines']) - 1, ('unjudgeable',))]), 0
        h = len(traces) // 2
        b1, s1 = _judge_all(module, traces[:h], workdir, timeout)
        if any('unjudgeable' in c for _, _, c in b1):
            return b1, s1      # one is enough
        b2, s2 = _judge_all(module, traces[h:], workdir, timeout)
        return b1 | set((t + h, i, c) for t, i, c in b2), s1 + s2


def judge(traces, workdir, jobs=8, module='LarchTrace', timeout=3000,
          chunk=7000):
    """split the traces into chunks of about `chunk` lines, one JVM each"""
    total = sum(len(t['lines']) for t in traces)
    n = max(1, min(len(traces), max(min(jobs, total // 300), total // chunk)))
    parts = [list(range(k, len(traces), n)) for k in range(n)]
    bad, states = [], 0
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = [(idx, ex.submit(_judge_all, module, [traces[i] for i in idx],
                                workdir, timeout)) for idx in parts if idx]
        for idx, f in futs:
            b, s = f.result()
            states += s
            bad += [(idx[t], i, cl) for t, i, cl in b]
    return sorted(bad), {'states': states, 'lines': total}


def _accept(module, traces, workdir, timeout):
    fd, path = tempfile.mkstemp(prefix='traces-', suffix='.json', dir=workdir)
    with os.fdopen(fd, 'w') as f:
        json.dump(traces, f)
    rc, out = tlc(module, module + '.cfg', workdir, {'TRACES': path},
                  timeout=timeout)
    os.remove(path)
    done, far = set(), {}
    for line in out.splitlines():
        m = re.match(r'"DONE\|(\d+)\|', line)
        if m:
            done.add(int(m.group(1)) - 1)
        m = re.match(r'"AT\|(\d+)\|(\d+)"', line)
        if m:
            t, k = int(m.group(1)) - 1, int(m.group(2))
            far[t] = max(far.get(t, 0), k)
    if rc != 0 or 'No error has been found' not in out:
        raise MachineryError('TLC gave no verdict (rc=%d)\n%s' % (rc, out[-3000:]))
    m = re.search(r'(\d+) states generated, (\d+) distinct', out)
    return [(t, far.get(t, 0)) for t in range(len(traces)) if t not in done], \
        int(m.group(2))


def accept(traces, workdir, module, jobs=8, timeout=3000, chunk=2000):
    """the traces which are not behaviours of the specification, with the
    first line which cannot be explained"""
    total = sum(len(t['lines']) for t in traces)
    n = max(1, min(len(traces), max(min(jobs, total // 200), total // chunk)))
    parts = [list(range(k, len(traces), n)) for k in range(n)]
    bad, states = [], 0
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = [(idx, ex.submit(_accept, module, [traces[i] for i in idx],
                                workdir, timeout)) for idx in parts if idx]
        for idx, f in futs:
            b, s = f.result()
            states += s
            bad += [(idx[t], k) for t, k in b]
    return sorted(bad), {'states': states, 'lines': total}
