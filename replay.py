#!/usr/bin/env python3
"""replay.py FILE [--shrink]: executes the history of a replay file (the one
named in a VIOLATION line) again on /repo and judges it; with --shrink it
looks for a shorter history which fails the same clauses."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import judge  # noqa

RUN = r'''
import json, sys
sys.path.insert(0, sys.argv[1])
import gen
from world import World, op, NONE
def one(ops, ids):
    class D(object): pass
    w = World(ids)
    d = D(); d.w = w
    gen.Driver.last = d
    for o in ops:
        try:
            w.do(op(o['op'], **{k: v for k, v in o.items() if k != 'op'}))
        except (KeyError, IndexError):
            return      # meaningless without a removed operation
for job in json.load(open(sys.argv[2])):
    if job.get('desc'):
        import columns, random, signal, world
        signal.signal(signal.SIGALRM, world._alarm)
        t = columns.run(job['desc'], job['ids'], job['data'], lambda c: iter(job['ops'][1:]),
                        random.Random(0), 'replay')
        print('TRACE' + json.dumps(t))
        continue
    t = gen.record(lambda: one(job['ops'], job['ids']), 'replay')
    print('TRACE' + json.dumps(t))
'''


def execute(jobs, work):
    src = os.path.join(work, 'jobs.json')
    with open(src, 'w') as f:
        json.dump(jobs, f)
    x = ['xvfb-run', '-a'] if any(o.get('a') == 'widget' or j['desc'] for j in jobs
                                  for o in j['ops']) else []
    p = subprocess.run(x + ['/opt/venv/bin/python', '-c', RUN, HERE + '/harness', src],
                       stdout=subprocess.PIPE, text=True, cwd=HERE + '/harness',
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                                GDK_BACKEND='x11', **({} if x else {'DISPLAY': ''})))
    return [json.loads(l[5:]) for l in p.stdout.splitlines() if l.startswith('TRACE')]


def verdicts(jobs, work):
    traces = execute(jobs, work)
    bad, _ = judge.judge(traces, work, module='ColumnsTrace' if jobs and jobs[0]['desc'] else 'LarchTrace')
    res = [None] * len(jobs)
    for t, i, cl in bad:
        if res[t] is None or i < res[t][0]:
            res[t] = (i, cl, traces[t]['lines'][i])
    return res


def main():
    f = json.load(open(sys.argv[1]))
    t = f['trace']
    if 'queue' in f['clauses']:
        print('a thread schedule; its recording:')
        for l in t['lines']:
            print(' ', l)
        return 1
    ops = [l['o'] for l in t['lines']]
    ids = t.get('ids') or sorted(set(o['n'] for o in ops if o['n'] != '~none'))
    desc = t.get('desc')
    if desc:
        ids = t['rows']
    first = 1 if desc else 0

    def job(ops):
        return {'ops': ops, 'ids': ids, 'desc': desc, 'data': t.get('data')}
    with tempfile.TemporaryDirectory() as work:
        v = verdicts([job(ops)], work)[0]
        if v is None:
            print('no violation')
            return 0
        if '--shrink' in sys.argv:
            want = set(f['clauses']) & set(v[1]) or set(v[1])
            ops = ops[:v[0] + 1]
            progress = True
            while progress:
                progress = False
                cand = [ops[:k] + ops[k + 1:] for k in range(first, len(ops) - 1)]
                for c, r in zip(cand, verdicts([job(c) for c in cand], work)):
                    if r and set(r[1]) & want:
                        ops, v, progress = c[:r[0] + 1], r, True
                        break
        for c in desc or ():
            print('  column', c)
        for o in ops:
            print(' ', o['op'], ' '.join('%s=%s' % (k, x) for k, x in sorted(o.items())
                                         if k in ('n', 'p', 'c', 'd', 'k', 'b', 'ids', 'fun', 'rec', 'pri', 'col', 'th', 'v', 'f', 'name', 'reset', 'refresh', 'e', 'a', 'par')
                                         and x not in ('', '~none', False, [], 'm', 'low', True)
                                         and not (k == 'par' and not x['set'])))
        print('step %d: %s' % (v[0] + 1, ', '.join(v[1])))
        print(json.dumps(v[2].get('ev') or v[2].get('what')))
        return 1


if __name__ == '__main__':
    sys.exit(main())
