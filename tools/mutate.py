"""mutate.py list                 writes WORK/mutants.json
mutate.py tests                   which mutants pass the repository's tests
mutate.py checks                  which of these a mixed sample of executions
                                  of the harness detects, and by which clauses
The mutants are of WORK/base, a copy of /repo.
WORK is $MUT_WORK (default /tmp/mut).  Development only; no check uses it."""
import ast
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
WORK = os.environ.get('MUT_WORK', '/tmp/mut')
FILES = os.environ.get('MUT_FILES', 'liblarch/__init__.py liblarch/tree.py liblarch/treenode.py liblarch/filteredtree.py '
         'liblarch/viewtree.py liblarch/viewcount.py liblarch/filters_bank.py '
         'liblarch/processqueue.py liblarch_gtk/treemodel.py liblarch_gtk/__init__.py').split()
WORDS = [('up', 'down', 'both'), ('added', 'deleted', 'modified'),
         ('node-added', 'node-deleted', 'node-modified'),
         ('node-added-inview', 'node-deleted-inview', 'node-modified-inview'),
         ('parents', 'children'), ('low', 'high')]
CMP = {ast.In: 'not in', ast.NotIn: 'in', ast.Eq: '!=', ast.NotEq: '==',
       ast.Is: 'is not', ast.IsNot: 'is', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>'}


def mutants_of(path):
    src = open(path).read()
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def rep(n, new, why):
        a, b = span(n)
        m = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(m.decode())
        except SyntaxError:
            return
        out.append({'line': n.lineno, 'why': why, 'old': text(n)[:90], 'new': new[:90], 'a': a, 'b': b, 'text': new})
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(n)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            if t in CMP:
                rep(n, '(%s %s %s)' % (text(n.left), CMP[t], text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BoolOp):
            vals = [text(v) for v in n.values]
            o = ' and ' if isinstance(n.op, ast.Or) else ' or '
            rep(n, '(%s)' % o.join('(%s)' % v for v in vals), 'boolop')
            keep = ' or ' if isinstance(n.op, ast.Or) else ' and '
            for k in range(len(vals)):
                rest = vals[:k] + vals[k + 1:]
                rep(n, '(%s)' % keep.join('(%s)' % v for v in rest), 'dropoperand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % text(n.operand), 'not')
        elif isinstance(n, (ast.If, ast.While)):
            rep(n.test, 'True' if isinstance(n, ast.If) else 'True', 'true')
            rep(n.test, 'False', 'false')
            if not isinstance(n.test, (ast.Compare, ast.UnaryOp)):
                rep(n.test, 'not (%s)' % text(n.test), 'negate')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'int')
                if n.value == 1:
                    rep(n, '0', 'int')
            elif isinstance(n.value, str):
                for ws in WORDS:
                    if n.value in ws:
                        for w in ws:
                            if w != n.value:
                                rep(n, repr(w), 'word')
        elif isinstance(n, (ast.Continue, ast.Break)):
            rep(n, 'pass', 'pass')
            rep(n, 'break' if isinstance(n, ast.Continue) else 'continue', 'loop')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and n not in doc:
            if isinstance(n, ast.Expr) and text(n).startswith(('print', '_Node.__init__')):
                continue
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                rep(n.value, 'None', 'return')
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f in ('list', 'sorted', 'set', 'tuple') and len(n.args) == 1:
                rep(n, text(n.args[0]), 'nocopy')
            if len(n.args) == 2 and not n.keywords:
                rep(n, '%s(%s, %s)' % (f, text(n.args[1]), text(n.args[0])), 'swap')
            if f.endswith('.append') and len(n.args) == 1:
                rep(n, '%s.insert(0, %s)' % (f[:-7], text(n.args[0])), 'front')
            if f.endswith('.pop') and n.args:
                rep(n, '%s()' % f, 'poplast')
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    pass
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            rep(n, text(n.value), 'noslice')
        elif isinstance(n, ast.For):
            it = text(n.iter)
            if not it.startswith(('range', 'enumerate')):
                rep(n.iter, 'list(%s)[:1]' % it, 'first')
                rep(n.iter, 'list(%s)[1:]' % it, 'rest')
                rep(n.iter, 'list(%s)[::-1]' % it, 'reversed')
    # a branch else
    seen, res = set(), []
    for m in out:
        key = (m['a'], m['b'], m['text'])
        if key not in seen:
            seen.add(key)
            res.append(m)
    return res


def setup(k):
    d = os.path.join(WORK, 'w%s' % k)
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(['cp', '-a', WORK + '/base', d + '/repo'], check=True)
        t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + d + '/repo') \
            .replace('--timeout=10', '--timeout=10 -x')
        open(d + '/test.sh', 'w').write(t)
    return d


def apply(d, m):
    p = os.path.join(d, 'repo', m['file'])
    raw = open(WORK + '/base/' + m['file'], 'rb').read()
    open(p, 'wb').write(raw[:m['a']] + m['text'].encode() + raw[m['b']:])


def restore(d, m):
    shutil.copy(WORK + '/base/' + m['file'], os.path.join(d, 'repo', m['file']))


def run_tests(k, m):
    d = setup(k)
    apply(d, m)
    try:
        p = subprocess.run(['bash', d + '/test.sh', d + '/o.json'], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=180)
        return '70 passed, 0 failed' in p.stdout
    except subprocess.TimeoutExpired:
        subprocess.run(['pkill', '-f', d])
        return False
    finally:
        restore(d, m)


SAMPLE = [('struct', 40), ('pend', 45), ('dense', 60), ('gtk', 45), ('filters', 45),
          ('counts', 40), ('acts', 40), ('callbacks', 35), ('names', 30),
          ('async', 40), ('mixed', 40), ('deep', 6), ('widget', 60)] + \
         [tuple(x.split(':')) for x in os.environ.get('MUT_MORE', '').split() if x]


def sample(d, env, m, part, res):
    import judge
    traces = []
    for prof, n in SAMPLE:
        if m['file'] == 'liblarch_gtk/__init__.py' and prof not in ('widget', 'gtk'):
            continue
        out = d + '/t.ndjson'
        x = ['xvfb-run', '-a'] if prof == 'widget' else []
        try:
            p = subprocess.run(x + ['/opt/venv/bin/python', HERE + '/harness/gen.py', prof,
                                    str(77 + part), str(int(n) * (4 if x and m['file'] == 'liblarch_gtk/__init__.py' else 1) // part), out],
                               env=env, cwd=HERE + '/harness', stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=300)
            if p.returncode:
                res['clauses']['crash:' + prof + ':' + p.stdout[-100:]] = 1
        except subprocess.TimeoutExpired:
            res['clauses']['hang:' + prof] = 1
            continue
        for l in open(out):
            t = json.loads(l)
            traces.append(t)
            if t['problem']:
                res['clauses']['problem'] = 1
    try:
        bad, st = judge.judge(traces, d, jobs=1)
        if m['file'].startswith('liblarch_gtk'):
            out = d + '/c.ndjson'
            subprocess.run(['xvfb-run', '-a', '/opt/venv/bin/python', HERE + '/harness/columns.py',
                            str(77 + part), str(300 // part), out], env=env, cwd=HERE + '/harness',
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            bad += judge.judge([json.loads(l) for l in open(out)], d, jobs=1, module='ColumnsTrace')[0]
        for t, i, cl in bad:
            for c in cl:
                res['clauses'][c] = res['clauses'].get(c, 0) + 1
    except judge.MachineryError as e:
        res['clauses']['machinery:' + str(e)[:200]] = 1


def run_checks(k, m):
    import judge
    d = setup(k)
    apply(d, m)
    env = dict(os.environ, LARCH_REPO=d + '/repo', PYTHONDONTWRITEBYTECODE='1',
               LARCH_OP_TIMEOUT='4', DISPLAY='', GDK_BACKEND='x11')
    res = {'clauses': {}}
    try:
        for part in (4, 1):
            if not res['clauses']:
                sample(d, env, m, part, res)
        if not res['clauses']:
            out = d + '/t.ndjson'
            subprocess.run([sys.executable.replace('/usr/bin/python3', '/opt/venv/bin/python'),
                            HERE + '/harness/threads.py', '77', '150', out], env=env,
                           cwd=HERE + '/harness', stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=200)
            tt = [json.loads(l) for l in open(out)]
            rej, _ = judge.accept(tt, d, 'QueueTrace', jobs=1)
            if rej:
                res['clauses']['queue'] = len(rej)
    except Exception as e:
        res['clauses']['tool:' + repr(e)[:200]] = 1
    finally:
        restore(d, m)
    return res


def pooled(ms, func, key, save):
    import queue
    q = queue.Queue()
    for k in range(int(os.environ.get('MUT_JOBS', '8'))):
        q.put(k)

    def one(m):
        k = q.get()
        try:
            m[key] = func(k, m)
        finally:
            q.put(k)
        return m
    with concurrent.futures.ThreadPoolExecutor(q.qsize()) as ex:
        for n, _ in enumerate(concurrent.futures.as_completed([ex.submit(one, m) for m in ms])):
            if n % 20 == 0:
                save()
    save()


if __name__ == '__main__':
    os.makedirs(WORK, exist_ok=True)
    path = os.path.join(WORK, 'mutants.json')
    if sys.argv[1] == 'list':
        ms = []
        for f in FILES:
            for m in mutants_of(WORK + '/base/' + f):
                m['file'] = f
                ms.append(m)
        for k, m in enumerate(ms):
            m['id'] = k
        json.dump(ms, open(path, 'w'))
        print(len(ms))
    else:
        ms = json.load(open(path))
        save = lambda: json.dump(ms, open(path, 'w'))
        if sys.argv[1] == 'tests':
            pooled([m for m in ms if 'pass' not in m], run_tests, 'pass', save)
            print(sum(m['pass'] for m in ms))
        else:
            ids = [int(x) for x in sys.argv[2:]]
            pooled([m for m in ms if m.get('pass') and (m['id'] in ids if ids else 'check' not in m)],
                   run_checks, 'check', save)
            for m in ms:
                if m.get('pass') and not m['check']['clauses'] and (not ids or m['id'] in ids):
                    print(m['id'], m['file'], m['line'], m['why'], '|', m['old'], '=>', m['new'])
