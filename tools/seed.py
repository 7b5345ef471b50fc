"""Makes /verif/seeded/<id>/ from a definition and confirms it in a scratch
copy.  Usage: seed.py DEFINITIONS.py [ID...]
DEFINITIONS.py defines SEEDS: id -> dict(property, edits [(file, old, new)],
demo (python source), needs, breaks)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = '''import io, os, sys, contextlib
sys.path.insert(0, os.getcwd())
import warnings
warnings.simplefilter('ignore')
from liblarch import Tree, TreeNode
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def tree(*spec):
    """tree('a', 'b<a', 'c<a,b'): nodes and their parents"""
    t = Tree()
    for s in spec:
        n, _, ps = s.partition('<')
        t.add_node(TreeNode(n))
        for p in filter(None, ps.split(',')):
            t.add_parent(n, p)
    return t
def pump():
    from gi.repository import GLib
    c = GLib.MainContext.default()
    k = 0
    while c.pending() and k < 5000:
        c.iteration(False)
        k += 1
def thread(f):
    import threading
    th = threading.Thread(target=f)
    th.start()
    th.join()
'''


def sh(cmd, cwd):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=600)
    return p.returncode, p.stdout


def make(sid, s, base):
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        dst = os.path.join(d, 'x')
        os.mkdir(dst)
        with open(os.path.join(dst, 'demo.py'), 'w') as f:
            f.write(PRELUDE + s['demo'])
        with open(os.path.join(dst, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec %s/opt/venv/bin/python '
                    '"$(dirname "$0")/demo.py"\n' % ('xvfb-run -a ' if s.get('widget') else ''))
        repo = os.path.join(d, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        sh('git checkout -q -- .', repo)
        rc, out = sh('bash %s/demo.sh' % dst, repo)
        if rc != 0:
            return 'demo fails on the unchanged tree: ' + out[-600:]
        for path, old, new in s['edits']:
            text = open(os.path.join(repo, path)).read()
            if text.count(old) != 1:
                return '%d occurrences of %r' % (text.count(old), old)
            open(os.path.join(repo, path), 'w').write(text.replace(old, new))
        rc, out = sh('bash %s/demo.sh' % dst, repo)
        if rc == 0:
            return 'demo does not fail with the change'
        first = out.strip().splitlines()[-1:]
        test = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + repo)
        open(os.path.join(d, 'test.sh'), 'w').write(test)
        rc, out = sh('bash test.sh %s/o.json' % d, d)
        if '70 passed, 0 failed' not in out:
            return 'tests fail: ' + out[-300:]
        rc, diff = sh('git diff', repo)
        # removed or changed lines have to be original ones
        final = os.path.join(HERE, 'seeded', sid)
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(dst, final)
        open(os.path.join(final, 'patch.diff'), 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(os.path.join(final, 'meta.json'), 'w'), indent=1)
        return 'ok (%s)' % first
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    for sid, s in seeds.items():
        if len(sys.argv) < 3 or sid in sys.argv[2:]:
            print(sid, make(sid, s, None), flush=True)
