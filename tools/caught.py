"""caught.py [--tier T] [IDs]: runs the check of its property against each
planted bug, in a scratch copy of /repo; prints caught or MISSED."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = 'quick'
if args[:1] == ['--tier']:
    tier = args[1]; args = args[2:]
for i in args or sorted(os.listdir(HERE + '/seeded')):
    d = '%s/seeded/%s' % (HERE, i)
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='caught-')
    try:
        subprocess.check_call(['cp', '-a', os.environ.get('CAUGHT_BASE', '/repo'), w + '/repo'])
        subprocess.check_call(['git', '-C', w + '/repo', 'apply', d + '/patch.diff'])
        t = time.time()
        p = subprocess.run([sys.executable, HERE + '/check.py', prop, tier],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, env=dict(os.environ, LARCH_REPO=w + '/repo'))
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        print('%-24s %s %s rc=%d %.0fs %s' % (i, prop, 'caught' if p.returncode == 1 and v else 'MISSED',
              p.returncode, time.time() - t, '' if p.returncode == 1 else p.stdout[-1500:]), flush=True)
    finally:
        shutil.rmtree(w)
