"""which lines of /repo do the planted bugs change: original ones or ours?"""
import os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in sorted(os.listdir(H + '/seeded')):
    f, n, res = None, 0, {}
    for l in open('%s/seeded/%s/patch.diff' % (H, s)):
        if l.startswith('--- '):
            f = l[6:].strip()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-'):
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (n, n), f], stdout=subprocess.PIPE, text=True).stdout.split()[0]
            res[b] = res.get(b, 0) + 1
            n += 1
        elif l.startswith(' '):
            n += 1
    print('%-26s %s' % (s, res))
