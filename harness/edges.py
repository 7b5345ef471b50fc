"""Replays behaviours printed by TLC (one JSON list of operations per line) on
the real code.  Usage: edges.py MODE SEED IN OUT.ndjson

All operations but the last one are only executed; before the last one nodes
get random data, and views (MODE: 'plain' an unfiltered one, 'views' filtered
ones, 'gtk' filtered ones with a GTK model, 'counts' counters) are attached;
the last operation is observed.  In mode 'asis' the behaviours contain the
operations on views themselves: nothing is added and everything is observed
('asisgtk': the view also has a GTK model);
in mode 'widget' the last operation concerns a GTK widget; in mode 'async'
the requests come from two threads."""
import json
import random
import sys

import gen
from gen import Driver, STATIC, TAGS, RECURSIVE, SIMPLE
from world import op, NONE, World


def renamed(hist, r):
    """sometimes longer ids: equal ones are not the same object then"""
    if r.random() < 0.7:
        return hist
    long = {c: 'node-%s' % c for c in 'abcdefgh'}
    return [dict(o, **{k: long.get(o[k], o[k]) for k in ('n', 'p') if k in o}) for o in hist]


def run(hist, mode, r):
    hist = renamed(hist, r)
    ids = sorted(set(o['n'] for o in hist) | set(o['p'] for o in hist) |
                 set('abc')) if hist else list('abc')
    ids = [i for i in ids if i != NONE]
    d = Driver(r, ids, full=mode == 'plain', main_full=mode == 'plain')
    w = d.w

    def do(o, observe=False):
        return w.do(op(o['op'], **{k: v for k, v in o.items() if k != 'op'}),
                    observe=observe)

    when = r.choice([len(hist) - 1, len(hist) - 1, 0, r.randint(0, max(0, len(hist) - 1))])
    for k, o in enumerate(hist):
        if k == when or (k == len(hist) - 1 and not d.views and not d.counters):
            if mode != 'plain' and k == len(hist) - 1:
                for i in ids:
                    if i in w.obj and r.random() < 0.5:
                        do({'op': 'col', 'n': i, 'col': r.choice(TAGS)})
            attach(d, mode, r)
        last = k == len(hist) - 1
        if o['op'] == 'new' and not last and mode != 'plain':
            do(o)
            if r.random() < 0.6:
                do({'op': 'col', 'n': o['n'], 'col': r.choice(TAGS)})
            continue
        do(o, observe=last)
    return d


def asis(hist, r, gtk=False):
    hist = renamed(hist, r)
    ids = sorted(set(o['n'] for o in hist if 'n' in o))
    d = Driver(r, ids, full=r.random() < 0.1, main_full=r.random() < 0.1)
    for k, o in enumerate(hist):
        # behaviours with a view: their beginnings are behaviours as well
        d.w.do(op(o['op'], **{k: v for k, v in o.items() if k != 'op'}),
               observe=not gtk or k >= len(hist) - 2)
        if gtk and o['op'] == 'view':
            d.w.do(op('gtk', v='v0', rec=r.random() < 0.2), observe=False)
    return d


def widget(hist, r):
    """the last operation is performed with a widget which shows the tree"""
    ids = sorted(set(o['n'] for o in hist if 'n' in o))
    d = Driver(r, ids, full=False, main_full=False)
    for k, o in enumerate(hist):
        last = k == len(hist) - 1
        if last:
            d.w.do(op('view', rec=True), observe=False)
            d.w.do(op('gtk', v='v0', a='widget'))
            if r.random() < 0.1:
                d.sort('v0')
        d.w.do(op(o['op'], **{k: v for k, v in o.items() if k != 'op'}), observe=last)
    return d


def queued(hist, r):
    """requests of two threads; the main loop runs where the behaviour says"""
    hist = renamed(hist, r)
    d = Driver(r, sorted(set(o['n'] for o in hist if o['op'] == 'new')), full=False, main_full=False)
    when = r.choice([None, 0, len(hist) - 2])
    for k, o in enumerate(hist):
        if k == when:
            attach(d, r.choice(['plain', 'views', 'counts']), r)
        d.w.do(op(o['op'], **{k: v for k, v in o.items() if k != 'op'}),
               observe=o['th'] == 'w' or k >= len(hist) - 3)
    return d


def attach(d, mode, r):
    if mode == 'counts':
        for _ in range(2):
            line = d.w.do(op('count', refresh=True), observe=False)
            if line and line['out'] == 'ok':
                d.counters.append(line['ret'])
                d.w.do(op('capply', v=line['ret'], f=r.choice(SIMPLE[:4])), observe=False)
        return
    n = 1 if mode == 'plain' else r.choice([1, 2])
    for _ in range(n):
        line = d.w.do(op('view', refresh=True, rec=True), observe=False)
        if not line or line['out'] != 'ok':
            return
        v = line['ret']
        d.views.append(v)
        if mode != 'plain':
            for f in r.sample(RECURSIVE * 2 + SIMPLE, r.choice([1, 1, 2])):
                d.w.do(op('apply', v=v, f=f), observe=False)
        if mode == 'gtk':
            d.w.do(op('gtk', v=v, rec=r.random() < 0.2), observe=False)


def main():
    mode, seed, src, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    gen.setup(out)
    hangs = 0
    with open(src) as f, open(out, 'w') as g:
        for k, line in enumerate(f):
            hist = json.loads(line)
            r = random.Random('%s-%d-%d' % (mode, seed, k))
            t = gen.record(lambda: asis(hist, r, mode == 'asisgtk') if mode in ('asis', 'asisgtk') else widget(hist, r)
                           if mode == 'widget' else queued(hist, r) if mode == 'async' else run(hist, mode, r), 'edge-%s-%d' % (mode, k))
            g.write(json.dumps(t) + '\n')
            g.flush()
            hangs += gen.hung(t)
            if hangs >= 2:
                break


if __name__ == '__main__':
    main()
