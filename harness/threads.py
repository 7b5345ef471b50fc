"""Requests from several threads, run on the real code under a controlled
scheduler.  Usage: threads.py SEED COUNT OUT.ndjson

Every thread stops at every line of liblarch it executes and waits until the
scheduler lets it go on, so that the interleaving is chosen by the seed.  A
thread which does not come back to the scheduler for a moment (it waits for a
lock) is considered blocked and another one is chosen.  The recorded lines
are judged by spec/QueueTrace.tla."""
import contextlib
import io
import json
import os
import random
import sys
import threading
import time

from world import REPO, GLib, Tree, TreeNode

PREFIX = os.path.join(os.path.realpath(REPO), 'liblarch') + os.sep
SLICE = 0.02
LIMIT = 60.0


class Scheduler(object):
    """lets one thread at a time go on"""

    def __init__(self, rng, switch):
        self.r, self.switch = rng, switch
        self.cond = threading.Condition()
        self.waiting = set()     # threads at a stopping point
        self.alive = set()
        self.turn = None         # thread which may go on
        self.over = False
        self.stops = 0

    def stop(self, me):
        with self.cond:
            if self.over or me not in self.alive:
                return
            self.stops += 1
            self.waiting.add(me)
            if self.turn == me or self.turn is None:
                if self.turn is None or self.r.random() < self.switch:
                    self.turn = self.choose()
                    self.cond.notify_all()
            begin = time.time()
            while self.turn != me and not self.over:
                before = self.turn
                if not self.cond.wait(SLICE) and self.turn == before:
                    # the chosen thread did not come back: it is blocked
                    if self.turn not in self.waiting:
                        self.turn = self.choose()
                        self.cond.notify_all()
                if time.time() - begin > LIMIT:
                    self.over = True
            self.waiting.discard(me)

    def choose(self):
        c = sorted(self.waiting)
        return self.r.choice(c) if c else None

    def leave(self, me):
        with self.cond:
            self.alive.discard(me)
            self.waiting.discard(me)
            if self.turn == me:
                self.turn = self.choose()
            self.cond.notify_all()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.stop(me)
            return local

        def glob(frame, event, arg):
            if os.path.realpath(frame.f_code.co_filename).startswith(PREFIX):
                return local
            return None
        return glob


class Unlucky(Exception):
    pass


def one(r):
    lines = []
    names = ['n%d' % k for k in range(r.randint(2, 5))]
    faulty = set(n for n in names if r.random() < 0.2)
    # the tree is created by the thread of the main loop or by another one
    creator = 'o' if r.random() < 0.25 else 'm'
    who = {threading.current_thread(): 'm'}
    tree = None

    def create():
        nonlocal tree
        tree = Tree()
        for n in names:
            tree.add_node(TreeNode(n))
        tree.get_main_view().register_cllbck('node-modified', executed)
    pris = r.choice([['low'], ['low', 'normal'], ['low', 'normal', 'high'],
                     ['low', 'normal', 'high']])
    nested = {n: (r.choice(names), r.choice(pris)) for n in names
              if r.random() < 0.12}
    depth, budget = [0], [1] * 6

    def request(th, n, pri):
        lines.append({'e': 'start', 'th': th, 'n': n, 'pri': pri})
        try:
            tree.refresh_node(n, priority=pri)
        except Unlucky:
            pass
        lines.append({'e': 'end', 'th': th, 'n': n, 'pri': pri})

    def executed(n, path):
        th = who.get(threading.current_thread(), '?')
        lines.append({'e': 'exec', 'th': th, 'n': n, 'pri': '-'})
        if n in nested and depth[0] == 0 and th == 'm' and budget:
            budget.pop()
            depth[0] += 1
            try:
                request('m', *nested[n])
            finally:
                depth[0] -= 1
        if n in faulty:
            raise Unlucky(n)

    plans = []
    for k in range(r.randint(1, 3)):
        plans.append([(r.choice(names), r.choice(pris))
                      for _ in range(r.randint(1, 4))])
    mainplan = [r.choice(['iter', 'iter', 'iter', 'iter', 'req'])
                for _ in range(r.randint(0, 12))]
    s = Scheduler(r, r.choice([0.01, 0.05, 0.2, 0.5]))
    ctx = GLib.MainContext.default()

    def worker(th, plan):
        sys.settrace(s.tracer(th))
        s.stop(th)
        try:
            for n, pri in plan:
                request(th, n, pri)
        finally:
            sys.settrace(None)
            s.leave(th)

    workers = ['w%d' % k for k in range(len(plans))]
    ths = [threading.Thread(target=worker, args=(w, p), daemon=True)
           for w, p in zip(workers, plans)]
    if creator == 'o':
        created, go = threading.Event(), threading.Event()

        def first(plan):
            create()
            created.set()
            go.wait()
            worker('o', plan)
        workers.append('o')
        ths.append(threading.Thread(target=first, daemon=True, args=(
            [(r.choice(names), r.choice(pris)) for _ in range(r.randint(1, 4))],)))
        ths[-1].start()
        created.wait(LIMIT)
    else:
        create()
    who.update(zip(ths, workers))
    s.alive = set(['m'] + workers)
    old = sys.gettrace()
    for t, w in zip(ths, workers):
        if w == 'o':
            go.set()
        else:
            t.start()
    sys.settrace(s.tracer('m'))
    try:
        s.stop('m')
        for what in mainplan:
            s.stop('m')
            if what == 'iter':
                ctx.iteration(False)
            else:
                request('m', r.choice(names), r.choice(pris))
    finally:
        sys.settrace(old)
        s.leave('m')
    deadline = time.time() + LIMIT
    stuck = False
    while any(t.is_alive() for t in ths):
        # the main loop goes on
        ctx.iteration(False)
        time.sleep(0.0005)
        if time.time() > deadline:
            stuck = True
            break
    n = 0
    while ctx.pending() and n < 2000:
        ctx.iteration(False)
        n += 1
    lines.append({'e': 'stuck' if stuck or n >= 2000 else 'fin', 'th': '-',
                  'n': '-', 'pri': '-'})
    s.over = True
    return {'lines': lines, 'stops': s.stops, 'creator': creator}


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    with open(out, 'w') as f:
        for k in range(count):
            src = 'threads-%d-%d' % (seed, k)
            with contextlib.redirect_stdout(io.StringIO()), \
                    contextlib.redirect_stderr(io.StringIO()):
                t = one(random.Random(src))
            t['src'] = src
            f.write(json.dumps(t) + '\n')
            if t['lines'][-1]['e'] == 'stuck':
                break    # leftovers would disturb the next one
    # threads which never finish must not keep the process alive
    f.close()
    os._exit(0)


if __name__ == '__main__':
    main()
