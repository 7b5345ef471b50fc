"""The properties: which clauses of the judge, which configurations of the
specification and which executions decide them."""

TREE = ('new', 'add', 'dupadd', 'del', 'move', 'addpar', 'nset', 'naddp',
        'nremp', 'naddc', 'setpe', 'setce', 'col', 'ref', 'refall')
RELATE = ('add', 'move', 'addpar', 'nset', 'naddp', 'naddc')
FILTER = ('apply', 'unapply', 'reset')
COUNT = ('count', 'capply', 'cunapply', 'cunreg', 'creg', 'conce')

CLAUSES = {
    'C01': ['inv.'],
    'C02': ['tree.'],
    'C03': ['circ.', 'inv.cycle'],
    'C04': ['pend.'],
    'C05': ['view.disp', 'q.members'],
    'C06': ['view.par', 'view.top', 'view.children', 'view.paths', 'q.shape',
            'q.paths', 'q.dup'],
    'C07': ['mir.'],
    'C08': ['q.'],
    'C09': ['filt.'],
    'C10': ['cnt.'],
    'C11': ['async.'],
    'C12': ['gtk.'],
    'C13': ['once.'],
    'C14': ['mod.', 'sig.modified'],
    'C15': ['cb.', 'sig.'],
    'C16': ['name.', 'iso.'],
    'C17': ['drop.'],
    'C18': ['wid.sort', 'wid.selected', 'wid.unselected'],
    'C19': ['wid.fold', 'wid.signal'],
    'C20': ['node.'],
    'C21': ['col.'],
}

WHO = {'apply': 'C09', 'unapply': 'C09', 'reset': 'C09', 'addfilt': 'C09',
       'remfilt': 'C09', 'count': 'C10', 'capply': 'C10', 'cunapply': 'C10',
       'cunreg': 'C10', 'creg': 'C10', 'conce': 'C10', 'gtk': 'C12', 'colfun': 'C12', 'act': 'C13',
       'reg': 'C15', 'dereg': 'C15', 'view': 'C16', 'state': 'C07',
       'drain': 'C11', 'drop': 'C17', 'wsort': 'C18', 'wsel': 'C18',
       'fold': 'C19', 'unfold': 'C19'}


def claims(prop, clause, trace, i, clauses):
    """does this clause, violated at line i of the trace, concern prop?"""
    for c in CLAUSES[prop]:
        if clause.startswith(c):
            return True
    if prop == 'C21' and clause in ('exc.op', 'hang', 'crash'):
        return True
    if clause == 'unjudgeable':
        # not even the form of the values is as specified
        return True
    lines = trace['lines']
    if not 0 <= i < len(lines):
        return False
    line = lines[i]
    o = line['o']
    k = o['op']
    if prop == 'C03' and k in TREE and line['out'] == 'raise' and \
            clause not in ('exc.op', 'exc.query'):
        # a refused request has to change nothing at all
        return True
    if prop == 'C09' and k in FILTER and clause.startswith('view.'):
        return True
    if clause == 'exc.query':
        own = [q for q in line.get('qx', []) if q.startswith(('node.', 'print_tree'))]
        if prop == 'C20':
            return bool(own)
        if prop == 'C08':
            return len(own) < len(line.get('qx', []))
        main = ('main.', 'get_parents', 'get_children', 'get_node:', 'has_node')
        return prop == 'C01' and any(q.startswith(main) for q in line.get('qx', []))
    if clause in ('exc.op', 'hang', 'crash'):
        if k == 'drain':
            return prop == 'C11'
        if k not in TREE:
            return WHO.get(k) == prop or (k == 'count' and prop == 'C16') \
                or (k == 'view' and prop == 'C05')
        if o['th'] == 'w':
            return prop == 'C11'
        before = [x['o'] for x in lines[:i]]
        ops = set(x['op'] for x in before)
        if prop == 'C02':
            return True
        if prop == 'C01':
            return clause != 'exc.op'
        if prop == 'C03':
            return k in RELATE
        if prop == 'C04':
            return k in RELATE
        if prop in ('C05', 'C06', 'C07', 'C14'):
            return 'view' in ops
        if prop == 'C10':
            return 'count' in ops
        if prop == 'C12':
            return 'gtk' in ops
        if prop == 'C13':
            return 'act' in ops
        if prop == 'C18':
            return 'wsort' in ops
        if prop == 'C19':
            return 'fold' in ops
    return False


# falsified executions ------------------------------------------------------
def _pick(t, r, ok):
    ks = [k for k, l in enumerate(t['lines']) if l.get('has') and l['out'] != 'hang' and ok(l)]
    return r.choice(ks) if ks else None


def _edit(ok, change):
    def f(t, r):
        k = _pick(t, r, ok)
        if k is None:
            return None
        change(t['lines'][k], r)
        return k
    return f


def _views(l):
    return [v for v in l['obs']['views']]


def _drop_parent(l, r):
    e = r.choice([e for e in l['obs']['nodes'] if e['par']])
    e['par'].pop()


def _rotate(l, r):
    e = r.choice([e for e in l['obs']['nodes'] if len(e['ch']) > 1])
    e['ch'].append(e['ch'].pop(0))


def _hide(l, r):
    v = r.choice([v for v in _views(l) if v['all']])
    x = v['all'].pop()
    v['isd'] = [y for y in v['isd'] if y != x]


def _noev(l, r):
    vs = [k for k, e in enumerate(l['ev']) if e['v'] != 'main' and e['e'] != 'modified']
    del l['ev'][r.choice(vs)]


def _nomod(l, r):
    l['ev'] = [e for e in l['ev'] if e['e'] != 'modified']


def _more(l, r):
    for v in _views(l) + l['obs']['main']:
        v['n'] += 1


def _undrop(l, r):
    for e in l['obs']['nodes']:
        for d in l['w']['drag']:
            if e['id'] == d[-1]:
                e['par'] = []


def _tops(v):
    a = [row['num'] for row in v['rows'] if len(row['path']) == 1]
    return len(set(a)) > 1 and 0 in a


def _close(v):
    p = [p for p in v['open'] if len(p) == 1][0]
    v['open'] = [q for q in v['open'] if q[0] != p[0]]


SENSITIVITY = {
    'C01': [('a parent is not listed', _edit(lambda l: any(e['par'] for e in l['obs']['nodes']), _drop_parent))],
    'C02': [('siblings in another order', _edit(lambda l: any(len(e['ch']) > 1 for e in l['obs']['nodes']), _rotate)),
            ('a node is missing', _edit(lambda l: l['obs']['nodes'], lambda l, r: l['obs']['nodes'].pop()))],
    'C03': [('a circular request was accepted', _edit(lambda l: l['out'] == 'raise' and l['o']['op'] in RELATE and l['o']['th'] == 'm',
                                                      lambda l, r: l.update(out='ok')))],
    'C04': [('a relation did not take effect', _edit(
        lambda l: l['o']['op'] == 'add' and l['o']['p'] == '~none' and any(e['id'] == l['o']['n'] and e['par'] for e in l['obs']['nodes']),
        lambda l, r: [e for e in l['obs']['nodes'] if e['id'] == l['o']['n']][0]['par'].pop()))],
    'C05': [('a node is not displayed', _edit(lambda l: any(v['all'] for v in _views(l)), _hide))],
    'C06': [('a displayed parent is not listed', _edit(
        lambda l: any(e['par'] for v in _views(l) for e in v['nodes']),
        lambda l, r: r.choice([e for v in _views(l) for e in v['nodes'] if e['par']])['par'].pop()))],
    'C07': [('a notification is missing', _edit(
        lambda l: any(e['v'] != 'main' and e['e'] != 'modified' for e in l['ev']), _noev))],
    'C08': [('a wrong count', _edit(lambda l: any(v['full'] for v in _views(l)), _more))],
    'C09': [('another list of applied filters', _edit(
        lambda l: any(v['appl'] for v in _views(l)),
        lambda l, r: r.choice([v for v in _views(l) if v['appl']])['appl'].pop()))],
    'C10': [('a wrong number', _edit(lambda l: l['obs']['counts'],
                                     lambda l, r: r.choice(l['obs']['counts']).update(n=77)))],
    'C11': [('an effect before the main loop ran', _edit(
        lambda l: l['o']['th'] == 'w' and l['obs']['nodes'],
        lambda l, r: l['obs']['nodes'].pop()))],
    'C12': [('a row is missing', _edit(
        lambda l: any(v['rows'] for v in _views(l)),
        lambda l, r: r.choice([v for v in _views(l) if v['rows']])['rows'].pop()))],
    'C13': [('an action did not run', _edit(lambda l: l['acts'], lambda l, r: l['acts'].pop())),
            ('an action ran twice', _edit(lambda l: l['acts'], lambda l, r: l['acts'].append(l['acts'][0])))],
    'C14': [('no modification is notified', _edit(
        lambda l: l['o']['op'] == 'ref' and any(e['e'] == 'modified' and e['v'] != 'main' for e in l['ev']), _nomod))],
    'C15': [('a callback was called once more', _edit(
        lambda l: l['cb'], lambda l, r: r.choice(l['cb']).update(n=99)))],
    'C16': [('another view for the same name', _edit(
        lambda l: l['o']['op'] == 'view' and l['ret'] == 'v1',
        lambda l, r: l.update(ret='v0')))],
    'C17': [('a dragged node was not moved', _edit(
        lambda l: l['o']['op'] == 'drop' and l['w']['pos'] == 'into' and not l['w']['ext'] and any(
            e['id'] == d[-1] and e['par'] == l['w']['dst'][-1:] for e in l['obs']['nodes'] for d in l['w']['drag']),
        _undrop)),
            ('the function for drops was called once less', _edit(
                lambda l: l['w']['calls'], lambda l, r: l['w']['calls'].pop()))],
    'C18': [('rows in another order', _edit(
        lambda l: any(v['wid'] and v['sorted'] and _tops(v) for v in _views(l)),
        lambda l, r: [v for v in _views(l) if v['wid'] and v['sorted'] and _tops(v)][0]['rows'].reverse())),
            ('a selected node is not told', _edit(
                lambda l: any(v['selids'] for v in _views(l)),
                lambda l, r: [v for v in _views(l) if v['selids']][0]['selids'].pop()))],
    'C20': [('another number of children', _edit(
        lambda l: l['obs']['nq'], lambda l, r: r.choice(l['obs']['nq']).update(nc=9))),
            ('a printed line is missing', _edit(
                lambda l: any(v['pr'] for v in _views(l)),
                lambda l, r: r.choice([v for v in _views(l) if v['pr']])['pr'].pop()))],
    'C21': [('another value in a cell', _edit(
        lambda l: l['o']['op'] == 'set' and l['obs']['cols'] and l['obs']['rows'],
        lambda l, r: l['obs']['cols'][0]['cells'][0][0].update(t='other'))),
            ('another background', _edit(
                lambda l: l['o']['op'] == 'bg' and l['obs']['cols'] and l['obs']['rows'],
                lambda l, r: l['obs']['cols'][-1]['cells'][-1][-1].update(bg=[1, 2, 3]))),
            ('a column is missing', _edit(
                lambda l: len(l['obs']['cols']) > 1, lambda l, r: l['obs']['cols'].pop()))],
    'C19': [('a row is not expanded', _edit(
        lambda l: any(len(p) == 1 and l['o']['op'] != 'unfold' for v in _views(l) for p in v['open']),
        lambda l, r: _close(r.choice([v for v in _views(l) if any(len(p) == 1 for p in v['open'])]))))],
}

# what is explored ------------------------------------------------------------
BASE = ['node ids are non-empty strings other than those which the library reserves for its '
        'roots ("root", "anonymous_root", "root_" and the name of a view)',
        'filters are pure functions of the node and its descendants',
        'callbacks of the application do not change the tree while it is notifying']


WIDGET = ['the X server is Xvfb; drags are performed by calling the handlers which the '
          'widget connects, with the rows and positions which GTK reports']


def P(profiles, edges=(), models=(), threads=(0, 0), assumptions=(), family='Larch'):
    return {'family': family, 'profiles': profiles, 'edges': list(edges), 'models': list(models),
            'threads': threads, 'assumptions': BASE + list(assumptions)}


# profiles: (quick, thorough) numbers of histories
# edges: module, configuration, mode, (quick, thorough) number, 0 = all,
#        None = not in this tier
# models: module, configuration, first tier in which it is checked
STRUCT = ('LarchMC', 'struct')
PROPS = {
    'C01': P({'struct': (300, 4000), 'pend': (250, 3000), 'async': (100, 1000),
              'deep': (40, 400), 'mixed': (60, 800),
              'big': (20, 240), 'long': (12, 144)},
             [STRUCT + ('plain', (2000, 0)), ('LarchMC', 'flags', 'plain', (700, 0))],
             [('LarchMC', 'dag', 1), ('LarchQ', 'queue', 1), ('LarchQ', 'queuesmall', 0)]),
    'C02': P({'struct': (350, 4000), 'pend': (150, 2000), 'async': (80, 1000),
              'deep': (40, 400), 'mixed': (60, 800),
              'big': (30, 360), 'long': (15, 180)},
             [STRUCT + ('plain', (2000, 0)), ('LarchMC', 'flags', 'plain', (700, 0)),
              ('LarchMC', 'dag', 'plain', (None, 40000))]),
    'C03': P({'struct': (300, 4000), 'ladder': (12, 150), 'pend': (200, 3000), 'deep': (60, 600),
              'dense': (100, 1500), 'async': (60, 800),
              'long': (12, 144)},
             [STRUCT + ('plain', (1500, 0)), ('LarchMC', 'dag', 'plain', (1000, 60000))]),
    'C04': P({'pend': (600, 8000), 'struct': (100, 1500), 'mixed': (60, 800), 'async': (80, 1000),
              'big': (20, 240), 'long': (12, 144)},
             [STRUCT + ('plain', (1500, 0)), ('Arrival', 'arrival', 'plain', (1000, 0)),
              ('Arrival', 'arrivalcyc', 'plain', (700, 0))]),
    'C05': P({'dense': (500, 6000), 'filters': (120, 1500), 'mixed': (80, 1000),
              'async': (60, 800), 'deep': (30, 400),
              'big': (25, 300), 'long': (12, 144)},
             [STRUCT + ('views', (1200, 0)), ('LarchMC', 'data', 'views', (1500, 0)),
              ('LarchMC', 'dag', 'views', (None, 60000)),
              ('ViewImpl', 'view', 'asis', (700, 20000))],
             [('ViewsMC', 'filtersdeep', 1)]),
    'C06': P({'dense': (500, 6000), 'filters': (120, 1500), 'mixed': (80, 1000),
              'deep': (30, 400),
              'big': (25, 300), 'long': (12, 144)},
             [STRUCT + ('views', (1200, 0)), ('LarchMC', 'data', 'views', (1500, 0)),
              ('LarchMC', 'dag', 'views', (None, 60000)),
              ('ViewImpl', 'view', 'asis', (700, 20000))]),
    'C07': P({'dense': (500, 6000), 'filters': (120, 1500), 'mixed': (80, 1000),
              'async': (60, 800), 'deep': (30, 400),
              'big': (25, 300), 'long': (12, 144)},
             [STRUCT + ('views', (1200, 0)), ('LarchMC', 'data', 'views', (1500, 0)),
              ('LarchMC', 'dag', 'views', (None, 60000)),
              ('ViewImpl', 'view', 'asis', (700, 20000))]),
    'C08': P({'struct': (200, 3000), 'filters': (200, 3000), 'dense': (100, 2000),
              'mixed': (100, 1500), 'deep': (30, 400),
              'big': (12, 144), 'long': (10, 120)},
             [STRUCT + ('plain', (1500, 0)), ('LarchMC', 'data', 'views', (300, 0))]),
    'C09': P({'filters': (500, 7000), 'names': (60, 800), 'mixed': (80, 1000),
              'long': (12, 144)},
             [('LarchMC', 'data', 'views', (300, 0)), ('ViewsMC', 'filters', 'asis', (1000, 40000)),
              ('ViewsMC', 'params', 'asis', (500, 20000)), ('ViewsMC', 'bank', 'asis', (600, 20000)),
              ('ViewImpl', 'viewapply', 'asis', (600, 20000))],
             [('ViewsMC', 'filtersdeep', 1), ('ViewsMC', 'bankdeep', 1)]),
    'C10': P({'counts': (500, 6000), 'mixed': (80, 1000), 'async': (60, 800),
              'big': (20, 240), 'long': (12, 144)},
             [STRUCT + ('counts', (1200, 0)), ('LarchMC', 'data', 'counts', (1000, 0)),
              ('ViewsMC', 'counters', 'asis', (800, 0)), ('ViewsMC', 'countonce', 'asis', (600, 40000)),
              ('ViewsMC', 'bank', 'asis', (500, 20000))]),
    'C11': P({'async': (400, 5000), 'mixed': (80, 1000),
              'big': (15, 180), 'long': (12, 144)},
             [('LarchQ', 'queuesmall', 'async', (1200, 20000)), ('LarchQ', 'queueedges', 'async', (None, 30000))],
             [('SyncQueue', 'syncqueue', 0), ('LarchQ', 'queue', 1)],
             threads=(1600, 20000)),
    'C12': P({'gtk': (450, 6000), 'mixed': (120, 1500), 'deep': (40, 400),
              'big': (20, 240)},
             [STRUCT + ('gtk', (1200, 0)), ('LarchMC', 'data', 'gtk', (1500, 0)),
              ('LarchMC', 'dag', 'gtk', (None, 60000)),
              ('ViewImpl', 'view', 'asisgtk', (700, 20000))]),
    'C13': P({'acts': (600, 8000), 'mixed': (100, 1000),
              'big': (15, 180), 'long': (12, 144)},
             [('ViewsMC', 'actions', 'asis', (1500, 0))]),
    'C14': P({'dense': (400, 5000), 'mixed': (80, 1000), 'struct': (100, 1000),
              'deep': (40, 400),
              'big': (25, 300), 'long': (10, 120)},
             [STRUCT + ('views', (1000, 0)), ('LarchMC', 'data', 'views', (1500, 0)),
              ('LarchMC', 'dag', 'views', (None, 60000)),
              ('ViewImpl', 'view', 'asis', (700, 20000))]),
    'C15': P({'callbacks': (400, 5000), 'struct': (150, 2000), 'async': (60, 800),
              'mixed': (80, 1000),
              'big': (15, 180), 'long': (10, 120)},
             [STRUCT + ('plain', (1000, 0)), ('LarchMC', 'data', 'views', (600, 0)),
              ('ViewsMC', 'callbacks', 'asis', (600, 0)), ('ViewsMC', 'once', 'asis', (500, 0))]),
    'C16': P({'names': (500, 6000), 'filters': (150, 2000), 'mixed': (80, 1000),
              'long': (10, 120)},
             [('ViewsMC', 'names', 'asis', (1000, 40000)), ('ViewsMC', 'params', 'asis', (400, 10000))]),
    'C17': P({'widget': (480, 6000)}, [('WidgetMC', 'drop', 'widget', (900, 15000))],
             [('WidgetMC', 'dropbig', 1)], assumptions=WIDGET),
    'C18': P({'widget': (600, 8000)}, assumptions=WIDGET),
    'C19': P({'widget': (600, 8000)}, assumptions=WIDGET),
    'C20': P({'struct': (300, 4000), 'pend': (200, 2500), 'filters': (100, 1500),
              'mixed': (80, 1000), 'async': (60, 800), 'deep': (30, 400),
              'big': (10, 120), 'long': (10, 120)},
             [STRUCT + ('plain', (1500, 0)), ('LarchMC', 'flags', 'plain', (1000, 0))]),
    'C21': P({'columns': (1200, 15000)},
             [('ColumnsMC', 'columns', 'edges', (700, 15000)), ('ColumnsMC', 'columns3', 'edges', (700, 15000)),
              ('ColumnsMC', 'columnsdeep', 'edges', (None, 15000))],
             family='Columns', assumptions=WIDGET[:0] + [
                 'the X server is Xvfb; the content of a cell is what its renderer has been given for the row',
                 'the column of background colors holds colors only']),
}
