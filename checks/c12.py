"""C12: execution order follows links, hierarchy and enabled state."""
from pbt.main import Part
from pbt.nxtlib import need, eq, parts, parent, Discard, Violation, is_below
from pbt.structops import make_stage, layer_of
from pbt import compgen, compmodel, execmodel, runlog
from nxt.runtime import InvalidNodeError, GraphError

PROPERTY = 'C12'
RULE = ('a case is non-trivial when the order holds at least three nodes, or '
        'a disabled node or a link takes part in it')


def graph(d, code=False, size=8, hi=3, mutes=True):
    ls = compgen.layers(d, 1, hi, size, 1, 99, (1, 5), 4,
                        settings=mutes and d.boolean(1, 3))
    roots = sorted({'/' + parts(p)[0] for ly in ls for p in ly['nodes']
                    if p != '/'}) or ['/a']
    for ly in ls:
        for p in sorted(ly['nodes']):
            data = ly['nodes'][p]
            for key in ('code', 'enabled', 'execute_in', 'start_point'):
                data.pop(key, None)
            if p == '/':
                continue
            if len(parts(p)) == 1 and d.boolean(2, 3):
                data['execute_in'] = d.choice(roots + ['/missing', '',
                                                       '/a/b'])
            if d.boolean(1, 4):
                data['enabled'] = d.choice([False, True, False, None])
            if d.boolean(1, 5):
                data['start_point'] = d.boolean(3, 4)
            if code and d.boolean(5, 6):
                data['code'] = [runlog.LINE]
    d.note(ls)
    return ls


def orders(d, ls):
    m = compgen.model(ls)
    s = make_stage(ls)
    comp = s.build_stage()
    return m, s, comp, execmodel.Order(m, comp)


def notable(d, m, want, o):
    d.interesting(len(want) >= 3 or any(o.off(p) for p in m.paths) or
                  any(m.own(p, compmodel.EXEC)[0] for p in m.paths))
    if o.tie:
        d.label('two roots linked after one')


def check_order(d):
    ls = graph(d)
    m, s, comp, o = orders(d, ls)
    starts = sorted(m.paths - {'/'})
    if not starts:
        raise Discard('empty')
    for start in starts:
        want = o.order(start)
        got = comp.get_exec_order(start)
        need(len(got) == len(set(got)), 'a node is listed twice', start, got)
        need(got == want, 'execution order from', start, 'got', got, 'want',
             want)
        notable(d, m, want, o)
    eq(comp.get_exec_order('/'), [], 'order from the world node')


def ran(rt):
    return [p for p in rt.cache_layer.nodes if p != '/']


def check_run(d):
    """The nodes that really ran, in the order they did."""
    ls = graph(d, True, 7, 2)
    m, s, comp, o = orders(d, ls)
    starts = sorted(m.paths - {'/'})
    if not starts:
        raise Discard('empty')
    k = d.draw(3)
    given = d.choice([comp, None])
    runlog.take()
    if k <= 1:
        start = d.choice(starts)
        d.note(['start', start])
        want = o.order(start)
        rt = s.execute(start=start, layer=given)
    elif k == 2:
        points = [p for p in starts
                  if m.own(p, compmodel.START)[0] is True]
        if not points:
            try:
                s.execute(layer=given)
            except ValueError:
                eq(runlog.take(), [], 'ran without a start')
                return
            raise Violation('ran although there is no start')
        first = s.get_layer_start_nodes(comp)
        eq(sorted(first), points, 'start points')
        d.label('start point')
        want = o.order(first[0])
        rt = s.execute(layer=given)
    else:
        # chosen nodes, in the order they are given
        want = []
        for p in [d.choice(starts) for _ in d.many(1, 6)]:
            want.append(p)
        d.note(['nodes', want])
        d.label('execute nodes')
        if d.boolean(1, 5):
            bad = '/not/there'
            at = d.draw(len(want))
            todo = want[:at] + [bad] + want[at:]
            try:
                s.execute_nodes(todo, comp)
            except InvalidNodeError:
                eq(runlog.take(), coded(m, [p for p in want[:at]
                                            if not o.off(p)]),
                   'nodes run before the missing one')
                return
            raise Violation('a missing node was executed')
        rt = s.execute_nodes(want, comp)
        want = [p for p in want if not o.off(p)]
        o.tie = False
    notable(d, m, want, o)
    eq(runlog.take(), coded(m, want), 'nodes that ran')
    eq(sorted(ran(rt)), sorted(set(want)), 'nodes in the cache')


def coded(m, order):
    return [p for p in order if m.internal(p, compmodel.CODE)[0]]


def check_missing(d):
    ls = graph(d, True, 5, 2)
    m, s, comp, o = orders(d, ls)
    runlog.take()
    bad = d.choice(['/missing', '/a/zz', 'a', '', '/A', '//a', '/a/'])
    if bad in m.paths or bad == '':
        bad = '/missing'
    d.note(bad)
    d.interesting(len(m.paths) > 1)
    try:
        s.execute(start=bad)
    except ValueError:
        eq(runlog.take(), [], 'something ran')
        return
    raise Violation('ran from a node that is not there', bad)


def check_nested(d):
    """Node code that executes other parts of the graph."""
    ls = graph(d, True, 7, 1, False)
    ls = [{'nodes': {p: x for p, x in ly['nodes'].items()}} for ly in ls]
    for p in ls[0]['nodes']:
        ls[0]['nodes'][p].pop('instance', None)
    calls = {}
    roots = sorted({'/' + parts(p)[0] for p in ls[0]['nodes'] if p != '/'})
    plain = sorted(p for p in ls[0]['nodes'] if p != '/')
    if not plain:
        raise Discard('empty')
    for p in plain:
        if d.boolean(1, 3):
            if d.boolean():
                targets = [d.choice(plain) for _ in d.many(1, 3)]
                call = 'execute(paths={!r})'.format(targets)
                calls[p] = ('paths', targets)
            else:
                t = d.choice(plain)
                call = 'execute(start={!r})'.format(t)
                calls[p] = ('start', t)
            after = runlog.LINE.replace('${_nxtpath}', 'after ${_nxtpath}')
            mine = 'mine' + p.replace('/', '_')
            ls[0]['nodes'][p]['code'] = [
                runlog.LINE, mine + ' = self', call,
                'assert self is ' + mine, after]
    d.note(sorted(calls.items()))
    m, s, comp, o = orders(d, ls)
    want = []

    def perform(order, depth):
        for p in order:
            if o.off(p):
                continue
            if not m.internal(p, compmodel.CODE)[0]:
                continue
            if depth > 4 or len(want) > 60:
                raise Discard('runs itself')
            want.append(p)
            if p in calls:
                kind, t = calls[p]
                perform(t if kind == 'paths' else o.order(t), depth + 1)
                want.append('after ' + p)
    start = d.choice(plain)
    d.note(start)
    perform(o.order(start), 0)
    runlog.take()
    d.interesting(any(x.startswith('after') for x in want))
    s.execute(start=start)
    eq(runlog.take(), want, 'nodes that ran')


PARTS = [Part('order', check_order, 1600, 40000,
              'orders of composites from every node'),
         Part('run', check_run, 1200, 30000,
              'graphs that are run, from nodes, start points and lists'),
         Part('nested', check_nested, 1200, 30000,
              'node code executing other nodes'),
         Part('missing', check_missing, 500, 5000,
              'starts that are not there')]
ASSUMPTIONS = ['where two roots are linked after the same one either may be '
               'next', 'a start node below a disabled root runs (tested)']
