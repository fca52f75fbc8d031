"""C16: the record of a run survives saving and loading."""
import json
import os

from pbt.main import Part
from pbt.nxtlib import need, eq, Discard, INTERNAL_ATTRS as IA, META_ATTRS
from pbt.structops import make_stage
from pbt import compgen, progs, runlog
from checks import c15
from nxt.nxt_layer import CacheLayer
from nxt.runtime import GraphError, ExitGraph

PROPERTY = 'C16'
RULE = ('a case is non-trivial when at least two nodes ran and one of them '
        'held a value that is not a text')

# expression, can be written to the file
EXPRS = ['object()', '{1, 2}', 'lambda: 1', '[object()]', '(1, (2,))',
         '{"k": [1, None]}', 'u"caf\\u00e9"', '"a\\nb"', '1e300', '-0.5',
         '{"a": {"b": []}}', 'None', 'b"bytes"', '2 ** 70', '""', '0', 'False',
         '[]', '{}', 'list(range(30))', 'dict(a=(1,))', 'type', 'STAGE',
         '__import__("threading").Lock()', '__import__("sys")', '1j',
         'float("inf")', '{(1, 2): 3}', '[[[[[]]]]]', '"\\ud83d\\ude00"',
         '(lambda a: a.append(a) or a)([])',
         '(lambda a: a.update(k=a) or a)({})', 'iter([1])', 'NotImplemented']


def graph(d):
    ls, programs = progs.graph(d, 1, 2, 6, exits=d.boolean(1, 3))
    for ly in ls:
        for p in sorted(ly['nodes']):
            code = ly['nodes'][p].get('code')
            prog = programs.get(tuple(code or ()))
            if p == '/' or prog is None:
                continue
            if d.boolean(1, 2):
                node = progs.Node(list(prog.stmts))
                for name in d.sample(['e1', 'e2', 'e3'], 1):
                    node.stmts.insert(d.draw(len(node.stmts)),
                                      ('expr', name, d.choice(EXPRS)))
                if d.boolean(1, 3):
                    node.stmts.insert(
                        d.choice([0, len(node.stmts)]),
                        ('raw', [d.choice(progs.BLANK) for _ in d.many(1, 3)]))
                code = node.lines()
                programs[tuple(code)] = node
                ly['nodes'][p]['code'] = code
    d.note(ls)
    return ls, programs


def attrs_of(n):
    return {a: v for a, v in n.__dict__.items()
            if a not in IA.PROTECTED and not a.startswith('__') and
            not a.endswith(META_ATTRS._suffix) and
            a not in (IA.CACHED_CODE, IA.NODE_PATH)}


def plain(v):
    """The value as a file can hold it, None when it can not."""
    try:
        return json.loads(json.dumps(v))
    except (TypeError, ValueError, RecursionError):
        return None


def check_record(d):
    ls, programs = graph(d)
    m = compgen.model(ls)
    s = make_stage(ls)
    r = progs.Runtime(m, programs)
    paths = sorted(m.paths - {'/'})
    if not paths:
        raise Discard('empty')
    comp = s.build_stage()
    r.run_world()
    rt = s.execute_nodes([], comp)
    for _ in range(d.integer(1, 2)):
        order = d.sample(paths) + [d.choice(paths) for _ in d.many(0, 3)]
        d.note(order)
        stop = r.run(order)
        _, e = c15.outcome(lambda: s.execute_nodes(order, rt))
        runlog.take()
    cache = rt.cache_layer
    c15.cached(rt, r)
    eq(sorted(cache.nodes), sorted(set(r.ran) | {'/'}), 'nodes in the cache')
    for p in sorted(r.ran):
        n = cache.nodes[p]
        eq(getattr(n, IA.CACHED_CODE), r.code[p], 'code as it was run', p)
        eq(getattr(n, IA.COMPUTE), r.code[p].split('\n'), 'code lines', p)
    prog = r.program('/')
    if prog is not None:
        want = '\n'.join(r.resolve('/', ln) for ln in prog.lines())
        # values may have changed since: only without tokens
        if '${' not in '\n'.join(prog.lines()).replace('${_nxtpath}', ''):
            eq(getattr(cache.nodes['/'], IA.CACHED_CODE), want,
               'code of the world node')
    d.interesting(len(set(r.ran)) > 1 and any(
        not isinstance(v, str) for f in r.frames.values()
        for v in f.values()))
    before = {p: {a: repr(v) for a, v in attrs_of(n).items()}
              for p, n in cache.nodes.items()}
    path = os.path.join(os.environ['VERIF_WORK'], 'cache.nxt')
    cache.save(path)
    eq({p: {a: repr(v) for a, v in attrs_of(n).items()}
        for p, n in cache.nodes.items()}, before, 'saving changed the cache')
    back = CacheLayer.load_from_filepath(path)
    eq(sorted(back.nodes), sorted(cache.nodes), 'nodes that came back')
    for p in sorted(cache.nodes):
        a, b = cache.nodes[p], back.lookup(p)
        eq(getattr(b, IA.CACHED_CODE), getattr(a, IA.CACHED_CODE),
           'code that came back', p)
        eq(getattr(b, IA.COMPUTE), getattr(a, IA.COMPUTE),
           'code lines that came back', p)
        va, vb = attrs_of(a), attrs_of(b)
        eq(sorted(vb), sorted(va), 'attributes that came back', p)
        for k in sorted(va):
            w = plain(va[k])
            need(repr(vb[k]) == repr(w),
                 'value that came back', p, k, 'got', repr(vb[k]), 'want',
                 repr(w))
            if w is None and va[k] is not None:
                d.label('a value a file can not hold')
    # once more
    again = os.path.join(os.environ['VERIF_WORK'], 'again.nxt')
    back.save(again)
    with open(path) as f1, open(again) as f2:
        a, b = json.load(f1), json.load(f2)
    for x in (a, b):
        for n in x['nodes'].values():
            for v in n.get('attrs', {}).values():
                v.pop('type', None)
    eq({p: (n.get('attrs', {}), n.get('code')) for p, n in
        b['nodes'].items()}, {p: (n.get('attrs', {}), n.get('code'))
                              for p, n in a['nodes'].items()},
       'saving what was loaded')


def check_times(d):
    """Every execution has its own begin and end."""
    n = d.integer(1, 5)
    nodes = {'/n{}'.format(i): {'code': ['pass']} for i in range(n)}
    s = make_stage([{'nodes': nodes}])
    order = [d.choice(sorted(nodes)) for _ in d.many(1, 8)]
    inner = d.boolean() and d.choice(sorted(nodes))
    if inner:
        nodes['/m'] = {'code': ['execute([{!r}])'.format(inner)]}
        s = make_stage([{'nodes': nodes}])
        order.insert(d.draw(len(order)), '/m')
    d.note(order)
    rt = s.execute_nodes(order, s.build_stage())
    runs = list(order)
    if inner:
        runs.insert(runs.index('/m') + 1, inner)
    c = rt.cache_layer
    d.interesting(len(set(order)) < len(order) or inner)
    eq({p: len(x) for p, x in c.node_time_map.items() if p != '/'},
       {p: runs.count(p) for p in set(runs)}, 'times a node was run')
    eq(len([1 for t in c.node_times if t]), len(runs), 'time entries')
    last = 0
    for t in c.node_times:
        need(t[1] is not None and t[0] <= t[1], 'an execution without end', t)
        need(t[0] >= last, 'executions out of order')
        last = t[0]
        need(c.was_during_node_exec(t[0]) and c.was_during_node_exec(t[1]),
             'a time in an execution is said not to be')
    need(not c.was_during_node_exec(c.node_times[0][0] - 1) and
         not c.was_during_node_exec(c.node_times[-1][1] + 60) or inner,
         'a time outside the run is said to be in it')
    for p in set(runs):
        need(c.get_node_run_time(p) >= 0, 'run time', p)
    # the edges of an execution belong to it
    c = CacheLayer()
    t = float(d.integer(1, 1000))
    c.set_node_enter_time('/a', t)
    eq([c.was_during_node_exec(x) for x in (t - 1, t, t + 5)],
       [False, True, True], 'while a node runs')
    c.set_node_exit_time('/a', t + 2)
    eq([c.was_during_node_exec(t + x) for x in (-1, 0, 1, 2, 3)],
       [False, True, True, True, False], 'after a node has run')
    eq(c.get_node_run_time('/a'), 2, 'time it took')


PARTS = [Part('record', check_record, 3500, 40000,
              'cache of generated runs against a reference interpreter, '
              'saved and loaded'),
         Part('times', check_times, 600, 5000,
              'the times of executions, repeated and nested')]
ASSUMPTIONS = ['the world node is recorded with its code and the values set '
               'on it while running',
               'values as JSON holds them: tuples come back as lists, keys '
               'as text; values JSON can not hold come back as nothing']
