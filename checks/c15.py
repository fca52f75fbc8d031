"""C15: failures and exits in node code are contained and located."""
import re

from pbt.main import Part
from pbt.nxtlib import need, eq, Discard, parts, to_path, Violation
from pbt.structops import make_stage
from pbt import compgen, progs, runlog
from checks import c13
from nxt.runtime import (GraphError, GraphSyntaxError, ExitGraph, ExitNode,
                         InvalidNodeError)

PROPERTY = 'C15'
RULE = ('a case is non-trivial when code of a node failed or exited, with '
        'other nodes before or after it')

PLACE = re.compile(r'line (\d+), in (\S+)')


def located(e, stop, code):
    """The error names the node and the line that failed."""
    text = str(e)
    got = PLACE.search(text.splitlines()[0])
    need(got, 'an error without a place', text)
    eq((got.group(2), int(got.group(1))), (stop.path, stop.line),
       'where the error is said to be', text)
    line = code.split('\n')[stop.line - 1].strip()
    need(line in text or not line, 'the failing line is not shown', line,
         text)
    need(stop.err in text, 'the error is not shown', stop.err, text)
    called(stop, text)


def called(stop, text):
    """What was called on the way to the error is shown, in that order."""
    if 'deep' in stop.err:
        at = [text.find('in ' + f) for f in ('outer', 'inner', 'middle')]
        need(-1 not in at and at == sorted(at), 'what was called is not '
             'shown', text)


def outcome(fn):
    try:
        return fn(), None
    except (GraphError, ExitGraph, ExitNode) as e:
        return None, e


def compare(r, stop, e):
    c13.expect_log(runlog.take(), r.log)
    if stop is None:
        need(e is None, 'a run without failures raised', type(e), e)
    elif stop.kind == 'graph':
        need(isinstance(e, ExitGraph), 'leaving the graph ended with',
             type(e), e)
        eq(str(e), stop.err, 'what the exit says')
    else:
        need(isinstance(e, GraphError), 'an error ended with', type(e), e)
        located(e, stop, r.code[stop.path])


def cached(rt, r):
    ran = {p for p in rt.cache_layer.nodes if p != '/'}
    eq(sorted(ran), sorted(set(r.ran)), 'nodes in the record of the run')
    for p in sorted(ran):
        n = rt.cache_layer.nodes[p]
        for a, v in r.frames[p].items():
            got = getattr(n, a, progs.NOTHING)
            need(repr(got) == repr(v), 'recorded value', p, a,
                 'got', repr(got), 'want', repr(v))


def check_contained(d):
    ls, programs = progs.graph(d, 1, 2, 6, exits=True)
    d.note(ls)
    m = compgen.model(ls)
    s = make_stage(ls)
    r = progs.Runtime(m, programs)
    paths = sorted(m.paths - {'/'})
    if not paths:
        raise Discard('empty')
    order = d.permutation(paths) + [d.choice(paths) for _ in d.many(0, 3)]
    d.note(order)
    comp = s.build_stage()
    runlog.take()
    r.run_world()
    rt = s.execute_nodes([], comp)
    stop = r.run(order)
    if stop is not None:
        d.label(stop.kind)
        d.interesting(len(r.ran) > 1 or len(order) > 1)
    _, e = outcome(lambda: s.execute_nodes(order, rt))
    compare(r, stop, e)
    if isinstance(e, ExitGraph):
        need(e.runtime_layer is rt, 'the exit does not carry the run')
    c13.final(rt, r, m)
    cached(rt, r)
    if d.boolean():     # the run can go on
        del r.log[:]
        more = [d.choice(paths) for _ in d.many(1, 4)]
        d.note(['then', more])
        stop = r.run(more)
        _, e = outcome(lambda: s.execute_nodes(more, rt))
        compare(r, stop, e)
        c13.final(rt, r, m)
        cached(rt, r)


def check_whole(d):
    """Runs through Stage.execute and custom code."""
    ls, programs = progs.graph(d, 1, 2, 6, exits=True)
    d.note(ls)
    m = compgen.model(ls)
    s = make_stage(ls)
    r = progs.Runtime(m, programs)
    paths = sorted(m.paths - {'/'})
    if not paths:
        raise Discard('empty')
    comp = s.build_stage()
    start = d.choice(paths)
    order = comp.get_exec_order(start)
    runlog.take()
    r.run_world()
    if d.boolean(2, 3):
        d.note(start)
        stop = r.run(order)
        rt, e = outcome(lambda: s.execute(start=start))
        compare(r, stop, e)
        if isinstance(e, ExitGraph):
            rt = e.runtime_layer
            need(rt is not None, 'the exit does not carry the run')
        if rt is not None:
            c13.final(rt, r, m)
            cached(rt, r)
        if stop is not None:
            d.label(stop.kind)
            d.interesting(len(order) > 1)
        return
    node = progs.gen(d, paths, 0, 4, True, True)
    node.stmts.append(('local', 'v', 1))
    code = '\n'.join(node.lines())
    d.note([start, 'custom', code])
    r.program = lambda p: node
    del r.log[:]
    rt = s.execute_nodes([], comp)
    runlog.take()
    try:
        r.run_node(start)
        stop = None
    except progs.Stop as x:
        stop = x
    try:
        out, e = s.execute_custom_code(code, start, rt), None
    except GraphError as x:
        out, e = None, x
    d.label('custom code')
    d.interesting(stop is not None)
    c13.expect_log(runlog.take(), r.log)
    if stop is None:
        need(e is None and out is None, 'custom code ended with', out, e)
    elif stop.kind == 'error':
        need(e is not None, 'custom code that fails ended without error', out)
        located(e, stop, r.code[start])
    else:
        want = ExitGraph if stop.kind == 'graph' else ExitNode
        need(type(out) is want, 'custom code that exits returned', out, e)
        if stop.kind == 'graph':
            eq(str(out), stop.err, 'what the exit says')
    c13.final(rt, r, m)


def check_world(d):
    """Failures and exits in the code of the world node."""
    steps = [('log', i) for i in range(d.integer(0, 3))]
    at = d.draw(len(steps))
    kind, text, off, err = d.choice([('raise',) + x for x in progs.RAISES] +
                                    [('bad',) + x for x in progs.BAD])
    code = []
    line = None
    log = []
    for i, _ in enumerate(steps + [0]):
        if i == at:
            line = len(code) + 1 + off
            code += text.split('\n')
        if i < len(steps):
            code.append(runlog.LINE.replace('${_nxtpath}',
                                            'w{}'.format(i)))
            if i < at:
                log.append('w{}'.format(i))
    nodes = {'/': {'code': code, 'attrs': {'x': {'value': '1'}}},
             '/a': {'code': [runlog.LINE]}, '/a/b': {'code': [runlog.LINE]}}
    d.note(nodes)
    d.interesting(len(steps) > 0)
    s = make_stage([{'nodes': nodes}])
    runlog.take()
    how = d.choice(['execute', 'nodes', 'nothing'])
    if how == 'execute':
        rt, e = outcome(lambda: s.execute(start='/a'))
        after = ['/a', '/a/b']
    else:
        after = ['/a/b'] if how == 'nodes' else []
        rt, e = outcome(lambda: s.execute_nodes(after, s.build_stage()))
    got = runlog.take()
    if 'ExitNode' in text:
        need(e is None, 'leaving the world node early ended the run', repr(e))
        eq(got, log + after, 'what ran')
    elif 'ExitGraph' in text:
        need(isinstance(e, ExitGraph), 'leaving the graph ended with', e)
        need(e.runtime_layer is not None, 'the exit does not carry the run')
        eq(got, log, 'what ran')
    else:
        need(isinstance(e, GraphError), 'an error ended with', e)
        eq(got, [] if kind == 'bad' else log, 'what ran')
        located(e, progs.Stop('error', '/', line, err), '\n'.join(code))


def check_nested(d):
    """A failure in nodes that are executed by node code names them all."""
    names = ['/a', '/b', '/c', '/d', '/e'][:d.integer(2, 5)]
    nodes, prog = {}, {}
    for i, p in enumerate(names):
        steps = []
        for _ in d.many(0, 4, (3, 4)):
            k = d.draw(5)
            later = names[i + 1:]
            if k <= 1 or not later and k <= 3:
                steps.append(('log',))
            elif k == 2:
                steps.append(('paths', d.sample(later, 1)))
            elif k == 3:
                steps.append(('start', d.choice(later)))
            else:
                steps.append(('raise',) + d.choice(progs.RAISES))
        prog[p] = steps
        code = []
        for st in steps:
            code += lines(st)
        nodes[p] = {'code': code}
    d.note(nodes)
    log, trail = [], []

    class End(Exception):
        pass

    def perform(p):
        line = 1
        for st in prog[p]:
            if st[0] == 'log':
                log.append(p)
            elif st[0] == 'raise':
                if 'ExitNode' in st[1]:
                    return
                if 'ExitGraph' in st[1]:
                    raise End()
                trail.append((p, line + st[2]))
                raise progs.Stop('error', p, line + st[2], st[3])
            else:
                todo = st[1] if st[0] == 'paths' else [st[1]]
                try:
                    for q in todo:
                        perform(q)
                except progs.Stop:
                    trail.append((p, line))
                    raise
            line += len(lines(st))
    stop = left = None
    try:
        for p in names[:2]:
            perform(p)
    except progs.Stop as e:
        stop = e
    except End:
        left = True
    runlog.take()
    s = make_stage([{'nodes': nodes}])
    rt, e = outcome(lambda: s.execute_nodes(names[:2], s.build_stage()))
    eq(runlog.take(), log, 'what ran')
    d.interesting(len(trail) > 1 or left)
    if stop is not None:
        need(isinstance(e, GraphError), 'an error ended with', repr(e))
        got = [(b, int(a)) for a, b in PLACE.findall(str(e)) if b in names]
        eq(got, trail[::-1], 'places the error names', str(e))
        need(stop.err in str(e), 'the error is not shown')
        called(stop, str(e))
        d.label('depth {}'.format(len(trail)))
    elif left:
        need(isinstance(e, ExitGraph), 'leaving the graph ended with',
             repr(e))
    else:
        need(e is None, 'a run without failures raised', repr(e))


def lines(st):
    if st[0] == 'log':
        return [runlog.LINE]
    if st[0] == 'paths':
        return ['execute({!r})'.format(st[1])]
    if st[0] == 'start':
        return ['execute(start={!r})'.format(st[1])]
    return st[1].split('\n')


PARTS = [Part('contained', check_contained, 3500, 40000,
              'generated programs with errors, exits and code that does not '
              'compile against a reference interpreter; runs go on after'),
         Part('whole', check_whole, 2500, 30000,
              'the same through Stage.execute and custom code'),
         Part('world', check_world, 600, 10000,
              'every kind of failure in the world node'),
         Part('nested', check_nested, 2500, 25000,
              'failures in nodes that node code executes')]
ASSUMPTIONS = ['the line of a failure in a function the node defines is the '
               'line of the node that called it',
               'lines with tokens that bring new lines are not generated']
