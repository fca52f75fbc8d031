"""C30: code run in the context of a node acts as code of that node."""
from pbt.main import Part
from pbt.nxtlib import need, eq, Discard
from pbt.structops import make_stage
from pbt import compgen, progs, runlog, snap
from checks import c13, c15
from nxt.runtime import GraphError, ExitGraph, ExitNode

PROPERTY = 'C30'
RULE = ('a case is non-trivial when the code given changed a value, a global '
        'name, failed or exited, with nodes run before or after it')


def snippet(d, paths, exits):
    node = progs.gen(d, paths, 0, 5, True, exits)
    node.stmts.insert(d.draw(len(node.stmts)), d.choice(
        [('get', 'x'), ('set', 'x', d.choice(progs.LITS)),
         ('local', 'v', 1)]))
    if d.boolean(1, 8):
        node.stmts[:] = []
    return node


def given_code(d, node):
    """The text of it."""
    lines = node.lines() if node.stmts else []
    # an unclosed token only matters on its own line
    return '\n'.join(lines + d.choice([[], [], ['# ${'], ['# ${x', '#}']]))


def check_model(d):
    """Code given between the nodes of a run, against the interpreter of node
    programs."""
    ls, programs = progs.graph(d, 1, 2, 6, exits=False)
    m = compgen.model(ls)
    s = make_stage(ls)
    r = progs.Runtime(m, programs)
    paths = sorted(m.paths - {'/'})
    if not paths:
        raise Discard('empty')
    d.note(ls)
    given = None
    if d.boolean(1, 4):
        given = {d.choice(paths) + '.' + d.choice('xyz'): d.choice(
            ['5', 7, 'p', '[1]'])}
        r.params(given)
    comp = s.build_stage()
    before = snap.comp(s, comp)
    runlog.take()
    r.run_world()
    rt = s.execute_nodes([], comp, given)
    c13.expect_log(runlog.take(), r.log)
    usual = r.program
    n = 0
    for _ in d.many(1, 6, (4, 5)):
        del r.log[:]
        if d.boolean(2, 5):
            todo = [d.choice(paths) for _ in d.many(1, 3)]
            d.note(['nodes', todo])
            r.run(todo)
            s.execute_nodes(todo, rt)
            c13.expect_log(runlog.take(), r.log)
            n += 1
            continue
        p = d.choice(paths)
        node = snippet(d, paths, d.boolean(1, 3))
        code = given_code(d, node)
        d.note(['code', p, code])
        changes = r.changes
        r.program = lambda q: node if q == p else usual(q)
        stop = None
        try:
            r.run_node(p)
        except progs.Stop as x:
            stop = x
        finally:
            r.program = usual
        try:
            out, e = s.execute_custom_code(code, p, rt), None
        except GraphError as x:
            out, e = None, x
        c13.expect_log(runlog.take(), r.log)
        if stop is None:
            need(e is None and out is None, 'it ended with', out, e)
        elif stop.kind == 'error':
            need(e is not None, 'code that fails ended without error', out)
            c15.located(e, stop, r.code[p])
        else:
            want = ExitGraph if stop.kind == 'graph' else ExitNode
            need(type(out) is want, 'code that exits returned', out, e)
        n += 1
        d.interesting(n > 1 and (stop is not None or r.changes > changes))
        c13.final(rt, r, m)
        c15.cached(rt, r)
    c13.final(rt, r, m)
    c15.cached(rt, r)
    now = snap.comp(s, comp)
    if now != before:
        need(False, 'the composite changed', snap.diff(before, now))


def check_alone(d):
    """Code given with a composite that is not running: a run of its own."""
    ls, programs = progs.graph(d, 1, 2, 6, exits=False)
    m = compgen.model(ls)
    s = make_stage(ls)
    paths = sorted(m.paths - {'/'})
    if not paths:
        raise Discard('empty')
    d.note(ls)
    comp = s.build_stage()
    before = snap.comp(s, comp)
    for _ in d.many(1, 3):
        r = progs.Runtime(m, programs)
        usual = r.program
        p = d.choice(paths)
        node = snippet(d, paths, d.boolean(1, 4))
        code = given_code(d, node)
        d.note(['code', p, code])
        r.run_world()
        r.program = lambda q: node if q == p else usual(q)
        stop = None
        try:
            r.run_node(p)
        except progs.Stop as x:
            stop = x
        runlog.take()
        try:
            out, e = s.execute_custom_code(code, p, comp), None
        except GraphError as x:
            out, e = None, x
        c13.expect_log(runlog.take(), r.log)
        if stop is None:
            need(e is None and out is None, 'it ended with', out, e)
        elif stop.kind == 'error':
            need(e is not None, 'code that fails ended without error', out)
        else:
            want = ExitGraph if stop.kind == 'graph' else ExitNode
            need(type(out) is want, 'code that exits returned', out, e)
        d.interesting(r.changes > 0 or stop is not None)
        now = snap.comp(s, comp)
        if now != before:
            need(False, 'the composite changed', snap.diff(before, now))


PARTS = [Part('model', check_model, 3000, 40000,
              'code given before, between and after nodes of a run'),
         Part('alone', check_alone, 1000, 12000,
              'code given with a composite')]
ASSUMPTIONS = ['lines with tokens that bring new lines are not generated']
