"""C13: values computed by a node reach exactly who should see them."""
from pbt.main import Part
from pbt.nxtlib import need, eq, Discard
from pbt.structops import make_stage
from pbt import compgen, progs, runlog

PROPERTY = 'C13'
RULE = ('a case is non-trivial when an attribute changed while the graph ran '
        'and a value that was set at runtime was read by another node')


def expect_log(got, want):
    if got != want:
        i = 0
        while i < min(len(got), len(want)) and got[i] == want[i]:
            i += 1
        need(False, 'what node code saw', 'after', got[:i][-3:], 'got',
             got[i:i + 2], 'want', want[i:i + 2])


def final(rt, r, m):
    """Values on the runtime nodes after the run."""
    for p in sorted(m.paths):
        n = rt.lookup(p)
        for a in sorted(r.visible(p)):
            found, v, _ = r.lookup(p, a)
            got = getattr(n, a, progs.NOTHING)
            need(repr(got) == repr(v), 'value after the run', p,
                 a, 'got', repr(got), 'want', repr(v))


def params(d, m):
    out = {}
    for _ in d.many(0, 3, (1, 2)):
        p = d.choice(sorted(m.paths) + ['/missing'])
        out['{}.{}'.format(p, d.choice(progs.ATTRS))] = d.choice(
            ['1', 5, 'text', None, '${y}', [1, 2], True, '', "{'a': 2}"])
    return out


def check_flow(d):
    ls, programs = progs.graph(d, settings=d.boolean(1, 4))
    d.note(ls)
    m = compgen.model(ls)
    s = make_stage(ls)
    r = progs.Runtime(m, programs)
    paths = sorted(m.paths - {'/'})
    if not paths:
        raise Discard('empty')
    order = list(paths) if d.boolean() else d.permutation(paths)
    order += [d.choice(paths) for _ in d.many(0, 5, (2, 3))]
    given = params(d, m) if d.boolean(1, 3) else None
    d.note([order, given])
    comp = s.build_stage()
    runlog.take()
    if given:
        r.params(given)
    r.run_world()
    stop = r.run(order)
    need(stop is None, 'model', stop)
    rt = s.execute_nodes(order, comp, given)
    expect_log(runlog.take(), r.log)
    final(rt, r, m)
    # go on with the same runtime layer
    if d.boolean(1, 3):
        more = [d.choice(paths) for _ in d.many(1, 4)]
        given = params(d, m) if d.boolean() else None
        d.note(['then', more, given])
        if given:
            r.params(given)
        del r.log[:]
        r.run(more)
        got = s.execute_nodes(more, rt, given)
        need(got is rt, 'a runtime layer was not continued')
        expect_log(runlog.take(), r.log)
        final(rt, r, m)
        d.label('continued')
    d.interesting(r.changes > 0 and r.flows > 0)


PARTS = [Part('flow', check_flow, 2500, 60000,
              'programs run in arbitrary orders against a reference '
              'interpreter')]
ASSUMPTIONS = ['an attribute that no layer gives a node, set by its code, is '
               'not claimed to be seen elsewhere']
