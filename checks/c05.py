"""C05: instances mirror the whole tree below their source."""
from pbt.main import Part
from pbt.nxtlib import *  # noqa: F403
from pbt.nxtlib import need, eq, is_below, parts
from pbt.nxtlib import INTERNAL_ATTRS as IA
from pbt.structops import make_stage
from pbt import compgen, compcheck
from pbt import compmodel as cm

PROPERTY = 'C05'
RULE = ('a case is non-trivial when at least one node exists only because '
        'instancing mirrors it')


def check_mirror(d):
    ls = compgen.layers(d, 1, 2, 9, 1, 2, (1, 2), 4, settings=False,
                        world=False)
    d.note(ls)
    m = compgen.model(ls)
    s = make_stage(ls)
    comp = s.build_stage()
    need(not comp.failure, 'composite failed', comp.failure)
    compcheck.node_set(comp, m)
    compcheck.instances(comp, m, s)
    compcheck.internals(comp, m, s, (cm.CODE, cm.COMMENT, cm.ENABLED))
    compcheck.attributes(comp, m, s, s._sub_layers)
    if m.paths - set(m.real):
        d.interesting()
        deep = max(len(m.trace(p)) for p in m.paths)
        d.label('longest instance chain: {}'.format(deep))
    # stated directly on the composite, without the model
    have = compcheck.existing(comp)
    for p in sorted(have):
        if p == '/':
            continue
        src = getattr(comp.lookup(p), IA.INSTANCE_PATH, None)
        if not src or src == '/':
            continue
        stop = [q for q in have if is_below(q, p) and
                getattr(comp.lookup(q), IA.INSTANCE_PATH, None) == '']
        for q in have:
            if not is_below(q, src):
                continue
            t = p + q[len(src):]
            if any(t == x or is_below(t, x) for x in stop):
                continue
            if t in m.real:
                continue
            need(t in have, 'descendant of the source is not mirrored', p,
                 'source', src, 'missing', t)
            a, b = comp.lookup(q), comp.lookup(t)
            for attr in (IA.COMPUTE, IA.COMMENT, IA.ENABLED):
                eq(getattr(b, attr), getattr(a, attr),
                   'mirrored ' + attr, t, 'of', q)
            need(bool(getattr(b, IA.PROXY)), 'mirror is not a proxy', t)


PARTS = [Part('mirror', check_mirror, 20000, 400000,
              'instance chains, nested instances, overrides and stops')]
