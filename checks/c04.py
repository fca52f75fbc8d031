"""C04: attributes resolve own opinion, then parent, then instance."""
from pbt.main import Part
from pbt.nxtlib import *  # noqa: F403
from pbt.nxtlib import need, eq
from pbt.structops import make_stage
from pbt import compgen, compcheck
from pbt import compmodel as cm

PROPERTY = 'C04'
RULE = ('a case is non-trivial when some node sees an attribute that both an '
        'ancestor and its instance source could provide, or that comes from '
        'more than one step away')


def check_resolution(d):
    ls = compgen.layers(d, 1, 3, 8, 3, 4, (1, 2), 4, settings=False)
    d.note(ls)
    m = compgen.model(ls)
    for p in m.paths:
        for a in m.visible(p):
            q = m.attr(p, a)[0]
            order = m.mro(p)
            if order.index(q) > 1:
                d.interesting()
                d.label('attribute from two or more steps away')
            if q != p and sum(a in m.local(x) for x in order) > 1:
                d.interesting()
                d.label('several providers')
    s = make_stage(ls)
    comp = s.build_stage()
    need(not comp.failure, 'composite failed', comp.failure)
    compcheck.node_set(comp, m)
    compcheck.attributes(comp, m, s, s._sub_layers)
    compcheck.derived_names(comp, m, s)
    compcheck.internals(comp, m, s, (cm.CODE, cm.COMMENT, cm.ENABLED))


PARTS = [Part('resolution', check_resolution, 2400, 60000,
              'hierarchies with instances, several layers')]
