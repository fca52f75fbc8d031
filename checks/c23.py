"""C23: attribute edits take effect where made and nowhere else."""
import copy

from pbt.main import Part
from pbt.nxtlib import need, eq, Discard
from pbt.structops import make_stage, layer_of, saved
from pbt import compgen, compcheck, compmodel, attrops
from pbt import filegen as fg

PROPERTY = 'C23'
RULE = ('a case is non-trivial when at least two edits were made and the '
        'edited layers are part of a composite of two or more nodes')

ATTR_OPS = [(4, 'set'), (3, 'new'), (2, 'comment'), (3, 'rename'),
            (3, 'delete'), (1, 'code')]


def edited_model(s, ls, from_idx=0):
    """The reference composite of the layers as they are now."""
    now = []
    for i, data in enumerate(ls):
        data = dict(data, nodes=attrops.raw(layer_of(s, i))['nodes'])
        now.append(data)
    ids = compgen.active_ids(now, from_idx)
    m = compmodel.Comp([now[i] for i in ids], ids)
    m.check_all()
    return m


def composite(s, ls, comp=None):
    m = edited_model(s, ls)
    comp = comp or s.build_stage()
    compcheck.node_set(comp, m)
    compcheck.internals(comp, m, s)
    compcheck.attributes(comp, m, s, s._sub_layers)


def check_edits(d):
    ls = compgen.layers(d, lo=1, hi=3, size=5, inst=(1, 5))
    d.note(ls)
    compgen.model(ls)
    s = make_stage(ls)
    editors = {}
    done = 0
    for _ in d.many(1, 6, (5, 6)):
        i = d.integer(0, len(ls) - 1)
        if i not in editors:
            editors[i] = attrops.AttrEditor(d, s, layer_of(s, i))
        ed = editors[i]
        ed.comp = s.build_stage() if d.boolean() else None
        others = [fg.describe(layer_of(s, j)) for j in range(len(ls))
                  if j != i]
        d.note('layer {}'.format(i))
        op = ed.step(ATTR_OPS if d.boolean(2, 3) else None)
        if op is None:
            continue
        done += 1
        ed.check(op)
        eq([fg.describe(layer_of(s, j)) for j in range(len(ls)) if j != i],
           others, 'another layer changed', op)
        composite(s, ls)
    d.interesting(done >= 2 and len(ls) >= 1 and
                  sum(len(x['nodes']) for x in ls) >= 2)


def check_undo(d):
    """An attribute that is added and deleted, or renamed there and back,
    leaves everything as it was."""
    ls = compgen.layers(d, lo=1, hi=3, size=5, inst=(1, 5))
    d.note(ls)
    compgen.model(ls)
    s = make_stage(ls)
    i = d.integer(0, len(ls) - 1)
    ly = layer_of(s, i)
    ps = sorted(ls[i]['nodes'])
    if not ps:
        raise Discard('no nodes')
    p = d.choice(ps)
    node = ly.lookup(p)
    before = [fg.describe(x) for x in s._sub_layers]
    save = [saved(x) for x in s._sub_layers]
    have = sorted(fg.spec(node)['attrs'])
    k = d.draw(2)
    d.note([i, p, k])
    d.interesting(len(ps) >= 2)
    if k == 0 or not have:
        name = s.add_node_attr(node, d.choice(attrops.NEW), {'value': 'v'},
                               ly)
        need(name not in have, 'a taken name was given', name)
        need(s.get_node_attr_value(s.build_stage().lookup(p), name,
                                   s.build_stage(), resolved=False) ==
             'v' if compgen.active_ids(ls) == [i] else True, 'new value')
        s.delete_node_attr(node, name)
    elif k == 1:
        a = d.choice(have)
        new = 'fresh_name'
        s.rename_node_attr(node, a, new, ly)
        now = fg.spec(node)['attrs']
        eq(now.get(new), before[i]['nodes'][p]['attrs'][a],
           'renamed attribute')
        need(a not in now, 'old name is still there', a)
        s.rename_node_attr(node, new, a, ly)
    else:
        a = d.choice(have)
        old = copy.deepcopy(before[i]['nodes'][p]['attrs'][a])
        if not isinstance(old['value'], str) or not old['value'] or \
                old['type'] not in (None, attrops.type_of(old['value'])):
            raise Discard('value is not text')
        s.node_setattr_data(node, a, ly, True, value='other')
        s.node_setattr_data(node, a, ly, True, value=old['value'])
        if old['type'] is None:
            before[i]['nodes'][p]['attrs'][a]['type'] = \
                attrops.type_of(old['value'])
            save = None
    eq([fg.describe(x) for x in s._sub_layers], before, 'layers after undoing')
    if save is not None:
        eq([saved(x) for x in s._sub_layers], save, 'saved data after undoing')


PARTS = [Part('edits', check_edits, 1600, 40000,
              'attribute edits on layer stacks against the layer and '
              'composite models'),
         Part('undo', check_undo, 1200, 30000,
              'edits that cancel out')]
ASSUMPTIONS = ['setting empty text takes the value of an existing attribute '
               'away; a new attribute is created with a value']
