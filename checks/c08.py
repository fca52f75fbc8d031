"""C08: structural edits move exactly what they should.
Oracle: a reference model of the edited layer (path -> content), compared with
the whole layer, its save data and its reloaded save file after every edit."""
import os

from pbt.main import Part
from pbt.nxtlib import *  # noqa: F403
from pbt.structops import *  # noqa: F403
from pbt.structops import gen_nodes, make_stage, layer_of, Model, Editor, \
    check_layer, saved, strip
from pbt.nxtlib import eq, need, SpecLayer

PROPERTY = 'C08'
RULE = ('a case is non-trivial when at least two edits changed a layer that '
        'holds a node with descendants')


def rest(data):
    """Where the nodes of all layers are shown may be kept in the top layer."""
    meta = data.get('meta_data', {})
    for key in ('positions', 'collapse'):
        meta.pop(key, None)
    if not meta:
        data.pop('meta_data', None)
    return data


def edits(d, implied, instances, nlayers, mutes=False):
    k = d.integer(1, nlayers)
    layers = []
    for i in range(k):
        nodes = gen_nodes(d, 1, 6, implied=implied, instances=instances)
        layers.append({'nodes': nodes})
        meta = {}
        for p in sorted(nodes):
            if p != '/' and d.boolean(1, 3):
                meta.setdefault('collapse', {})[p] = d.boolean(3, 4)
            if p != '/' and d.boolean(1, 4):
                meta.setdefault('positions', {})[p] = [d.draw(9), -1.5]
        if meta:
            layers[-1]['meta_data'] = meta
    for p in sorted(layers[-1]['nodes']) if k > 1 else ():
        if p != '/' and d.boolean(1, 4):
            layers[0].setdefault('meta_data', {}).setdefault(
                'positions', {}).setdefault(p, [d.draw(9), 2])
    d.note(layers)
    s = make_stage(layers)
    idx = d.draw(k - 1)
    layer = layer_of(s, idx)
    others = [layer_of(s, i) for i in range(k) if i != idx]
    if mutes and d.boolean():
        layer.set_muted(True)
        d.note('edited layer is muted')
    d.note('edit layer {}'.format(idx))
    frozen = [rest(saved(o)) for o in others]
    m = Model(layer)
    ed = Editor(d, s, layer, m, others)
    n = 0
    for _ in d.many(1, 6, (5, 6)):
        before = dict(m.nodes)
        op = ed.step()
        d.label(op)
        check_layer(layer, m, ed.last)
        for o, f in zip(others, frozen):
            eq(rest(saved(o)), f, 'another layer changed', ed.last)
        n += before != m.nodes
    d.interesting(n >= 2 and any(p.count('/') > 1 for p in m.nodes))
    # saved and reloaded as it is
    path = os.path.join(os.environ['VERIF_WORK'], 'edited.nxt')
    nodes = saved(layer).get('nodes', {})
    layer.save(path)
    back = SpecLayer.load_from_filepath(path)
    again = saved(back).get('nodes', {})
    eq({p: strip(n) for p, n in again.items()},
       {p: strip(n) for p, n in nodes.items()}, 'saved and reloaded')
    for p, n in nodes.items():
        # loading appends existing children the order does not mention
        co = n.get('child_order', [])
        eq(again[p].get('child_order', [])[:len(co)], co,
           'child order reloaded', p)
    check_layer(back, m, 'after reload')


def check_dense(d):
    edits(d, False, False, 1, True)


def check_sparse(d):
    edits(d, True, False, 2, True)


def check_instanced(d):
    edits(d, False, True, 2)


PARTS = [Part('dense', check_dense, 1200, 30000,
              'one layer, every ancestor exists'),
         Part('sparse', check_sparse, 1200, 30000,
              'one or two layers, nodes whose parents do not exist'),
         Part('instanced', check_instanced, 600, 15000,
              'layers that instance')]
ASSUMPTIONS = []
