"""C29: what a node shows can be written onto a layer, and put back."""
from pbt.main import Part
from pbt.nxtlib import need, eq, parts, parent, Discard, is_below
from pbt.nxtlib import INTERNAL_ATTRS as IA
from pbt.structops import make_stage, layer_of
from pbt import compgen, compmodel, snap
from pbt import filegen as fg

PROPERTY = 'C29'
RULE = ('a case is non-trivial when the node has attributes and something '
        'besides them, on a layer or through instances and ancestors')


def plain(v):
    return '' if v is None else str(v)


def shown(s, comp):
    """What every node shows, sources aside."""
    out = {}
    for p in snap.all_paths(comp):
        x = snap.node(s, comp, p)
        out[p] = {'attrs': {a: {k: plain(v[k]) for k in ('value', 'comment')}
                            for a, v in x['attrs'].items()},
                  'children': sorted(x.get('children', ())),
                  'enabled': x['enabled']}
        for k in snap.INTERNAL:
            out[p][k] = x[k]
    return out


def generated(d, lo, hi, size):
    ls = compgen.layers(d, lo, hi, size)
    for ly in ls:
        for n in ly['nodes'].values():
            for a in n.get('attrs', {}).values():
                if a.get('value') == '':
                    # written as text this is no opinion
                    a['value'] = 'full'
    return ls


def check_localize(d):
    ls = generated(d, 1, 3, 6)
    m = compgen.model(ls)
    s = make_stage(ls)
    comp = s.build_stage()
    need(not comp.failure, 'composite failed', comp.failure)
    pool = sorted(m.paths - {'/'})
    if not pool:
        raise Discard()
    p = d.choice(pool)
    t = d.choice(compgen.active_ids(ls))
    inherit = d.boolean()
    d.note([ls, p, t, inherit])
    layer = layer_of(s, t)
    before = shown(s, comp)
    rest = elsewhere(s, layer, p)
    order = snap.node(s, comp, p)['child_order']
    n = comp.lookup(p)
    names = sorted(m.visible(p) if inherit else m.local(p))
    data = s.get_node_data(n, comp, inherit)
    eq({a: plain(v.get('value')) for a, v in data['attributes'].items()},
       {a: plain(m.attr(p, a)[2]) for a in names}, 'values reported', p)
    eq({a: plain(v.get('comment')) for a, v in data['attributes'].items()},
       {a: plain(m.attr(p, a)[4]) for a in names}, 'comments reported', p)
    spec = layer.lookup(p)
    if spec is None:
        (spec,), _ = s.add_node(parts(p)[-1], {}, parent(p), layer,
                                fix_names=False)
        for up in list(rest[1]):
            # the order of the children names the new one
            if up == parent(p):
                rest[1].pop(up)
    s.transfer_node_data(spec, layer, data if d.boolean() else n, comp,
                         inherit)
    now = elsewhere(s, layer, p)
    eq(now[0], rest[0], 'another layer changed')
    for q in rest[1]:
        eq(now[1].get(q), rest[1][q], 'another node changed', q)
    again = s.build_stage()
    after = shown(s, again)
    eq(sorted(after), sorted(before), 'nodes')
    for q in set(after) - {p}:
        for x in (before, after):
            if inherit:
                # what was inherited is now the node's own, and nodes below
                # take it before what their instance source says
                x[q].pop('attrs')
                continue
            for a in x[q]['attrs'].values():
                # a comment which is empty hides that of an instance
                a.pop('comment')
    need(after == before, 'what is shown changed', snap.diff(before, after))
    if not any(layer_of(s, i).lookup(p) for i in compgen.active_ids(ls)
               if i < t):
        # below another layer the order is merged anew with that layer's
        eq(snap.node(s, again, p)['child_order'], order, 'child order')
    d.interesting(bool(names) and any(
        compmodel.opinion(before[p][k]) for k in snap.INTERNAL))


def elsewhere(s, layer, p):
    nodes = fg.describe(layer)['nodes']
    nodes.pop(p, None)
    return [fg.describe(x) for x in s._sub_layers if x is not layer], nodes


def normal(desc):
    for n in desc['nodes'].values():
        for a in n['attrs'].values():
            a['value'] = plain(a['value'])
            a['comment'] = plain(a['comment'])
            a.pop('type')
        for k in n:
            if k != 'attrs' and n[k] in ('', []):
                n[k] = None
    return desc


def check_restore(d):
    ls = generated(d, 1, 2, 6)
    s = make_stage(ls)
    layer = layer_of(s, 0)
    pool = [p for p in sorted(ls[0]['nodes']) if p != '/']
    if not pool:
        raise Discard()
    before = normal(fg.describe(layer))
    gone = []
    for p in d.sample(pool, 1):
        # deepest first, so that every parent is there when put back
        gone.append(p)
    gone.sort(key=lambda q: -len(parts(q)))
    d.note([ls, gone])
    kept = []
    for p in gone:
        node = layer.lookup(p)
        kept.append(s.get_node_data(node, layer))
    for p in gone:
        s.delete_node(layer.lookup(p), layer, remove_layer_data=False)
        need(layer.lookup(p) is None, 'deleted', p)
    for p, data in reversed(list(zip(gone, kept))):
        (new,), _ = s.add_node(parts(p)[-1], {}, parent(p), layer,
                               fix_names=False)
        s.transfer_node_data(new, layer, data, layer)
    after = normal(fg.describe(layer))
    for q in set(after['nodes']) - set(gone):
        # children deleted lose their place
        for x in (before, after):
            n = x['nodes'].get(q, {})
            n[IA.CHILD_ORDER] = sorted(n.get(IA.CHILD_ORDER) or [])
    for q in sorted(before['nodes']):
        for k in sorted(before['nodes'][q]):
            eq(after['nodes'].get(q, {}).get(k), before['nodes'][q][k],
               'node put back', q, k)
    eq(after, before, 'layer')
    d.interesting(any(x['attributes'] for x in kept))


PARTS = [Part('localize', check_localize, 2500, 60000,
              'up to 3 layers of up to 6 paths; any node of the composite '
              'onto any layer which counts'),
         Part('restore', check_restore, 2500, 60000,
              'any number of nodes of a layer deleted and put back')]
ASSUMPTIONS = ['empty texts are no opinion when written as attribute text',
               'the type of an attribute is determined anew']
