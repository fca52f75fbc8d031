"""C03: the strongest active layer decides every node opinion."""
from pbt.main import Part
from pbt.nxtlib import *  # noqa: F403
from pbt.nxtlib import need, eq
from pbt.structops import make_stage, layer_of
from pbt import compgen, compcheck

PROPERTY = 'C03'
RULE = ('a case is non-trivial when some node or attribute has opinions in at '
        'least two layers and at least one layer is active')


def layers_case(d, **kw):
    ls = compgen.layers(d, **kw)
    d.note(ls)
    n = len(ls)
    from_idx = d.integer(0, n - 1) if d.boolean(1, 3) else 0
    d.note({'from_idx': from_idx})
    ids = compgen.active_ids(ls, from_idx)
    count = {}
    for i in ids:
        for p in ls[i]['nodes']:
            count[p] = count.get(p, 0) + 1
    d.interesting(any(c > 1 for c in count.values()))
    if len(ids) < n - from_idx:
        d.label('some layer is inactive')
    if not ids:
        d.label('no active layer')
    return ls, from_idx, ids


def check_opinions(d):
    ls, from_idx, ids = layers_case(d, inst=(1, 8))
    m = compgen.model(ls, from_idx)
    s = make_stage(ls)
    st = compgen.shown(ls)
    for i in range(len(ls)):
        eq((bool(layer_of(s, i).get_muted()), bool(layer_of(s, i).get_soloed())),
           (bool(st[i][0]), bool(st[i][1])), 'mute and solo of layer', i)
    folded, placed = {}, {}
    for i in reversed(range(len(ls))):
        layer = layer_of(s, i)
        folded.update(layer.collapse)
        placed.update({p: list(v) for p, v in layer.positions.items()})
        for p in sorted(ls[i]['nodes']):
            k = d.draw(7)
            if k in (1, 2):
                layer.collapse[p] = folded[p] = k == 1
            elif k in (3, 4):
                layer.positions[p] = placed[p] = [i, k]
    comp = s.build_stage(from_idx=from_idx)
    if from_idx == 0 and len(ids) == len(ls):
        eq(dict(comp.collapse), folded, 'nodes shown collapsed')
        eq({p: list(v) for p, v in comp.positions.items()}, placed,
           'where nodes are placed')
    need(not comp.failure, 'composite failed', comp.failure)
    compcheck.node_set(comp, m)
    compcheck.internals(comp, m, s)
    compcheck.instances(comp, m, s)
    subs = s._sub_layers[from_idx:]
    compcheck.attributes(comp, m, s, subs, own_only=True)
    for p in sorted(m.paths):
        got = [ly.real_path for ly in s.get_layers_with_opinion(
            p, [s._sub_layers[i] for i in ids])]
        want = [compcheck.rp(i) for i, _ in m.real.get(p, ())]
        eq(got, want, 'layers with an opinion', p)


def check_toggle(d):
    """Toggling mute and solo on the open stage and building again."""
    ls, from_idx, _ = layers_case(d, lo=2, inst=(1, 8), size=5)
    s = make_stage(ls)
    for _ in d.many(1, 4):
        i = d.integer(0, len(ls) - 1)
        j = d.integer(0, len(ls) - 1)
        k = d.draw(3)
        v = d.boolean()
        d.note(['toggle', k, i, j, v])
        key = 'mute' if k % 2 == 0 else 'solo'
        if k < 2:
            ls[i][key] = v
            getattr(layer_of(s, i), 'set_muted' if key == 'mute' else
                    'set_soloed')(v)
        else:
            path = compcheck.rp(j)
            getattr(layer_of(s, i), 'set_{}_over'.format(key))(path, v)
            ls[i].setdefault('comp_overrides', {}).setdefault(
                path, {})[key] = v
        m = compgen.model(ls, from_idx)
        comp = s.build_stage(from_idx=from_idx)
        compcheck.node_set(comp, m)
        compcheck.internals(comp, m, s)
        compcheck.attributes(comp, m, s, s._sub_layers[from_idx:],
                             own_only=True)


PARTS = [Part('opinions', check_opinions, 2400, 60000,
              'layer stacks with mute, solo and overrides against the model'),
         Part('toggle', check_toggle, 800, 16000,
              'mute/solo toggled on an open stage, rebuilt each time')]
