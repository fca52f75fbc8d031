"""C21: layer settings follow the overriding parent, and can be undone."""
import copy
import os

from pbt.main import Part
from pbt.nxtlib import need, eq, Stage
from pbt.structops import make_stage, layer_of, saved
from pbt import filegen as fg

PROPERTY = 'C21'
RULE = ('a case is non-trivial when there are at least two layers and some '
        'layer overrides a setting of a layer below it')

KEYS = ['alias', 'color', 'lock', 'mute', 'solo']
VALUES = {'alias': ['one', 'two', 'three'],
          'color': ['#111111', '#222222', '#333333'],
          'lock': [True, False], 'mute': [True, False],
          'solo': [True, False]}
WHERE = {'alias': 'aliases', 'color': 'colors', 'lock': 'locks'}


class Model(object):
    """parents: index of the parent of each layer or None; names: the file
    path each layer is known by."""

    def __init__(self, parents, names):
        self.parents = parents
        self.names = names
        self.own = [dict.fromkeys(KEYS) for _ in parents]
        self.over = [{k: {} for k in KEYS} for _ in parents]

    def chain(self, i):
        """The layers above i, topmost first, then i."""
        out = []
        while i is not None:
            out.insert(0, i)
            i = self.parents[i]
        return out

    def override(self, i, key):
        for j in self.chain(i):
            if self.names[i] in self.over[j][key]:
                return True, self.over[j][key][self.names[i]]
        return False, None

    def shown(self, i, key):
        found, v = self.override(i, key)
        if not found:
            v = self.own[i][key]
        return bool(v) if key in ('lock', 'mute', 'solo') else v


def getter(ly, key, local):
    return {'alias': ly.get_alias, 'color': ly.get_color,
            'lock': ly.get_locked, 'mute': ly.get_muted,
            'solo': ly.get_soloed}[key](local=local)


def compare(layers, m, what):
    for i, ly in enumerate(layers):
        for key in KEYS:
            got = getter(ly, key, False)
            if key in ('lock', 'mute', 'solo'):
                got = bool(got)
            eq(got, m.shown(i, key), 'shown ' + key, what, 'layer', i)
            got = getter(ly, key, True)
            want = m.own[i][key]
            if key in ('lock', 'mute', 'solo'):
                got, want = bool(got), bool(want)
            eq(got, want, 'own ' + key, what, 'layer', i)
        for key in WHERE:
            fn = {'alias': ly.get_alias, 'color': ly.get_color,
                  'lock': ly.get_locked}[key]
            found, v = m.override(i, key)
            got = fn(local=False, fallback_to_local=False)
            if key == 'lock':
                got, v = bool(got), bool(v)
            eq(got, v if found else (False if key == 'lock' else None),
               'override of ' + key, what, 'layer', i)


def root_of(m, i):
    c = m.chain(i)
    return c[0] if len(c) > 1 else None


def op(d, layers, m):
    """One settings edit; returns (label, undo or None)."""
    n = len(layers)
    i = d.integer(0, n - 1)
    key = d.choice(KEYS)
    v = d.choice(VALUES[key])
    kind = d.draw(2)
    ly = layers[i]
    if kind == 0:
        m.own[i][key] = v
        if key == 'color':
            ly.color = v
        else:
            {'alias': ly.set_alias, 'lock': ly.set_locked,
             'mute': ly.set_muted, 'solo': ly.set_soloed}[key](v)
        return 'own {} of {} = {}'.format(key, i, v)
    if key in WHERE:
        r = root_of(m, i)
        if r is None:
            return None
        fn = {'alias': ly.set_alias_over, 'color': ly.set_color_over,
              'lock': ly.set_locked_over}[key]
        if kind == 2:
            fn(None)
            m.over[r][key].pop(m.names[i], None)
            return 'no override of {} of {}'.format(key, i)
        fn(v)
        m.over[r][key][m.names[i]] = v
        return 'override {} of {} = {}'.format(key, i, v)
    j = d.integer(0, n - 1)
    if m.names[j] == m.names[i]:
        return None
    getattr(layers[j], 'set_{}_over'.format(key))(m.names[i], v)
    m.over[j][key][m.names[i]] = v
    return '{} overrides {} of {} = {}'.format(j, key, i, v)


def start(d, parents, names):
    m = Model(parents, names)
    datas = []
    for i, p in enumerate(parents):
        data = {'filepath': names[i],
                'real_path': '/nowhere/layer{}.nxt'.format(i)}
        if p is not None:
            data['parent'] = p
        for key in KEYS:
            if d.boolean(1, 3) or key == 'alias':
                data[key] = m.own[i][key] = d.choice(VALUES[key])
        meta = {}
        for key in WHERE:
            for j in range(len(parents)):
                if d.boolean(1, 6):
                    v = d.choice(VALUES[key])
                    meta.setdefault(WHERE[key], {})[names[j]] = v
                    m.over[i][key][names[j]] = v
        overs = {}
        for key in ('mute', 'solo'):
            for j in range(len(parents)):
                if d.boolean(1, 6):
                    v = d.boolean()
                    overs.setdefault(names[j], {})[key] = v
                    m.over[i][key][names[j]] = v
        if meta:
            data['meta_data'] = meta
        if overs:
            data['comp_overrides'] = overs
        datas.append(data)
    return m, datas


def any_over(m):
    return any(m.override(i, k)[0] for i in range(len(m.parents)) for k in
               KEYS if m.parents[i] is not None)


def check_ops(d):
    n = d.integer(1, 5)
    parents = [None] + [d.integer(0, i - 1) for i in range(1, n)]
    names = ['l{}.nxt'.format(i) for i in range(n)]
    if n > 2 and d.boolean(1, 8):
        names[-1] = names[d.integer(1, n - 2)]
    m, datas = start(d, parents, names)
    d.note(datas)
    s = make_stage(datas)
    layers = s._sub_layers
    compare(layers, m, 'at first')
    seen = any_over(m)
    for _ in d.many(1, 8, (9, 10)):
        before = [saved(ly) for ly in layers]
        held = copy.deepcopy(m)
        label = op(d, layers, m)
        if label is None:
            continue
        d.note(label)
        compare(layers, m, label)
        seen = seen or any_over(m)
        # only the layer that holds the setting changed
        for i, ly in enumerate(layers):
            if held.own[i] == m.own[i] and held.over[i] == m.over[i]:
                eq(saved(ly), before[i], 'another layer changed', label, i)
    d.interesting(n > 1 and seen)


def check_undo(d):
    """Overriding and removing the override restores everything."""
    n = d.integer(2, 4)
    parents = [None] + [d.integer(0, i - 1) for i in range(1, n)]
    m, datas = start(d, parents, ['l{}.nxt'.format(i) for i in range(n)])
    d.note(datas)
    s = make_stage(datas)
    layers = s._sub_layers
    i = d.integer(1, n - 1)
    key = d.choice(sorted(WHERE))
    r = root_of(m, i)
    fn = {'alias': layers[i].set_alias_over, 'color': layers[i].set_color_over,
          'lock': layers[i].set_locked_over}[key]
    d.note([i, key])
    had = m.names[i] in m.over[r][key]
    old = m.over[r][key].get(m.names[i])
    for v in [d.choice(VALUES[key]) for _ in d.many(1, 3)]:
        fn(v)
        m.over[r][key][m.names[i]] = v
        compare(layers, m, 'overridden')
    fn(old if had else None)
    if had:
        m.over[r][key][m.names[i]] = old
    else:
        m.over[r][key].pop(m.names[i])
    compare(layers, m, 'restored')
    fresh = make_stage(datas)
    for k in range(n):
        eq(saved(layers[k]), saved(fresh._sub_layers[k]), 'layer not restored',
           k)
    d.interesting()


TREES = [[('top.nxt', None, None), ('sub/a.nxt', 0, 'sub/a.nxt')],
         [('top.nxt', None, None), ('sub/a.nxt', 0, './sub/a.nxt'),
          ('sub/b.nxt', 1, 'b.nxt')],
         [('top.nxt', None, None), ('sub/a.nxt', 0, 'sub/a.nxt'),
          ('c.nxt', 1, '../c.nxt'), ('d.nxt', 0, 'd.nxt')],
         [('top.nxt', None, None), ('a.nxt', 0, '${C21_DIR}/a.nxt'),
          ('b.nxt', 0, 'b.nxt')]]


def check_files(d):
    """The settings of a loaded graph after saving all layers and loading it
    again."""
    base = os.path.join(os.environ['VERIF_WORK'], 'graph')
    os.environ['C21_DIR'] = base
    tree = d.choice(TREES)
    parents = [t[1] for t in tree]
    top = os.path.join(base, tree[0][0])
    names = [t[2] or top for t in tree]
    m, datas = start(d, parents, names)
    d.note([tree, datas])
    for i, t in enumerate(tree):
        data = {k: v for k, v in datas[i].items()
                if k not in ('filepath', 'real_path', 'parent')}
        data['version'] = '1.17'
        data['references'] = [x[2] for x in tree if x[1] == i]
        data['nodes'] = {'/n{}'.format(i): {}}
        fg.write(os.path.join(base, t[0]), data)
    for k in range(2):
        s = Stage.load_from_filepath(top)
        layers = s._sub_layers
        eq([ly.filepath for ly in layers[1:]], names[1:], 'layers')
        compare(layers, m, 'loaded')
        for _ in d.many(1, 4, (4, 5)):
            label = op(d, layers, m)
            if label:
                d.note(label)
        compare(layers, m, 'edited')
        for ly in layers:
            ly.save()
    s = Stage.load_from_filepath(top)
    compare(s._sub_layers, m, 'saved and loaded')
    # and the composite is made of exactly what is shown as active
    solo = [i for i in range(len(tree)) if m.shown(i, 'solo')]
    on = [i for i in solo or range(len(tree)) if not m.shown(i, 'mute')]
    from nxt.nxt_layer import LayerReturnTypes as RT
    got = s.build_stage().descendants(return_type=RT.Path)
    eq(sorted(got), sorted('/n{}'.format(i) for i in on), 'active layers')
    d.interesting(any_over(m))


PARTS = [Part('ops', check_ops, 2400, 60000,
              'settings edits on trees of layers against a model'),
         Part('undo', check_undo, 1200, 30000, 'overriding and removing'),
         Part('files', check_files, 600, 15000,
              'settings of graph files, edited, saved and loaded')]
