"""Generates graph files (the current format) and describes loaded layers by
reading the objects, independently of the code that saves them."""
import copy
import json
import os

from pbt.nxtlib import paths, parts, parent, to_path, names
from pbt.nxtlib import INTERNAL_ATTRS as IA, META_ATTRS as MA
from nxt.constants import GRAPH_VERSION

VALUES = ['1', 'text', '', ' ', '${x}', 'caf\u00e9 \u4e2d', 'a\nb', '"q"',
          "it's", '[1, 2]', 'None', 'True', '\\n', '\t', '\U0001f600']
RAW = [0, 1, -3, 2.5, True, False, None, [], [1, 'a'], ['', None], {},
       {'k': [1]}, {'b': 1, 'a': 2}]
CODE = ['pass', 'x = 1', '', '    indented = 1', '# caf\u00e9', '\t',
        'self.v = "${x}"', 'print("\u4e2d")', 'a = {"k": [1]}', '\\']
ATTRS = ['x', 'y', 'z', 'xx', 'x1', 'a', 'B', '_p', 'comment', 'enabled_',
         'code', 'value', 'name', 'caf\u00e9']
COLORS = ['#22728f', '#fff', '#000000', 'red']
ALIASES = ['Layer', 'caf\u00e9', 'a b', 'x', '0']


def node(d, p, pool, rich=4):
    out = {}
    attrs = {}
    for _ in d.many(0, rich, (1, 2)):
        a = {}
        if d.boolean(4, 5):
            a['value'] = d.choice(RAW) if d.boolean(1, 4) else \
                d.choice(VALUES)
            a['value'] = copy.deepcopy(a['value'])
        if d.boolean(1, 4):
            a['type'] = d.choice(['raw', 'int', 'str', ''])
        if d.boolean(1, 4):
            a['comment'] = d.choice(VALUES)
        attrs[d.choice(ATTRS)] = a
    if attrs:
        out['attrs'] = attrs
    if d.boolean(1, 2):
        out['code'] = [d.choice(CODE) for _ in d.many(0, 4, (2, 3))]
    if d.boolean(1, 4):
        out['comment'] = d.choice(VALUES)
    if p == '/':
        return out
    if d.boolean(1, 4):
        out['enabled'] = d.choice([True, False, None])
    if d.boolean(1, 5):
        out['start_point'] = d.choice([True, False])
    if d.boolean(1, 5):
        out['execute_in'] = d.choice(['/a', '/missing', ''] + pool)
    if d.boolean(1, 4):
        out['instance'] = d.choice(['', '../a', '/missing', './x'] +
                                   [q for q in pool if q != p and
                                    not p.startswith(q + '/') and
                                    not q.startswith(p + '/')])
    kids = [parts(c)[-1] for c in pool if c != '/' and parent(c) == p]
    if d.boolean(1, 3):
        co = d.sample(kids + ['gone', 'never'])
        if co and d.boolean(1, 6):
            co.append(co[0])
        out['child_order'] = co
    return out


def meta(d, pool, files):
    out = {}
    for key in d.sample(['positions', 'collapse', 'colors', 'aliases',
                         'locks', 'zz', '<KeepMe>', 'Aa']):
        ks = d.sample(pool if key in ('positions', 'collapse') else files)
        if key == 'positions':
            out[key] = {k: d.choice([[1, 2], [0.5, -3.25], [0, 0]])
                        for k in ks}
        elif key == 'collapse':
            out[key] = {k: d.boolean() for k in ks}
        elif key == 'colors':
            out[key] = {k: d.choice(COLORS) for k in ks}
        elif key == 'aliases':
            out[key] = {k: d.choice(ALIASES) for k in ks}
        elif key == 'locks':
            out[key] = {k: d.boolean() for k in ks}
        else:
            out[key] = copy.deepcopy(d.choice([1, 'v', None, [1, {}],
                                               {'b': 1, 'a': [2]}, {}]))
    return out


FILES = ['sub.nxt', './x/lib.nxt', '../up.nxt', '/abs/path/c.nxt',
         '${HERE}/e.nxt', 'caf\u00e9.nxt']


def overrides(d, files):
    return {f: {k: d.boolean() for k in d.sample(['mute', 'solo'])}
            for f in d.sample(files)}


def layer(d, size=6, refs=None, rich=4):
    files = FILES if refs is None else list(refs)
    ps = paths(d, 0, size, None, 4, True)
    if d.boolean(1, 4):
        ps.append('/')
    out = {'version': GRAPH_VERSION.VERSION_STR}
    if d.boolean(2, 3):
        out['alias'] = d.choice(ALIASES)
    if d.boolean(1, 2):
        out['color'] = d.choice(COLORS + [None])
    if d.boolean(1, 3):
        out['mute'] = d.boolean()
    if d.boolean(1, 3):
        out['solo'] = d.boolean()
    if d.boolean(1, 6):
        out['lock'] = d.boolean()
    if refs is not None:
        out['references'] = list(refs)
    elif d.boolean(1, 2):
        out['references'] = d.sample(files, 1)
    if d.boolean(1, 2):
        out['comp_overrides'] = overrides(d, files)
    if d.boolean(1, 2):
        out['meta_data'] = meta(d, ps or ['/a'], files)
    nodes = {}
    for p in ps:
        nodes[p] = node(d, p, ps, rich)
    if nodes or d.boolean():
        out['nodes'] = nodes
    return out


def shuffled(d, obj):
    """The same JSON with every mapping in another order."""
    if isinstance(obj, dict):
        return {k: shuffled(d, obj[k]) for k in d.permutation(list(obj))}
    if isinstance(obj, list):
        return [shuffled(d, x) for x in obj]
    return obj


def write(path, data):
    folder = os.path.dirname(path)
    if folder and not os.path.isdir(folder):
        os.makedirs(folder)
    with open(path, 'w', encoding='utf-8') as fp:
        json.dump(data, fp)


def read(path):
    with open(path, 'rb') as fp:
        return fp.read()


def nothing(v):
    return v is None or (isinstance(v, (list, dict, tuple)) and not v)


def spec(n):
    """One spec node as plain data."""
    out = {'attrs': {}}
    for k in list(n.__dict__):
        if k in IA.PROTECTED or k.endswith(MA._suffix):
            continue
        out['attrs'][k] = {'value': copy.deepcopy(getattr(n, k)),
                           'type': getattr(n, k + MA.TYPE, None) or None,
                           'comment': getattr(n, k + MA.COMMENT, None) or
                           None}
    for attr in (IA.START_POINT, IA.INSTANCE_PATH, IA.EXECUTE_IN, IA.ENABLED,
                 IA.COMMENT, IA.COMPUTE, IA.CHILD_ORDER):
        v = getattr(n, attr, None)
        if isinstance(v, (list, tuple)):
            v = list(v)
        out[attr] = None if v in (None, []) else v
    return out


META_KEYS = ('positions', 'collapse', 'colors', 'aliases', 'locks')


def describe(ly):
    """What the layer holds, read from the objects."""
    out = {'alias': ly.get_alias(local=True), 'color': ly.color,
           'mute': bool(ly.get_muted(local=True)),
           'solo': bool(ly.get_soloed(local=True)),
           'lock': bool(ly.get_locked(local=True)),
           'references': list(ly.sub_layer_paths),
           'references listed': ly.get_references(),
           'comp_overrides': {k: dict(v) for k, v in
                              ly.comp_overrides.items()},
           'nodes': {p: spec(ly.lookup(p))
                     for p in list(ly._nodes_path_as_key)}}
    for k in META_KEYS:
        out[k] = dict(getattr(ly, k))
    out['unknown'] = {k: v for k, v in ly._input_metadata.items()
                      if k not in META_KEYS}
    return copy.deepcopy(out)


def expected(data, filename):
    """What a layer loaded from `data` holds (child orders as given)."""
    md = data.get('meta_data', {})
    out = {'alias': data.get('alias', filename), 'color': data.get('color'),
           'mute': bool(data.get('mute')), 'solo': bool(data.get('solo')),
           'lock': bool(data.get('lock')),
           'references': list(data.get('references', [])),
           'references listed': list(data.get('references', [])),
           'comp_overrides': data.get('comp_overrides', {}),
           'unknown': {k: v for k, v in md.items() if k not in META_KEYS}}
    for k in META_KEYS:
        out[k] = md.get(k, {})
    nodes = {}
    for p, n in data.get('nodes', {}).items():
        e = {'attrs': {}}
        for a, v in n.get('attrs', {}).items():
            e['attrs'][a] = {'value': v.get('value'),
                             'type': v.get('type') or None,
                             'comment': v.get('comment') or None}
        for attr in (IA.START_POINT, IA.INSTANCE_PATH, IA.EXECUTE_IN,
                     IA.ENABLED, IA.COMMENT, IA.COMPUTE, IA.CHILD_ORDER):
            v = n.get(attr[1:])
            e[attr] = None if v in (None, []) else v
        nodes[p] = e
    out['nodes'] = nodes
    return copy.deepcopy(out)
