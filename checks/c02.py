"""C02: saved files are canonical and independent of edit order."""
import copy
import json
import os

from pbt.main import Part
from pbt.nxtlib import need, eq, parts, parent, SpecLayer
from pbt.nxtlib import INTERNAL_ATTRS as IA
from pbt.structops import make_stage, layer_of, gen_nodes, saved, Model, Editor
from pbt import filegen as fg, attrops
from checks.c01 import settings_op

PROPERTY = 'C02'
RULE = ('a case is non-trivial when the file holds at least three nodes, or '
        'two nodes and other settings, or the two orders truly differ')

SECTIONS = ['version', 'alias', 'color', 'mute', 'solo', 'lock', 'references',
            'comp_overrides', 'meta_data', 'nodes']
META = ['aliases', 'colors', 'locks', 'positions', 'collapse']


def work(name):
    return os.path.join(os.environ['VERIF_WORK'], name)


def save(ly, name):
    path = work(name)
    ly.save(path)
    return fg.read(path)


def ordered(keys, want, what):
    """keys come in the relative order of want, the rest sorted at the end."""
    known = [k for k in keys if k in want]
    eq(known, [k for k in want if k in known], 'order of sections', what)
    rest = [k for k in keys if k not in want]
    eq(keys, known + rest, 'order of sections', what)
    eq(rest, sorted(rest), 'order of unknown sections', what)


def canonical(raw):
    """Raw bytes of a saved file: everything sorted or in its fixed place."""
    data = json.loads(raw.decode('utf-8'))
    ordered(list(data), SECTIONS, 'file')
    if 'meta_data' in data:
        ordered(list(data['meta_data']), META, 'meta data')
        for k in META:
            ks = list(data['meta_data'].get(k, {}))
            eq(ks, sorted(ks), 'order of meta data', k)
    for f in [data.get('comp_overrides', {})] + \
            list(data.get('comp_overrides', {}).values()):
        eq(list(f), sorted(f), 'order of overrides')
    ps = list(data.get('nodes', {}))
    eq(ps, sorted(ps), 'order of nodes')
    layout = None
    for p in ps:
        n = data['nodes'][p]
        attrs = list(n.get('attrs', {}))
        eq(attrs, sorted(attrs), 'order of attributes', p)
        for a in attrs:
            ks = list(n['attrs'][a])
            eq(ks, sorted(ks), 'order of attribute data', p, a)
        # every node lists its keys in one fixed order
        layout = list(n) if layout is None else layout
        pairs = [(x, y) for i, x in enumerate(list(n))
                 for y in list(n)[i + 1:]]
        for q in ps:
            ks = list(data['nodes'][q])
            for x, y in pairs:
                if x in ks and y in ks:
                    need(ks.index(x) < ks.index(y),
                         'nodes list their keys in different orders', p, q, x,
                         y)
    return data


def shuffled_node(d, n):
    out = {}
    for k in d.permutation(list(n)):
        if k == 'attrs':
            out[k] = {a: {x: n[k][a][x] for x in d.permutation(list(n[k][a]))}
                      for a in d.permutation(list(n[k]))}
        else:
            out[k] = copy.deepcopy(n[k])
    return out


def shuffled(d, data):
    """The same content, mentioned in another order."""
    out = {}
    for k in d.permutation(list(data)):
        v = data[k]
        if k == 'nodes':
            out[k] = {p: shuffled_node(d, v[p])
                      for p in d.permutation(list(v))}
        elif k == 'comp_overrides':
            out[k] = fg.shuffled(d, v)
        elif k == 'meta_data':
            out[k] = {m: fg.shuffled(d, v[m]) if m in META else
                      copy.deepcopy(v[m]) for m in d.permutation(list(v))}
        else:
            out[k] = copy.deepcopy(v)
    return out


def check_shuffled(d):
    data = fg.layer(d)
    other = shuffled(d, data)
    d.note([data, other])
    d.interesting(json.dumps(data) != json.dumps(other) and
                  len(data.get('nodes', {})) + len(data) >= 5)
    fg.write(work('one.nxt'), data)
    fg.write(work('two.nxt'), other)
    one = SpecLayer.load_from_filepath(work('one.nxt'))
    two = SpecLayer.load_from_filepath(work('two.nxt'))
    if 'alias' not in data:
        # it is named after the file then
        two.set_alias(one.get_alias(local=True))
    a, b = save(one, 'out1.nxt'), save(two, 'out2.nxt')
    need(a == b, 'saved differently', a.decode(), b.decode())
    canonical(a)


def check_again(d):
    """Load, save, load, save: the bytes settle at once."""
    data = fg.layer(d)
    d.note(data)
    d.interesting(len(data.get('nodes', {})) >= 3 or
                  (len(data.get('nodes', {})) >= 2 and len(data) >= 5))
    fg.write(work('in.nxt'), data)
    one = SpecLayer.load_from_filepath(work('in.nxt'))
    held = fg.describe(one)
    first = one.get_save_data()
    text = json.dumps(first)
    eq(fg.describe(one), held, 'producing save data changed the layer')
    # what is returned belongs to the caller
    spoil(first)
    eq(fg.describe(one), held, 'save data is shared with the layer')
    second = json.dumps(one.get_save_data())
    need(text == second, 'save data differs the second time', text, second)
    a = save(one, 'out.nxt')
    eq(json.loads(a.decode()), json.loads(text), 'file is not the save data')
    canonical(a)
    two = SpecLayer.load_from_filepath(work('out.nxt'))
    b = save(two, 'out.nxt')
    need(a == b, 'saving again differs', a.decode(), b.decode())
    c = save(one, 'out3.nxt')
    need(a == c, 'saving twice differs', a.decode(), c.decode())


def spoil(data):
    """Alter every container of node data in save data."""
    for n in data.get('nodes', {}).values():
        for k in list(n):
            v = n[k]
            if isinstance(v, list):
                v.append('spoiled')
            elif isinstance(v, dict):
                for a in list(v):
                    for x in list(v[a]):
                        y = v[a][x]
                        if isinstance(y, list):
                            y.append('spoiled')
                        elif isinstance(y, dict):
                            y['spoiled'] = 1
                    v[a]['comment'] = 'spoiled'
                v['spoiled'] = {'value': 'spoiled'}
            n[k] = n[k] if isinstance(v, (list, dict)) else 'spoiled'
        n['comment'] = 'spoiled'


def build(d, order, data):
    """A layer with the content of data, put there in the given order."""
    s = make_stage([{'alias': 'built'}])
    ly = layer_of(s, 0)
    for what in order:
        kind, key = what[0], what[1:]
        if kind == 'node':
            p = key[0]
            n = data['nodes'][p]
            s.add_node(name=parts(p)[-1], data={}, parent=parent(p), layer=ly,
                       fix_names=False)
            comp = None
            node = ly.lookup(p)
            for step in key[1]:
                if step == 'code':
                    comp = comp or s.build_stage()
                    s.set_node_code_lines(node, list(n['code']), comp)
                elif step == 'comment':
                    s.set_node_comment(node, n['comment'], ly)
                elif step == 'enabled':
                    s.node_setattr_data(node, IA.ENABLED, ly, True,
                                        comp_layer=comp or s.build_stage(),
                                        value=n['enabled'])
                elif step == 'execute_in':
                    s.set_node_exec_in(node, n['execute_in'], ly)
                elif step == 'instance':
                    s.set_node_instance_path(node, n['instance'], ly)
                else:
                    a = n['attrs'][step[1]]
                    s.add_node_attr(node, step[1],
                                    {k: a[k] for k in step[2]}, ly)
        elif kind == 'position':
            ly.positions[key[0]] = data['positions'][key[0]]
        elif kind == 'alias':
            ly.aliases[key[0]] = 'over'
        elif kind == 'mute':
            ly.set_mute_over(key[0], True)
        elif kind == 'solo':
            ly.set_solo_over(key[0], False)
        elif kind == 'color':
            ly.color = '#123456'
    for p in sorted(data['nodes']):
        kids = sorted(parts(q)[-1] for q in data['nodes'] if parent(q) == p)
        if kids:
            s.set_node_child_order(ly.lookup(p), kids, ly)
    return ly


def an_order(d, data):
    out = []
    for p in d.permutation(sorted(data['nodes'])):
        n = data['nodes'][p]
        steps = []
        for k in d.permutation([x for x in sorted(n) if x != 'child_order']):
            if k != 'attrs':
                steps.append(k)
                continue
            for a in d.permutation(sorted(n[k])):
                steps.append(('attr', a, tuple(d.permutation(
                    sorted(n[k][a])))))
        out.append(('node', p, tuple(d.permutation(steps))))
    for f in fg.FILES[:3]:
        out += [('alias', f), ('mute', f), ('solo', f)]
    out.append(('color',))
    out += [('position', p) for p in data['positions']]
    return d.permutation(out)


def check_edits(d):
    """The same edits in two orders."""
    nodes = gen_nodes(d, 1, 5, world=False)
    for n in nodes.values():
        for a in n.get('attrs', {}).values():
            a.setdefault('value', '1')
    data = {'nodes': nodes,
            'positions': {p: [i, 0.5] for i, p in enumerate(sorted(nodes))}}
    o1, o2 = an_order(d, data), an_order(d, data)
    d.note([data, o1, o2])
    d.interesting(o1 != o2 and len(nodes) >= 2)
    a = save(build(d, o1, data), 'a.nxt')
    b = save(build(d, o2, data), 'b.nxt')
    need(a == b, 'saved differently', a.decode(), b.decode())
    canonical(a)


def check_edited(d):
    """However a layer came to be: its file is canonical, and loading it and
    saving again gives the same bytes."""
    s = make_stage([{'nodes': gen_nodes(d, 1, 5, instances=False)}])
    ly = layer_of(s, 0)
    m = Model(ly)
    ed = Editor(d, s, ly, m)
    d.note(sorted(m.nodes))
    for _ in d.many(1, 8, (9, 10)):
        k = d.draw(3)
        if k <= 1:
            ed.step()
        elif k == 2:
            attrops.step(d, s, ly)
            m.nodes = Model(ly).nodes
        else:
            settings_op(d, ly, sorted(m.nodes))
        held = fg.describe(ly)
        saved(ly)
        eq(fg.describe(ly), held, 'producing save data changed the layer')
    d.interesting(len(m.nodes) >= 2)
    a = save(ly, 'c.nxt')
    first = canonical(a)
    two = SpecLayer.load_from_filepath(work('c.nxt'))
    b = save(two, 'c2.nxt')
    if not complete(first):
        # a node was put above existing ones: completed when loaded
        second = json.loads(b.decode())
        for p, n in first.get('nodes', {}).items():
            co = n.pop('child_order', [])
            got = second['nodes'][p].pop('child_order', [])
            kids = [parts(q)[-1] for q in first['nodes'] if parent(q) == p]
            eq([x for x in got if x in co], co, 'child order', p)
            need(all(x in kids for x in got if x not in co),
                 'child order gained a name', p, got)
        eq(second, first, 'load and save again differs')
        a, b = b, save(SpecLayer.load_from_filepath(work('c2.nxt')), 'c3.nxt')
    need(a == b, 'load and save again differs', a.decode(), b.decode())


def complete(data):
    nodes = data.get('nodes', {})
    return all(parts(q)[-1] in nodes[parent(q)].get('child_order', [])
               for q in nodes if q != '/' and parent(q) != '/' and
               parent(q) in nodes)


PARTS = [Part('shuffled', check_shuffled, 1200, 30000,
              'two files with the same content in different orders'),
         Part('again', check_again, 1200, 30000, 'load and save repeatedly'),
         Part('edits', check_edits, 800, 20000,
              'the same content built by edits in two orders'),
         Part('edited', check_edited, 800, 20000,
              'layers after edit histories')]
ASSUMPTIONS = ['the inner order of a mapping used as an attribute value or '
               'as unknown meta data is content, and kept']
