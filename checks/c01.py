"""C01: saving and reloading a graph loses and changes nothing."""
import os

from pbt.main import Part
from pbt.nxtlib import *  # noqa: F403
from pbt.nxtlib import need, eq, parts, parent, SpecLayer, Stage
from pbt.nxtlib import INTERNAL_ATTRS as IA
from pbt.structops import make_stage, layer_of, Model, Editor, gen_nodes
from pbt import filegen as fg, snap, attrops

PROPERTY = 'C01'
RULE = ('a case is non-trivial when the saved layer held at least two nodes '
        'with attributes or code, or layer settings beside nodes')


def work(name):
    return os.path.join(os.environ['VERIF_WORK'], name)


def same(got, want, what):
    for key in want:
        if key == 'nodes':
            continue
        eq(got[key], want[key], key, what)
    eq(sorted(got['nodes']), sorted(want['nodes']), 'node paths', what)
    for p, w in want['nodes'].items():
        g = got['nodes'][p]
        eq(sorted(g['attrs']), sorted(w['attrs']), 'attribute names', what, p)
        for a in w['attrs']:
            x, y = g['attrs'][a], w['attrs'][a]
            need(x == y and type(x['value']) is type(y['value']), 'attribute',
                 what, p, a, 'got', repr(x), 'want', repr(y))
        for k in w:
            if k in ('attrs', IA.CHILD_ORDER):
                continue
            eq(g[k], w[k], 'node' + k, what, p)
        if p == '/':
            continue
        # children the order does not mention may be added to it
        co = []
        for n in w[IA.CHILD_ORDER] or []:
            if n not in co:
                co.append(n)
        kids = [parts(c)[-1] for c in want['nodes'] if parent(c) == p]
        have = g[IA.CHILD_ORDER] or []
        need(len(have) == len(set(have)), 'child order lists a name twice', p)
        eq([n for n in have if n in co], co, 'child order', what, p)
        need(all(n in kids for n in have if n not in co),
             'child order gained a name', what, p, have)


def rich(d, desc):
    full = [n for n in desc['nodes'].values() if n['attrs'] or n[IA.COMPUTE]]
    settings = any(desc[k] for k in ('color', 'references', 'comp_overrides',
                                     'positions', 'aliases', 'unknown'))
    d.interesting(len(full) >= 2 or (full and settings))


def check_file(d):
    """A generated file holds what it says, and again after saving."""
    data = fg.layer(d)
    d.note(data)
    src, dst = work('in.nxt'), work('out.nxt')
    fg.write(src, data)
    one = SpecLayer.load_from_filepath(src)
    want = fg.expected(data, 'in.nxt')
    same(fg.describe(one), want, 'loaded')
    held = fg.describe(one)
    rich(d, held)
    one.save(dst)
    same(fg.describe(one), held, 'saving changed the open layer')
    two = SpecLayer.load_from_filepath(dst)
    same(fg.describe(two), held, 'saved and reloaded')
    eq({p: n[IA.CHILD_ORDER] for p, n in fg.describe(two)['nodes'].items()
        if p != '/'},
       {p: n[IA.CHILD_ORDER] for p, n in held['nodes'].items() if p != '/'},
       'child order', 'saved and reloaded')


def settings_op(d, ly, known):
    op = d.draw(11)
    files = fg.FILES
    if op == 0:
        ly.set_alias(d.choice(fg.ALIASES))
    elif op == 1:
        ly.color = d.choice(fg.COLORS)
    elif op == 2:
        ly.set_muted(d.boolean())
    elif op == 3:
        ly.set_soloed(d.boolean())
    elif op == 4:
        ly.set_locked(d.boolean())
    elif op == 5:
        ly.set_mute_over(d.choice(files), d.boolean())
    elif op == 6:
        ly.set_solo_over(d.choice(files), d.boolean())
    elif op == 7:
        f = d.choice([x for x in files if x not in ly.sub_layer_paths] or
                     ['more.nxt'])
        refs = list(ly.get_references())
        at = d.choice([None, 0, len(refs), d.integer(0, len(refs))])
        ly.add_reference(f, insert_idx=at)
        refs.insert(len(refs) if at is None else at, f)
        need(list(ly.get_references()) == refs, 'references after adding one',
             f, at, ly.get_references(), refs)
    elif op == 8:
        ly.positions[d.choice(known or ['/a'])] = [d.integer(-5, 5), 1.5]
    elif op == 9:
        ly.collapse[d.choice(known or ['/a'])] = d.boolean()
    elif op == 10:
        ly.aliases[d.choice(files)] = d.choice(fg.ALIASES)
    else:
        ly.colors[d.choice(files)] = d.choice(fg.COLORS)
    d.note('setting {}'.format(op))


def check_built(d):
    """A layer built through the api."""
    s = make_stage([{'nodes': gen_nodes(d, 1, 4, instances=False)}])
    ly = layer_of(s, 0)
    m = Model(ly)
    d.note(sorted(m.nodes))
    ed = Editor(d, s, ly, m)
    for _ in d.many(1, 10, (9, 10)):
        k = d.draw(4)
        if k == 0:
            ed.step()
        elif k <= 2:
            attrops.step(d, s, ly)
        else:
            settings_op(d, ly, sorted(m.nodes))
    held = fg.describe(ly)
    rich(d, held)
    dst = work('built.nxt')
    ly.save(dst)
    two = SpecLayer.load_from_filepath(dst)
    got = fg.describe(two)
    same(got, held, 'saved and reloaded')


def check_stage(d):
    """A graph of several files: save every layer, load the graph again."""
    base = work('graph')
    names_ = ['top.nxt', 'sub/mid.nxt', 'sub/low.nxt']
    n = d.integer(1, 3)
    refs = {'top.nxt': [], 'sub/mid.nxt': [], 'sub/low.nxt': []}
    if n > 1:
        refs['top.nxt'].append(d.choice(['sub/mid.nxt', './sub/mid.nxt']))
    if n > 2:
        if d.boolean():
            refs['sub/mid.nxt'].append('low.nxt')
        else:
            refs['top.nxt'].insert(d.draw(1), 'sub/low.nxt')
    for nm in names_[:n]:
        data = fg.layer(d, 5, refs[nm], 2)
        data.pop('comp_overrides', None)
        if d.boolean(1, 2):
            data['comp_overrides'] = fg.overrides(d, refs[nm] + ['low.nxt'])
        for node in data.get('nodes', {}).values():
            node.pop('instance', None)
            for a in node.get('attrs', {}).values():
                # none and empty are the same for these
                for k in ('comment', 'type'):
                    if not a.get(k):
                        a.pop(k, None)
        d.note([nm, data])
        fg.write(os.path.join(base, nm), data)
    top = os.path.join(base, 'top.nxt')
    s = Stage.load_from_filepath(top)
    held = [fg.describe(ly) for ly in s._sub_layers]
    eq(len(held), n, 'number of layers')
    comp = snap.comp(s, s.build_stage())
    for ly in s._sub_layers:
        ly.save()
    s2 = Stage.load_from_filepath(top)
    eq(len(s2._sub_layers), n, 'number of layers reloaded')
    for i in range(n):
        same(fg.describe(s2._sub_layers[i]), held[i], 'layer {}'.format(i))
    comp2 = snap.comp(s2, s2.build_stage())
    need(comp == comp2, 'composite differs after reload',
         snap.diff(comp, comp2))
    d.interesting(len(comp) >= 2)


PARTS = [Part('file', check_file, 1600, 40000, 'generated files'),
         Part('built', check_built, 1200, 30000,
              'layers built by edits of structure, attributes and settings'),
         Part('stage', check_stage, 600, 15000, 'graphs of one to three '
              'files')]
ASSUMPTIONS = ['an attribute comment or type that is empty text is the same '
               'as none']
