"""C22: generated names are legal and unused."""
import re

from pbt.main import Part
from pbt.nxtlib import need, eq, to_path, parts, parent, W
from pbt.structops import make_stage, layer_of
from pbt import compgen, snap
from pbt import filegen as fg

PROPERTY = 'C22'
RULE = ('a case is non-trivial when the wish is illegal, reserved or already '
        'taken in some layer')

CHARS = ['a', 'b', '_', '1', '2', '0', ' ', '-', '.', '/', '$', '{', 'A',
         '\u00e9', '\u4e2d', '\u0663', '"', '\n', ':']
# what nodes keep their own data under, and what every python object has
RESERVED = {'_child_order', '_comment', '_code', '_enabled', '_execute_in',
            '_instance', '_node_path', '_name', '_parent_path', '_proxy',
            '_source_layer', '_start_point', '_cached_code'} | \
    set(dir(type('Any', (object,), {})))
ASCII = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z')


def wish_from(d, taken, fixed):
    k = d.draw(7)
    if k <= 2 and taken:
        w = d.choice(sorted(taken))
        if k == 1:
            w += d.choice(['2', '3', '1', '02', '10'])
        elif k == 2:
            w = w.rstrip('0123456789') or w
        return w
    if k == 3:
        return d.choice(fixed)
    if k == 4:
        return None if d.boolean(1, 3) else ''
    if k == 5:
        return d.choice(['fresh', 'a', 'b2', '_x', 'Node', 'node', 'attr'])
    return d.text(CHARS, 1, 5)


def legal(got, what):
    need(isinstance(got, str) and got, 'no name', what, repr(got))
    bad = [c for c in got if not (c.isalnum() or c == '_')]
    need(not bad, 'illegal characters in the name', what, repr(got))
    need(not got[0].isdigit(), 'the name starts with a digit', what,
         repr(got))


def state(s, comp):
    return [fg.describe(x) for x in s._sub_layers], snap.comp(s, comp)


def check_node(d):
    ls = compgen.layers(d, lo=1, hi=3, size=6, inst=(1, 4))
    d.note(ls)
    compgen.model(ls)
    s = make_stage(ls)
    # plenty of numbered siblings
    for i in range(len(ls)):
        for nm in d.sample(['a2', 'a3', 'b2', 'aa2', 'node', 'node2'], 0, 3):
            pp = d.choice(['/'] + sorted(p for p in ls[i]['nodes']
                                         if p != '/'))
            p = to_path(parts(pp) + [nm])
            if layer_of(s, i).lookup(p) is None:
                s.add_node(nm, {}, pp, layer_of(s, i), fix_names=False)
                d.note([i, p])
    comp = s.build_stage()
    i = d.integer(0, len(ls) - 1)
    ly = layer_of(s, i)
    comp_paths = set(snap.comp(s, comp))
    own = set(ly._nodes_path_as_key)
    known = sorted((comp_paths | own) - {'/'})
    real = {to_path(parts(p)[:k]) for x in s._sub_layers
            for p in x._nodes_path_as_key for k in range(len(parts(p)) + 1)}
    mirrored = sorted(parent(p) for p in comp_paths - real)
    pp = d.choice(mirrored) if mirrored and d.boolean() else d.choice(['/', d.choice(known) if known else '/', '/b/zz'])
    mode = d.choice(['comp', 'layer', 'only'])
    taken = {'comp': comp_paths, 'layer': comp_paths | own,
             'only': own}[mode]
    kids = {parts(p)[-1] for p in comp_paths | real
            if p != '/' and parent(p) == pp}
    wish = wish_from(d, kids, ['__name__', '__name__1', '1', '__class__'])
    d.note([i, pp, mode, wish])
    before = state(s, comp)

    def ask(w):
        return s.get_unique_node_name(w, comp if mode == 'comp' else ly, pp,
                                      layer_only=mode == 'only')
    got = ask(wish)
    eq(ask(wish), got, 'another name when asked again')
    eq(state(s, comp), before, 'asking changed the graph')
    legal(got, wish)
    need(got != '__name__', 'a reserved name was given', wish)
    path = to_path(parts(pp) + [got])
    need(path not in taken, 'a taken name was given', path)
    free = wish and ASCII.match(wish) and wish != '__name__' and \
        to_path(parts(pp) + [wish]) not in taken
    if free:
        eq(got, wish, 'a free legal name was changed')
    d.interesting(not free)
    # the name can be used
    if mode != 'only':
        s.add_node(got, {}, pp, ly, fix_names=False)
        need(ly.lookup(path) is not None, 'node was not added', path)
        eq(set(ly._nodes_path_as_key), own | {path}, 'nodes after adding')
        if mode == 'layer':
            need(ask(got) != got, 'name is offered although it is used', got)


def check_attr(d):
    ls = compgen.layers(d, lo=1, hi=3, size=5, inst=(1, 4))
    d.note(ls)
    compgen.model(ls)
    s = make_stage(ls)
    for i in range(len(ls)):
        ps = sorted(ls[i]['nodes'])
        for a in d.sample(['x2', 'x3', 'attr', 'attr2', 'x09', 'x10'], 0, 3):
            if not ps:
                break
            p = d.choice(ps)
            ls[i]['nodes'][p].setdefault('attrs', {})[a] = {'value': 'v'}
            d.note([i, p, a])
    s = make_stage(ls)
    comp = s.build_stage()
    i = d.integer(0, len(ls) - 1)
    ly = layer_of(s, i)
    mode = d.choice(['comp', 'layer'])
    p = d.choice(sorted(ls[i]['nodes']) or ['/missing'])
    on = compgen.active_ids(ls) if mode == 'comp' else [i]
    taken = set()
    for j in on:
        taken |= set(ls[j]['nodes'].get(p, {}).get('attrs', {}))
    everywhere = set()
    for x in ls:
        everywhere |= set(x['nodes'].get(p, {}).get('attrs', {}))
    wish = wish_from(d, everywhere, ['_name', '_code', '__class__', '__doc__',
                                     '_child_order', '_comment', '_enabled',
                                     'x_comment__nxt', 'x__nxt', '__init__'] +
                     sorted(RESERVED))
    d.note([i, p, mode, wish])
    before = state(s, comp)

    def ask(w):
        return s.get_unique_attr_name(p, comp if mode == 'comp' else ly, w)
    got = ask(wish)
    eq(ask(wish), got, 'another name when asked again')
    eq(state(s, comp), before, 'asking changed the graph')
    legal(got, wish)

    def reserved(n):
        return n in RESERVED or n.endswith('__nxt')
    need(not reserved(got), 'a reserved name was given', got)
    need(got not in taken, 'a taken name was given', got)
    free = wish and ASCII.match(wish) and not reserved(wish) and \
        wish not in taken
    if free:
        eq(got, wish, 'a free legal name was changed')
    d.interesting(not free)
    node = ly.lookup(p)
    if mode == 'layer' and node is not None:
        old = fg.describe(ly)
        eq(s.add_node_attr(node, wish, {'value': 'new'}, ly), got,
           'added under another name')
        old['nodes'][p]['attrs'][got] = {'value': 'new', 'type': None,
                                         'comment': None}
        eq(fg.describe(ly), old, 'layer after adding')
        need(ask(got) != got, 'name is offered although it is used', got)


PARTS = [Part('node', check_node, 1600, 40000, 'wishes for node names'),
         Part('attr', check_attr, 1600, 40000, 'wishes for attribute names')]
