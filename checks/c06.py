"""C06: compositing always ends, is repeatable and changes no layer.
Generates graphs with arbitrary instance paths: missing, relative beyond the
root, of the node itself, of ancestors and descendants, mutually cyclic, across
layers. Every case runs under a cpu limit far above normal."""
from pbt.main import Part
from pbt.nxtlib import *  # noqa: F403
from pbt.nxtlib import need, eq, to_path, parts, paths, names, is_below
from pbt.structops import make_stage, saved, content, layer_of
from pbt import snap, compgen

PROPERTY = 'C06'
RULE = ('a case is non-trivial when at least one node instances an existing '
        'node (directly or through a relative path)')


def any_instance(d, p, known):
    k = d.draw(6)
    if k <= 2:
        return d.choice(known)
    if k == 3:
        ups = d.integer(0, 4)
        tail = parts(d.choice(known))
        tail = tail[d.draw(len(tail)):]
        return '/'.join(['..'] * ups + tail) or '..'
    if k == 4:
        return d.choice(['/missing', 'nope', '.', '..', '../..', '/', '',
                         '/a/nope/x', './a', p, parent(p), '../' +
                         parts(p)[-1]])
    q = d.choice(known)
    return q + '/' + name(d, ['a', 'b', 'c'])


def wild_layers(d):
    n = d.integer(1, 2)
    layers = []
    for i in range(n):
        ps = paths(d, 2, 6, ['a', 'b', 'c', 'd'], 3, True)
        nodes = {}
        for p in ps:
            nodes[p] = content(d, p, rich=1)
        for p in ps:
            if d.boolean(3, 5):
                known = sorted({q for ly in layers for q in ly['nodes']} |
                               set(ps))
                nodes[p]['instance'] = any_instance(d, p, known)
        layers.append({'nodes': nodes})
        if d.boolean(1, 4):
            layers[-1]['meta_data'] = compgen.layer_meta(d, sorted(ps))
    return layers


def acyclic_layers(d):
    """No cycles; Discards graphs in which parent and instance precedence
    contradict each other (no order satisfies both)."""
    ls = compgen.layers(d, 1, 3, 8, 1, 3, (1, 2), 4)
    compgen.model(ls)
    return ls


def check_wild(d):
    run(d, wild_layers(d), False)


def check_acyclic(d):
    run(d, acyclic_layers(d), True)


def run(d, layers, must_succeed):
    d.note(layers)
    s = make_stage(layers)
    known = {p for ly in layers for p in ly['nodes']}
    from nxt import nxt_path
    for ly in layers:
        for p, n in ly['nodes'].items():
            i = n.get('instance')
            if i and nxt_path.expand_relative_node_path(i, p) in known:
                d.interesting()
    frozen = [saved(layer_of(s, i)) for i in range(len(layers))]
    one = s.build_stage()
    for i, f in enumerate(frozen):
        eq(saved(layer_of(s, i)), f, 'building changed a layer', i)
    if one.failure:
        d.label('comp reports failure')
        need(not must_succeed, 'composite failed', one.failure)
    snap_one = snap.comp(s, one)
    for i, f in enumerate(frozen):
        eq(saved(layer_of(s, i)), f, 'querying changed a layer', i)
    two = s.build_stage()
    eq(bool(two.failure), bool(one.failure), 'second build')
    need(snap.comp(s, two) == snap_one, 'building again differs',
         snap.diff(snap_one, snap.comp(s, two)))
    need(snap.comp(s, one) == snap_one, 'the first composite changed',
         snap.diff(snap_one, snap.comp(s, one)))
    # a fresh stage of the same content
    three = make_stage(layers)
    c3 = three.build_stage()
    need(snap.comp(three, c3) == snap_one, 'a fresh stage differs',
         snap.diff(snap_one, snap.comp(three, c3)))
    # saving and reloading layers does not matter either: sub ranges build
    for k in range(1, len(layers)):
        s.build_stage(from_idx=k)
    for i, f in enumerate(frozen):
        eq(saved(layer_of(s, i)), f, 'building changed a layer', i)


PARTS = [Part('wild', check_wild, 2400, 60000,
              'arbitrary instance paths, cyclic ones included'),
         Part('acyclic', check_acyclic, 1600, 40000,
              'instances without cycles: the composite must succeed')]
ASSUMPTIONS = ['a build that needs more than 60 s of cpu (normal: '
               'milliseconds) is taken not to terminate']
