"""C26: children are ordered as the strongest layer says."""
from pbt.main import Part
from pbt.nxtlib import need, eq, parts, parent, Discard
from pbt.nxtlib import INTERNAL_ATTRS as IA, LayerReturnTypes as RT
from pbt.structops import make_stage, layer_of
from pbt import compgen
from pbt.queries import with_implied
from nxt.nxt_node import list_merger

PROPERTY = 'C26'
RULE = ('a case is non-trivial when a node has two or more children in the '
        'order and at least two layers, or a layer and an instance source, '
        'contribute to it')


def sub(out, want):
    return [x for x in out if x in want] == want


def check_merge(d):
    names = ['a', 'b', 'c', 'd', 'e', 'f']
    strong, weak = d.sample(names), d.sample(names)
    d.note([strong, weak])
    s0, w0 = strong[:], weak[:]
    out = list_merger(strong, weak)
    eq((strong, weak), (s0, w0), 'merging changed its arguments')
    d.interesting(len(set(strong) & set(weak)) > 0 and strong != weak)
    eq(sorted(out), sorted(set(strong) | set(weak)), 'merged names', out)
    need(sub(out, strong), 'strong order', strong, 'in', out)
    if not strong:
        eq(out, weak, 'nothing over the weak order')
    if not set(strong) & set(weak):
        eq(out, strong + weak if strong else weak, 'orders without overlap')


def graph(d, inst):
    ls = compgen.layers(d, 1, 4, 9, 1, 99, inst, 3,
                        settings=d.boolean(1, 4))
    for ly in ls:
        for p in sorted(ly['nodes']):
            kids = [parts(c)[-1] for c in ly['nodes'] if c != '/' and
                    parent(c) == p]
            if p != '/' and kids and d.boolean():
                ly['nodes'][p]['child_order'] = d.permutation(kids)
            if p != '/' and d.boolean(1, 6):
                # names of children that other layers may have
                co = ly['nodes'][p].setdefault('child_order', [])
                x = d.choice(compgen.POOL)
                if x not in co:
                    co.insert(d.draw(len(co)), x)
    d.note(ls)
    return ls


def check_composite(d):
    d.interesting(orders_of(d, graph(d, (1, 4))))


def orders_of(d, ls):
    m = compgen.model(ls)
    s = make_stage(ls)
    orders = {}
    for p, specs in m.real.items():
        if p == '/':
            continue
        orders[p] = [list(getattr(layer_of(s, i).lookup(p), IA.CHILD_ORDER))
                     for i, _ in specs]
    comp = s.build_stage()
    hit = False
    full = with_implied(m.paths)
    for p in sorted(m.paths - {'/'}):
        got = list(getattr(comp.lookup(p), IA.CHILD_ORDER))
        need(len(got) == len(set(got)), 'a name is ordered twice', p, got)
        mine = [o for o in orders.get(p, []) if o]
        src = m.source(p)
        if src not in m.paths:
            src = None
        from_src = list(getattr(comp.lookup(src), IA.CHILD_ORDER)) \
            if src else []
        want = set(from_src)
        for o in mine:
            want |= set(o)
        # below an instanced node the missing nodes in between get a place
        implied = {parts(k)[-1] for k in full if parent(k) == p}
        eq(sorted(set(got) - implied - want), [], 'names no one ordered', p)
        eq(sorted(want - set(got)), [], 'names missing in the order', p)
        got = [x for x in got if x in want]
        if mine:
            need(sub(got, mine[0]), 'the strongest order is not kept', p,
                 mine[0], 'in', got)
        if len(mine) == 1 and not from_src:
            eq(got, mine[0], 'only order', p)
        if not mine and src:
            eq(got, [x for x in from_src if x in want], 'order of the instance source', p, src)
        kids = comp.children(p, RT.Path, ordered=True)
        named = [parts(k)[-1] for k in kids if parts(k)[-1] in got]
        need(sub(got, named), 'children are not listed in order', p, named,
             got)
        if len(kids) > 1 and len(mine) + bool(from_src) > 1:
            hit = True
    return hit


def check_instanced(d):
    """A node that orders some of the children of its source, and others."""
    names = ['a', 'b', 'c', 'd', 'e', 'f', 'ab']
    ls = []
    chain = ['/s', '/i', '/j'][:d.integer(2, 3)]
    for _ in range(d.integer(1, 3)):
        nodes = {}
        for i, p in enumerate(chain):
            if ls and d.boolean(1, 2):
                continue
            kids = d.sample(names, 0, 6)
            nodes[p] = {'child_order': d.permutation(kids)}
            for k in kids:
                if d.boolean(2, 3):
                    nodes[p + '/' + k] = {}
            for k in d.sample(names, 0, 1):
                nodes.setdefault(p + '/' + k, {})
            if i and not ls:
                nodes[p]['instance'] = chain[i - 1]
        ls.append({'nodes': nodes})
    d.note(ls)
    d.interesting(orders_of(d, ls))


PARTS = [Part('merge', check_merge, 4000, 100000,
              'pairs of orders'),
         Part('composite', check_composite, 2500, 60000,
              'orders of composite nodes'),
         Part('instanced', check_instanced, 1500, 40000,
              'orders over that of the instance source')]
ASSUMPTIONS = []
