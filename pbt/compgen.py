"""Generates multi layer graphs for the compositing checks, without cyclic
instancing."""
from pbt.nxtlib import to_path, parts, paths, parent, is_below
from pbt import compmodel

POOL = ['a', 'b', 'c', 'd', 'aa']
# names which string tricks take for one another
ODD_POOL = ['a', '_a', 'aa', 'A', 'a1']
ATTRS = ['x', 'y', 'z', 'xx']


def node_data(d, i, p, rich, internals):
    """Content whose values name the layer and path they come from."""
    tag = 'L{}{}'.format(i, p)
    out = {}
    attrs = {}
    for a in ATTRS[:rich]:
        if not d.boolean(2, 5):
            continue
        data = {}
        k = d.draw(7)
        if k < 5:
            data['value'] = '{}.{}'.format(tag, a)
        elif k == 5:
            data['value'] = d.choice(['', 0, False, 7, [], ['q'], 'same'])
        if d.boolean(1, 4):
            data['type'] = d.choice(['raw', 'int'])
        if d.boolean(1, 4):
            data['comment'] = tag + ' ' + a
        attrs[a] = data
    if attrs or d.boolean(1, 12):
        out['attrs'] = attrs
    n = internals
    if d.boolean(1, n):
        out['code'] = d.choice([['# ' + tag], ['# ' + tag, 'y'], [''], [],
                                ['same']])
    if d.boolean(1, n + 1):
        out['comment'] = d.choice(['c ' + tag, '', 'same', None])
    if d.boolean(1, n + 1):
        out['enabled'] = d.choice([True, False, None])
    if p != '/' and d.boolean(1, n + 3):
        out['start_point'] = d.choice([True, False])
    if p != '/' and d.boolean(1, n + 2) and len(parts(p)) == 1:
        out['execute_in'] = d.choice(['/a', '/zz', ''])
    return out


def instance_for(d, p, known):
    """A source that cannot close a cycle: an earlier root tree, or a sibling
    with a smaller name."""
    ns = parts(p)
    before = [q for q in known if parts(q) and parts(q)[0] < ns[0]]
    sibs = [q for q in known if q != '/' and parent(q) == parent(p) and
            parts(q)[-1] < ns[-1]]
    k = d.draw(9)
    if k == 9:
        return d.choice(['', '/missing', '/zz/a', '/A'])
    if k >= 6 and sibs:
        q = d.choice(sibs)
        return d.choice([q, '../' + parts(q)[-1], './../' + parts(q)[-1]])
    if before:
        q = d.choice(before)
        if d.boolean(1, 4):
            return '/'.join(['..'] * len(ns) + parts(q))
        if d.boolean(1, 6):
            return q + '/' + d.choice(POOL)
        return q
    if sibs:
        return d.choice(sibs)
    return None


def layer_meta(d, pool):
    """Where nodes are drawn and whether they are folded."""
    out = {}
    if d.boolean(3, 4):
        out['collapse'] = {p: d.boolean() for p in d.sample(pool)}
    if d.boolean():
        out['positions'] = {p: [d.integer(-3, 3), 0.5]
                            for p in d.sample(pool)}
    return out


def layers(d, lo=1, hi=4, size=7, rich=3, internals=3, inst=(1, 3), depth=3,
           settings=True, world=True, implied=True):
    n = d.integer(lo, hi)
    names = d.weighted([(3, POOL), (1, ODD_POOL)])
    pool = paths(d, 2, size, names, depth, implied)
    if world and d.boolean(1, 4):
        pool.append('/')
    out = []
    for i in range(n):
        mine = [p for p in pool if d.boolean(3, 4)] if n > 1 else pool
        nodes = {}
        for p in mine:
            data = node_data(d, i, p, rich, internals)
            if p == '/':
                data.pop('enabled', None)
            if p != '/' and d.boolean(*inst):
                src = instance_for(d, p, pool)
                if src is not None:
                    data['instance'] = src
            nodes[p] = data
        for p in mine:
            kids = [parts(c)[-1] for c in mine if c != '/' and
                    parent(c) == p]
            if kids and p != '/' and d.boolean():
                nodes[p]['child_order'] = d.sample(kids)
        ly = {'nodes': nodes}
        out.append(ly)
    if d.boolean(1, 4):
        for ly in out:
            if d.boolean(2, 3):
                ly['meta_data'] = layer_meta(d, sorted(pool) or ['/a'])
    if settings:
        for i, ly in enumerate(out):
            if i:
                ly['parent'] = d.integer(0, i - 1)
            if d.boolean(1, 5):
                ly['mute'] = True
            if d.boolean(1, 7):
                ly['solo'] = True
            if d.boolean(1, 4):
                overs = {}
                for j in range(n):
                    if j != i and d.boolean():
                        o = {}
                        if d.boolean(2, 3):
                            o['mute'] = d.boolean()
                        if d.boolean(1, 3):
                            o['solo'] = d.boolean()
                        overs['/nowhere/layer{}.nxt'.format(j)] = o
                ly['comp_overrides'] = overs
    return out


def shown(ls):
    """(mute, solo) as in effect for each layer."""
    out = []
    for j, ly in enumerate(ls):
        res = []
        for key in ('mute', 'solo'):
            v = ly.get(key, False)
            chain = [j]
            while ls[chain[-1]].get('parent') is not None:
                chain.append(ls[chain[-1]]['parent'])
            for i in chain:     # nearest first, the topmost decides
                o = ls[i].get('comp_overrides', {}).get(
                    '/nowhere/layer{}.nxt'.format(j), {})
                if key in o:
                    v = o[key]
            res.append(v)
        out.append(tuple(res))
    return out


def active_ids(ls, from_idx=0):
    st = shown(ls)
    ids = list(range(from_idx, len(ls)))
    solo = [i for i in ids if st[i][1]]
    return [i for i in (solo or ids) if not st[i][0]]


def model(ls, from_idx=0):
    ids = active_ids(ls, from_idx)
    m = compmodel.Comp([ls[i] for i in ids], ids)
    m.check_all()
    return m
