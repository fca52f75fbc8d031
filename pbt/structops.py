"""Structural edit sequences on a layer, driven through the Stage API, with a
reference model (a dict of node path -> content, plus child orders)."""
import copy
import json

from pbt.nxtlib import *  # noqa: F403
from pbt.nxtlib import need, eq, names, name, to_path, parts, parent, is_below
from pbt.nxtlib import Stage, W
from nxt.nxt_layer import LayerReturnTypes as RT

CODE = ['pass', 'x = 1', '', '# note', 'self.v = "${x}"', 'print("a")']
VALUES = ['1', 'text', '"q"', '[1, 2]', '${x}', 'a b', "{'k': 1}"]
COMMENTS = ['note', 'two\nlines', 'x']


def content(d, path='/a', srcs=(), roots=(), rich=3):
    """Node data as it appears in a file (without child order)."""
    out = {}
    attrs = {}
    for _ in d.many(0, rich, (1, 2)):
        a = {}
        if d.boolean(3, 4):
            a['value'] = d.choice(VALUES)
        if d.boolean(1, 4):
            a['type'] = d.choice(['raw', 'int', 'str'])
        if d.boolean(1, 4):
            a['comment'] = d.choice(COMMENTS)
        attrs[d.choice(['x', 'y', 'z', 'xx', 'x1'])] = a
    if attrs:
        out['attrs'] = attrs
    if d.boolean(1, 3):
        out['code'] = [d.choice(CODE) for _ in d.many(1, 3)]
    if d.boolean(1, 4):
        out['comment'] = d.choice(COMMENTS)
    if d.boolean(1, 4):
        out['enabled'] = d.boolean()
    if srcs and d.boolean(1, 5):
        out['instance'] = d.choice(list(srcs))
    if roots and len(parts(path)) == 1 and d.boolean(1, 4):
        out['execute_in'] = d.choice(list(roots))
    return out


def gen_nodes(d, lo=1, hi=7, implied=True, pool=None, world=True,
              instances=True, depth=4, exec_in=True):
    ps = paths(d, lo, hi, pool, depth, implied)
    nodes = {}
    roots = [p for p in ps if len(parts(p)) == 1]
    done = []
    for p in ps:
        # sources: other root trees only, earlier in the list: no cycles
        srcs = [q for q in done if parts(q)[0] < parts(p)[0]] \
            if instances else ()
        nodes[p] = content(d, p, srcs,
                           [r for r in roots if r != p] if exec_in else ())
        done.append(p)
    for p in ps:
        kids = [parts(c)[-1] for c in ps if parent(c) == p]
        if kids and d.boolean():
            nodes[p]['child_order'] = d.permutation(kids)
    if world and d.boolean(1, 6):
        nodes['/'] = {k: v for k, v in content(d, '/').items()
                      if k in ('code', 'comment', 'attrs')}
    return nodes


def make_stage(layers):
    """layers: list of layer data, strongest first. In memory."""
    s = Stage()
    s.remove_sublayer(0)
    for i, data in enumerate(layers):
        data = copy.deepcopy(data)
        data.setdefault('real_path', '/nowhere/layer{}.nxt'.format(i))
        data.setdefault('filepath', data['real_path'])
        up = data.pop('parent', None)
        if up is not None:
            data['parent_layer'] = s._sub_layers[up]
        s.new_layer(i, data)
    return s


def layer_of(s, i):
    return s._sub_layers[i]


def saved(layer):
    """The layer's save data as plain comparable data."""
    return json.loads(json.dumps(layer.get_save_data()))


def strip(node_data):
    out = {k: v for k, v in node_data.items() if k != 'child_order'}
    return out


def normal(data):
    """Content as the save data spells it."""
    out = {k: copy.deepcopy(v) for k, v in data.items()
           if v not in (None, [], {}) and k not in ('child_order', 'name',
                                                    'children')}
    return out


class Model(object):
    """One layer: what every structural edit must turn it into."""

    def __init__(self, layer):
        sd = saved(layer)
        self.nodes = {p: strip(n) for p, n in sd.get('nodes', {}).items()}
        meta = sd.get('meta_data', {})
        self.positions = dict(meta.get('positions', {}))
        self.collapse = dict(meta.get('collapse', {}))
        self.anywhere = set()   # paths whose position is not claimed

    def below(self, path):
        return [p for p in self.nodes if is_below(p, path)]

    def drop(self, path):
        self.nodes.pop(path)
        self.positions.pop(path, None)
        self.collapse.pop(path, None)

    def move(self, old, new, renamed=False):
        """old and everything below it becomes new and ...; simultaneous."""
        out = {}
        for p, c in self.nodes.items():
            if p == old:
                out[new] = c
            elif is_below(p, old):
                out[new + p[len(old):]] = c
            else:
                out[p] = c
        need(len(out) == len(self.nodes), 'two nodes share a path', old, new)
        there = {p: new + p[len(old):] for p in self.nodes
                 if p == old or is_below(p, old)}
        # what is collapsed stays collapsed, wherever it moves
        collapse = {there[p]: self.collapse.pop(p) for p in there
                    if p in self.collapse}
        self.collapse.update(collapse)
        # only a rename keeps the position, and that of the node alone
        pos = self.positions.pop(old, None) if renamed else None
        for p, q in there.items():
            if p != old or not renamed:
                self.anywhere |= {p, q}
        self.anywhere -= {new} if renamed and old not in self.anywhere \
            else set()
        if pos is not None:
            self.positions[new] = pos
        self.nodes = out


def child_orders(layer):
    out = {}
    for p in list(layer._nodes_path_as_key):
        n = layer.lookup(p)
        out[p] = list(getattr(n, INTERNAL_ATTRS.CHILD_ORDER, []))
    return out


def check_layer(layer, model, what):
    """The layer is consistent and is exactly what the model says."""
    want = set(model.nodes)
    sd = saved(layer)
    meta = sd.get('meta_data', {})
    sd = sd.get('nodes', {})
    eq(meta.get('collapse', {}), model.collapse, 'collapsed nodes', what)
    for got, wanted in ((meta.get('positions', {}), model.positions),):
        eq({p: v for p, v in got.items() if p not in model.anywhere},
           {p: v for p, v in wanted.items() if p not in model.anywhere},
           'positions', what)
    eq(sorted(sd), sorted(want), 'node paths', what)
    got = list(layer.descendants(return_type=RT.Path))
    need(len(got) == len(set(got)), 'a node is listed twice', what, got)
    eq(sorted(got), sorted(want - {'/'}), 'listed paths', what)
    need(len(layer.spec_list) == len(want), 'number of nodes', what,
         len(layer.spec_list), len(want))
    seen = []
    for p in sorted(want):
        n = layer.lookup(p)
        need(n is not None, 'not found under its path', what, p)
        need(not any(n is m for m in seen), 'one node under two paths', what,
             p)
        seen.append(n)
        eq(layer.get_node_path(n), p, 'path of node', what, p)
        eq(getattr(n, INTERNAL_ATTRS.NAME), parts(p)[-1] if p != '/' else '/',
           'name of node', what, p)
        eq(getattr(n, INTERNAL_ATTRS.PARENT_PATH), parent(p),
           'parent of node', what, p)
        eq(strip(sd[p]), model.nodes[p], 'content', what, p)
    for p in sorted({a for q in want for a in ancestors(q)} - want):
        kids = sorted(layer.children(p, RT.Path)) if p != '/' else []
        eq(kids, sorted(c for c in want if parent(c) == p and p != '/'),
           'children of a node which is not there', what, p)
    for p in sorted(want):
        co = getattr(layer.lookup(p), INTERNAL_ATTRS.CHILD_ORDER)
        need(len(co) == len(set(co)), 'child order lists a name twice', what,
             p, co)
        kids = [c for c in layer.children(p, RT.Path)] if p != '/' else []
        need(len(kids) == len(set(kids)), 'a child is listed twice', what, p,
             kids)
        eq(sorted(kids), sorted(c for c in want if parent(c) == p and
                                p != '/'), 'children', what, p)


def random_wish(d):
    return d.choice(['a', 'b', 'new', 'node', 'aa', 'a2', 'bad name', '1st',
                     'x-y', None, 'node2', '_x'])


def legal(nm):
    return bool(nm) and not nm[0].isdigit() and \
        all(c.isalnum() or c == '_' for c in nm)


class Editor(object):
    """Draws and applies one structural edit, updating the model."""

    def __init__(self, d, stage, layer, model, others=()):
        self.d = d
        self.s = stage
        self.layer = layer
        self.m = model
        self.others = list(others)   # other layers of the stage
        self.last = ''

    @property
    def plain(self):
        """Nothing instances anything: then a name is taken only when a layer
        has a node there. Histories may set instance paths between edits."""
        return not any('instance' in n for ly in self.others + [self.layer]
                       for n in saved(ly).get('nodes', {}).values())

    def taken(self, path):
        return path in self.m.nodes or any(o.node_exists(path)
                                           for o in self.others)

    def pick(self):
        ps = sorted(p for p in self.m.nodes if p != '/')
        return self.d.choice(ps) if ps else None

    def step(self):
        d = self.d
        op = d.weighted([(4, 'add'), (3, 'delete'), (4, 'rename'),
                         (4, 'parent'), (2, 'duplicate'), (1, 'hierarchy')])
        before = child_orders(self.layer)
        fn = getattr(self, 'op_' + op)
        fn(before)
        return op

    def look(self):
        """What the composite holds before the edit."""
        return self.s.build_stage()

    def check_name(self, wish, got, parent_path, what, comp=None):
        """got was chosen for the wish under parent_path, before the edit."""
        path = to_path(parts(parent_path) + [got])
        need(legal(got), 'illegal name given', what, got)
        need(path not in self.m.nodes, 'a taken name was given', what, path)
        if comp is not None:
            need(comp.lookup(path) is None, 'a name which is taken in the '
                 'composite was given', what, path)
        if wish and legal(wish) and self.plain and \
                not self.taken(to_path(parts(parent_path) + [wish])):
            eq(got, wish, 'a free legal name was changed', what)
        return path

    def same_orders(self, before, after, allow, what, ren=lambda p: p):
        """Child orders of all nodes but `allow` are unchanged."""
        for p, co in before.items():
            q = ren(p)
            if q is None or q in allow or q not in after:
                continue
            # existing children it did not mention may get appended
            kids = [parts(c)[-1] for c in self.m.nodes if parent(c) == q]
            rest = [n for n in after[q][len(co):] if n not in kids]
            eq(after[q][:len(co)] + rest, co,
               'child order of an unrelated node', what, p)

    def op_add(self, before):
        d = self.d
        wish = random_wish(d)
        known = sorted(p for p in self.m.nodes if p != '/')
        where = d.draw(3)
        if where == 0 or not known:
            pp = '/'
        elif where == 3:
            pp = to_path(names(d, 1, 3))
        else:
            pp = d.choice(known)
        data = content(d, '/q', (), (), 2)
        fix = d.boolean(3, 4)
        want_path = to_path(parts(pp) + [wish]) if wish else None
        if not fix and (not wish or not legal(wish) or self.taken(want_path)):
            fix = True
        what = 'add {!r} under {} fix={}'.format(wish, pp, fix)
        self.d.note(what)
        self.last = what
        arg = pp
        if pp in self.m.nodes and d.boolean() and pp != '/':
            arg = self.layer.lookup(pp)
        comp = self.look() if fix else None
        live = fix and d.boolean(1, 4)
        if live:
            d.note('live')
        nodes, _ = self.s.add_node(name=wish, data=copy.deepcopy(data),
                                   parent=arg, layer=self.layer,
                                   fix_names=fix,
                                   comp_layer=self.look() if live else None)
        need(len(nodes) == 1, 'number of added nodes', what, len(nodes))
        got = getattr(nodes[0], INTERNAL_ATTRS.NAME)
        path = self.check_name(wish, got, pp, what, comp)
        if not fix:
            eq(got, wish, 'name was changed', what)
        need(self.layer.lookup(path) is nodes[0], 'added node not found', what)
        self.m.nodes[path] = normal(data)
        after = child_orders(self.layer)
        self.same_orders(before, after, (pp, path), what)
        self.orders_grow(before, after, pp, got, what)

    def orders_grow(self, before, after, pp, nm, what):
        if pp in self.m.nodes and pp != '/':
            need(nm in after[pp], 'new child is not in the child order', what)
            rest = [n for n in after[pp] if n != nm]
            eq(rest, [n for n in before[pp] if n != nm],
               'order of the other children', what)

    def op_delete(self, before):
        d = self.d
        p = self.pick()
        if p is None:
            return
        deep = d.boolean()
        what = 'delete {} descendants={}'.format(p, deep)
        d.note(what)
        self.last = what
        below = self.m.below(p)
        ok, removed = self.s.delete_node(self.layer.lookup(p), self.layer,
                                         delete_descendants=deep)
        need(ok is True, 'delete reported failure', what)
        gone = [p] + (below if deep else [])
        for g in gone:
            self.m.drop(g)
            need(self.layer.lookup(g) is None, 'deleted node is still there',
                 what, g)
        after = child_orders(self.layer)
        pp = parent(p)
        self.same_orders(before, after, (pp,), what)
        if pp in after and pp != '/':
            nm = parts(p)[-1]
            eq([n for n in after[pp] if n != nm],
               [n for n in before[pp] if n != nm],
               'order of the other children', what)
            if deep or not below:
                need(nm not in after[pp], 'deleted child is still in the '
                     'child order', what)
            else:
                eq(after[pp], before[pp], 'child order, the deleted child is '
                   'still implied', what)

    def op_rename(self, before):
        d = self.d
        p = self.pick()
        if p is None:
            return
        wish = random_wish(d) or 'node'
        pp = parent(p)
        force = d.boolean(1, 3)
        target = to_path(parts(pp) + [wish])
        if force and (not legal(wish) or self.taken(target) or
                      any(is_below(q, target) for q in self.m.nodes)):
            force = False
        if wish == parts(p)[-1]:
            return
        # moving onto an implied node: its other descendants would be adopted
        what = 'rename {} to {!r} force={}'.format(p, wish, force)
        d.note(what)
        self.last = what
        comp = None if force else self.look()
        top = self.s.top_layer
        shown = top.positions.get(p) if top is not self.layer else None
        live = not force and d.boolean(1, 4)
        if live:
            d.note('live')
        new = self.s.set_node_name(self.layer.lookup(p), wish, self.layer,
                                   force=force,
                                   comp_layer=self.look() if live else None)
        got = parts(new)[-1]
        if shown is not None and not any(o.node_exists(p)
                                         for o in self.others):
            eq(top.positions.get(new), shown, 'where the top layer shows it',
               what)
        eq(parent(new), pp, 'rename moved the node', what)
        if force:
            eq(got, wish, 'forced name was changed', what)
        else:
            self.check_name(wish, got, pp, what, comp)
        adopted = [q for q in self.m.nodes if is_below(q, new)]
        if any(new + q[len(p):] in self.m.nodes for q in self.m.below(p)) and \
                adopted:
            raise Discard('moved onto orphans')
        self.m.move(p, new, True)
        after = child_orders(self.layer)

        def ren(q):
            if q == p:
                return new
            if is_below(q, p):
                return new + q[len(p):]
            return q
        self.same_orders(before, after, (pp,), what, ren)
        if pp in after and pp != '/':
            nm = parts(p)[-1]
            want = []
            for n in before[pp]:
                n = got if n == nm else n
                if n not in want:
                    want.append(n)
            eq([n for n in after[pp] if n in want], want, 'child order', what,
               pp)

    def op_parent(self, before):
        d = self.d
        ps = sorted(p for p in self.m.nodes if p != '/')
        if not ps:
            return
        chosen = []
        for p in d.sample(ps, 1, 2):
            if not any(is_below(p, c) or is_below(c, p) for c in chosen):
                chosen.append(p)
        targets = [W] + [q for q in ps if q not in chosen and
                         not any(is_below(q, c) for c in chosen)]
        if d.boolean(1, 6):
            t = to_path(names(d, 1, 3))
            # a node that is missing though its descendants are there
            gaps = sorted({a for q in ps for a in ancestors(q)} - set(ps))
            if gaps and d.boolean(3, 4):
                t = d.choice(gaps)
            if t not in chosen and not any(is_below(t, c) for c in chosen):
                targets = [t]
        pp = d.choice(targets)
        chosen = [c for c in chosen if parent(c) != pp]
        if not chosen:
            return
        what = 'parent {} to {}'.format(chosen, pp)
        d.note(what)
        self.last = what
        nodes = [self.layer.lookup(c) for c in chosen]
        comp = self.look()
        # asked for before the edit, answered anew after it
        for c in chosen:
            for q in self.m.below(c) + [c]:
                self.layer.children(q, RT.Path)
                self.layer.children(parent(to_path(parts(pp) + [parts(c)[-1]])
                                           + q[len(c):]), RT.Path)
        res = self.s.parent_nodes(nodes, pp, self.layer)
        eq(sorted(res), sorted(chosen), 'reported old paths', what)
        allow = {pp}
        moved = []
        for c in chosen:
            new = res[c]
            eq(parent(new), pp, 'new parent', what)
            # what is moved first may take what it mirrors along
            self.check_name(parts(c)[-1], parts(new)[-1], pp, what,
                            comp if c == chosen[0] or self.plain else None)
            if any(new + q[len(c):] in self.m.nodes for q in self.m.below(c)):
                raise Discard('moved onto orphans')
            allow.add(parent(c))
            for a in ancestors(c):
                if a in self.m.nodes:
                    allow.add(a)
                    break
            self.m.move(c, new)
            moved.append((c, new))
        after = child_orders(self.layer)
        if len(moved) == 1:
            self.implied_orders(before, after, pp, moved[0], what)

        def ren(q):
            for c, new in moved:
                if q == c:
                    return new
                if is_below(q, c):
                    return new + q[len(c):]
            return q
        self.same_orders(before, after, allow | {ren(a) for a in allow}, what,
                         ren)
        for c, new in moved:
            opp = parent(c)
            if opp in before and opp != '/' and ren(opp) in after and \
                    opp != pp and ren(opp) != pp:
                gone = [parts(x)[-1] for x, _ in moved if parent(x) == opp]
                real = [parts(q)[-1] for q in self.m.nodes
                        if parent(q) == ren(opp)]
                need(not [n for n in after[ren(opp)] if n in gone and
                          n not in real],
                     'child order of the old parent keeps a moved node', what,
                     opp)
                eq([n for n in after[ren(opp)] if n in real],
                   [n for n in before[opp] if n in real],
                   'child order of the old parent', what, opp)
        if pp in before and pp != '/':
            new_names = [parts(n)[-1] for _, n in moved]
            for n in new_names:
                need(n in after[ren(pp)], 'moved child missing in the child '
                     'order', what)
            real = [parts(q)[-1] for q in self.m.nodes if parent(q) == ren(pp)]
            eq([n for n in after[ren(pp)] if n not in new_names and n in real],
               [n for n in before[pp] if n not in new_names and n in real],
               'child order of the new parent', what)

    def implied_orders(self, before, after, pp, moved, what):
        """The nearest ancestor there is knows what its descendants imply."""
        c, new = moved
        holders = [a for a in ancestors(c) if a in before and a != '/']
        if not holders or holders[0] == parent(c):
            return
        a = holders[0]
        if a not in after or a == pp:
            return
        nm = parts(c)[len(parts(a))]
        side = to_path(parts(a) + [nm])
        implied = any(q == side or is_below(q, side) for q in self.m.nodes)
        want = [n for n in before[a] if n != nm or implied]
        eq(after[a], want, 'child order of an ancestor', what, a)

    def op_duplicate(self, before):
        d = self.d
        p = self.pick()
        if p is None:
            return
        deep = d.boolean(2, 3)
        pp = parent(p)
        what = 'duplicate {} descendants={}'.format(p, deep)
        d.note(what)
        self.last = what
        old = dict(self.m.nodes)
        comp = self.look()
        nodes, _ = self.s.duplicate_node(self.layer.lookup(p), self.layer,
                                         descendants=deep)
        new_paths = []
        for n in nodes:
            np_ = self.layer.get_node_path(n)
            need(np_ is not None, 'created node is not in the layer', what)
            new_paths.append(np_)
        need(len(set(new_paths)) == len(new_paths), 'two copies share a path',
             what, new_paths)
        # hierarchy needed to hold the copy may be created too
        created_anc = [q for q in new_paths if q in ancestors(p)]
        for q in created_anc:
            need(q not in old, 'existing node was created again', what, q)
            self.m.nodes[q] = {}
        tops = [q for q in new_paths if parent(q) == pp and
                q not in created_anc]
        need(len(tops) == 1, 'number of copies', what, new_paths)
        top = tops[0]
        self.check_name(None, parts(top)[-1], pp, what, comp)
        if any(is_below(q, top) for q in old):
            raise Discard('the copy adopts orphans')
        copies = {top: old[p]}
        if deep:
            for q in old:
                if is_below(q, p):
                    copies[top + q[len(p):]] = old[q]
        got = sorted(q for q in new_paths if q not in created_anc)
        extra = [g for g in got if g not in copies and
                 any(is_below(c, g) for c in copies)]
        eq(sorted(set(got) - set(extra)), sorted(copies), 'copied nodes', what)
        for e in extra:
            self.m.nodes[e] = {}
        self.m.nodes.update(copy.deepcopy(copies))
        after = child_orders(self.layer)
        self.same_orders(before, after, {pp} | set(created_anc) |
                         {parent(q) for q in created_anc}, what)
        if p in before and deep and not extra:
            want = [n for n in before[p]
                    if to_path(parts(top) + [n]) in copies]
            eq([n for n in after[top] if n in want], want,
               'child order of the copy', what)

    def op_hierarchy(self, before):
        d = self.d
        base = self.pick()
        ns = (parts(base)[:d.integer(0, len(parts(base)))] if base else []) + \
            names(d, 1, 2)
        what = 'hierarchy {}'.format(to_path(ns))
        d.note(what)
        self.last = what
        table, _ = self.s.add_node_hierarchy(list(ns), parent=None,
                                             layer=self.layer)
        want = [to_path(ns[:i]) for i in range(1, len(ns) + 1)]
        want = [w for w in want if w not in self.m.nodes]
        eq([t[0] for t in table], want, 'created hierarchy', what)
        for w in want:
            self.m.nodes[w] = {}
        after = child_orders(self.layer)
        self.same_orders(before, after, {parent(w) for w in want}, what)
