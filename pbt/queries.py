"""Hierarchy queries against the set of node paths."""
from pbt.nxtlib import need, eq, parts, parent, is_below, ancestors, fresh
from pbt.nxtlib import INTERNAL_ATTRS as IA
from pbt.nxtlib import LayerReturnTypes as RT


def with_implied(paths):
    out = set()
    for p in paths:
        if p == '/':
            continue
        out.add(p)
        out |= set(ancestors(p))
    return out


def listed(got, form, layer, what):
    """Whatever the return form, as a list of paths, each backed by the node
    that is there."""
    if form == RT.Path:
        return list(got)
    if form == RT.Node:
        out = []
        for n in got:
            p = layer.get_node_path(n)
            need(p is not None and layer.lookup(p) is n,
                 'a listed node is not in the layer', what)
            out.append(p)
        return out
    if form == RT.NodeTable:
        for p, n in got:
            need(layer.lookup(p) is n and n is not None,
                 'a listed pair does not match', what, p)
        return [p for p, _ in got]
    raise AssertionError(form)


def is_ordered(got, kids, order, what):
    """got lists kids, those named in the child order first."""
    want = []
    for n in order:
        for k in kids:
            if parts(k)[-1] == n and k not in want:
                want.append(k)
    eq(got[:len(want)], want, 'child order', what)


def children(d, layer, paths, p):
    form = d.choice([RT.Path, RT.Node, RT.NodeTable, RT.NameDict, RT.Boolean])
    implied = form == RT.Path and d.boolean()
    ordered = d.boolean()
    if ordered and layer.lookup(p) is None and not implied:
        ordered = False
    if p == '/' and layer.lookup('/') is None:
        ordered = False
    what = 'children {} {} ordered={} implied={}'.format(p, form, ordered,
                                                          implied)
    d.note(what)
    got = layer.children(fresh(p), form, ordered=ordered,
                         include_implied=implied)
    base = with_implied(paths) if implied else set(paths)
    kids = {q for q in base if parent(q) == p and q != '/'}
    if form == RT.Boolean:
        need(bool(got) is bool(kids), 'has children', what, got)
        return bool(kids)
    if form == RT.NameDict:
        eq(sorted(got), sorted(parts(k)[-1] for k in kids), 'child names',
           what)
        for k in kids:
            need(got[parts(k)[-1]] is layer.lookup(k),
                 'name leads to another node', what, k)
        return bool(kids)
    lst = listed(got, form, layer, what)
    need(len(lst) == len(set(lst)), 'a child is listed twice', what, lst)
    eq(sorted(lst), sorted(kids), 'children', what)
    if ordered and layer.lookup(p) is not None:
        is_ordered(lst, kids, getattr(layer.lookup(p), IA.CHILD_ORDER), what)
    return bool(kids)


def descendants(d, layer, paths, p):
    form = d.choice([RT.Path, RT.Node, RT.NodeTable])
    ordered = form == RT.Path and p != '/' and d.boolean()
    implied = form == RT.Path and d.boolean()
    what = 'descendants {} {} ordered={} implied={}'.format(p, form, ordered,
                                                            implied)
    d.note(what)
    got = layer.descendants(fresh(p), form, ordered=ordered,
                            include_implied=implied)
    base = with_implied(paths) if implied else set(paths)
    want = {q for q in base if is_below(q, p)}
    lst = listed(list(got), form, layer, what)
    need(len(lst) == len(set(lst)), 'a descendant is listed twice', what, lst)
    eq(sorted(lst), sorted(want), 'descendants', what)
    if ordered:
        full = with_implied(paths)

        def walk_children(q):
            """Children subtrees of q appear as blocks, in child order."""
            kids = [k for k in full if parent(k) == q]
            first = {}
            for i, x in enumerate(lst):
                for k in kids:
                    if x == k or is_below(x, k):
                        first.setdefault(k, []).append(i)
            for k, idxs in first.items():
                eq(idxs, list(range(idxs[0], idxs[0] + len(idxs))),
                   'a subtree is not listed in one piece', what, k)
                if k in want:
                    eq(lst[idxs[0]], k, 'a node is listed after its '
                       'descendants', what, k)
            node = layer.lookup(q)
            if node is not None:
                present = [k for k in kids if k in first]
                seq = sorted(present, key=lambda k: first[k][0])
                is_ordered(seq, present, getattr(node, IA.CHILD_ORDER), what)
            for k in kids:
                walk_children(k)
        walk_children(p)
    return bool(want)


def ancestry(d, layer, paths, p):
    form = d.choice([RT.Path, RT.Node, RT.NodeTable, RT.NameDict, RT.Boolean])
    implied = form == RT.Path and d.boolean()
    if layer.lookup(p) is None:
        implied = True
        form = RT.Path
    what = 'ancestors {} {} implied={}'.format(p, form, implied)
    d.note(what)
    got = layer.ancestors(fresh(p), form, include_implied=implied)
    if implied:
        lst = [a for a in got if a != '/']
        eq(sorted(lst), sorted(ancestors(p)), 'ancestors', what)
        return
    want = [a for a in ancestors(p) if a in paths]
    if form == RT.Boolean:
        need(got is bool(want), 'has ancestors', what, got)
        return
    if form == RT.NameDict:
        names = [parts(a)[-1] for a in want]
        eq(sorted(got), sorted(set(names)), 'ancestor names', what)
        for nm, n in got.items():
            need(any(parts(a)[-1] == nm and layer.lookup(a) is n
                     for a in want), 'name leads to another node', what, nm)
        return
    eq(listed(got, form, layer, what), want, 'ancestors nearest first', what)


class Handed(object):
    """A layer whose answers are used up once they were checked: what is done
    to an answer by the one who asked must not change later answers."""

    def __init__(self, layer):
        self._layer = layer
        self._answers = []

    def __getattr__(self, name):
        got = getattr(self._layer, name)
        if name not in ('children', 'descendants', 'ancestors'):
            return got

        def call(*args, **kwargs):
            answer = got(*args, **kwargs)
            self._answers.append(answer)
            return answer
        return call

    def spoil(self):
        for answer in self._answers:
            if isinstance(answer, (list, dict, set)):
                answer.clear()


def ask(d, layer, paths):
    layer = Handed(layer)
    out = _ask(d, layer, paths)
    layer.spoil()
    return out


def _ask(d, layer, paths):
    paths = set(paths)
    pool = sorted(with_implied(paths)) + ['/', '/missing', '/a/missing']
    p = d.choice(pool)
    k = d.draw(4)
    if k <= 1:
        return children(d, layer, paths, p)
    if k <= 3:
        return descendants(d, layer, paths, p)
    if p != '/':
        ancestry(d, layer, paths, p)


def ask_all(layer, paths, also=()):
    """Every node, the plain forms: what a stale cache would get wrong.
    also: paths to ask for though they may be gone."""
    paths = set(paths)
    full = with_implied(paths)
    for p in sorted(full | set(also)):
        for implied, base in ((False, paths), (True, full)):
            got = layer.children(p, RT.Path, include_implied=implied)
            eq(sorted(got), sorted(q for q in base if parent(q) == p),
               'children', p, 'implied', implied)
            got = layer.descendants(p, RT.Path, include_implied=implied)
            eq(sorted(got), sorted(q for q in base if is_below(q, p)),
               'descendants', p, 'implied', implied)
        got = layer.children(p, RT.Node)
        eq(sorted(layer.get_node_path(n) or '' for n in got),
           sorted(q for q in paths if parent(q) == p), 'children nodes', p)
