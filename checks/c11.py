"""C11: node path operations agree with the hierarchy they describe.
Oracle: a node path *is* the list of its names; every helper is compared with
the plain list operation it stands for."""
from pbt.main import Part
from pbt.nxtlib import *  # noqa: F403
from pbt.nxtlib import nxt_path as np, eq, need, names, name, to_path

PROPERTY = 'C11'
RULE = ('a case is non-trivial when its path is at least two levels deep '
        '(paths) or when the relative path holds at least one step that is '
        'not a plain name (relative)')


def check_path(d):
    ns = names(d, 0, 5)
    p = to_path(ns)
    d.note({'path': p})
    d.interesting(len(ns) >= 2)
    world = not ns
    # split / join
    if not world:
        eq(np.str_path_to_node_namespace(fresh(p)), ns, 'split', p)
    eq(np.node_namespace_to_str_path(ns), p, 'join namespace', ns)
    eq(np.node_namespace_to_str_path(tuple(ns)), p, 'join namespace', ns)
    eq(np.get_path_depth(fresh(p)), len(ns), 'depth', p)
    eq(np.node_name_from_node_path(fresh(p)), ns[-1] if ns else '/', 'name', p)
    eq(np.get_parent_path(fresh(p)), to_path(ns[:-1]) if ns else '',
       'parent', p)
    eq(np.get_root_path(fresh(p)), to_path(ns[:1]), 'root', p)
    eq(list(np.all_ancestor_paths(fresh(p))),
       [to_path(ns[:i]) for i in range(len(ns) - 1, 0, -1)], 'ancestors', p)
    for k in range(0, len(ns) + 2):
        eq(np.trim_to_depth(fresh(p), k), to_path(ns[:k]), 'trim', p, k)
        t = np.trim_to_depth(p, k)
        need(np.get_path_depth(t) == min(k, len(ns)), 'depth of trimmed', p, k)
    # join with one or several names
    more = names(d, 1, 3)
    d.note({'joined with': more})
    got = p
    for m in more:
        prev = got
        got = np.join_node_paths(got, fresh(m))
        eq(np.get_parent_path(got), prev, 'parent of joined', prev, m)
        eq(np.node_name_from_node_path(got), m, 'name of joined', prev, m)
    eq(got, to_path(ns + more), 'joined', p, more)
    eq(np.join_node_paths(p, tuple(more)), to_path(ns + more), 'join many',
       p, more)
    eq(np.join_node_paths(p, list(more)), to_path(ns + more), 'join list',
       p, more)
    eq(np.join_node_paths(p, '/'.join(more)), to_path(ns + more),
       'join sub path', p, more)
    # attribute paths
    attr = d.choice(ATTRS)
    ap = np.make_attr_path(p, attr)
    eq(np.path_attr_partition(ap), (p, attr), 'attr partition', ap)
    eq(np.node_path_from_attr_path(ap), p, 'attr node path', ap)
    eq(np.attr_name_from_attr_path(ap), attr, 'attr name', ap)
    need(np.is_attr_path(ap), 'is attr path', ap)
    need(not np.is_attr_path(p), 'is attr path', p)
    eq(np.path_attr_partition(p), (p, None), 'node path partition', p)
    if not world:
        eq(np.str_path_to_node_namespace(ap), ns, 'split attr path', ap)


def related(d, ns):
    """A path related to ns: an ancestor, a descendant, one with ns as a mere
    string prefix, or any other."""
    how = d.draw(4)
    if how == 0:
        return ns[:d.draw(len(ns))]
    if how == 1:
        return ns + names(d, 0, 2)
    if how == 2 and ns:
        k = d.integer(1, len(ns))
        return ns[:k - 1] + [ns[k - 1] + d.choice(['1', '_', 'a'])] + ns[k:]
    if how == 3 and ns:
        return ns[d.draw(len(ns) - 1):]
    return names(d, 0, 4)


def check_pair(d):
    a = names(d, 0, 5)
    b = related(d, a)
    if d.boolean():
        a, b = b, a
    pa, pb = to_path(a), to_path(b)
    d.note({'path': pa, 'ancestor?': pb})
    d.interesting(len(a) >= 2 and len(b) >= 1)
    below = len(a) > len(b) and a[:len(b)] == b
    if pb != '/' or pa != '/':
        eq(bool(np.is_ancestor(fresh(pa), fresh(pb))), below, 'is_ancestor',
           pa, pb)
    eq(pb in np.all_ancestor_paths(pa), below and pb != '/',
       'ancestor list', pa, pb)
    d.label('below' if below else 'not below')
    new = names(d, 0, 3) if d.boolean() else related(d, b)
    pn = to_path(new)
    d.note({'new ancestor': pn})
    if not a:
        return
    if a[:len(b)] == b:
        eq(np.replace_ancestor(fresh(pa), pb, pn), to_path(new + a[len(b):]),
           'replace_ancestor', pa, pb, pn)
        back = np.replace_ancestor(to_path(new + a[len(b):]), pn, pb)
        if new + a[len(b):]:
            eq(back, pa, 'replace back', pa, pb, pn)
    else:
        eq(np.replace_ancestor(fresh(pa), pb, pn), pa,
           'replace of what is no ancestor', pa, pb, pn)


STEPS = ['..', '.', '', None]


def check_relative(d):
    start = names(d, 0, 4)
    steps = []
    for _ in d.many(1, 6):
        k = d.choice([None, None, '..', '.', '', None, '..'])
        steps.append(name(d) if k is None else k)
    rel = '/'.join(steps)
    sp = to_path(start)
    d.note({'start': sp, 'relative': rel})
    d.interesting(any(s in ('..', '.', '') for s in steps))
    absolute = rel.startswith('/')
    if not rel:
        eq(np.expand_relative_node_path(rel, sp), None, 'empty path')
        return
    got = np.expand_relative_node_path(rel, fresh(sp))
    if absolute:
        eq(got, rel, 'absolute path changed', rel, sp)
        return
    cur = list(start)
    for s in steps:
        if s == '..':
            cur = cur[:-1]
        elif s in ('.', ''):
            pass
        else:
            cur = cur + [s]
    if not cur:
        # above the top: only that the result names no node
        need(got in ('', '/', None), 'above the top', rel, sp, got)
        d.label('leaves the tree')
        return
    eq(got, to_path(cur), 'expand', rel, 'from', sp)
    # walking in two halves gives the same node
    k = d.draw(len(steps))
    first, second = '/'.join(steps[:k]), '/'.join(steps[k:])
    mid = np.expand_relative_node_path(first, sp) if first else sp
    if first.startswith('/') or second.startswith('/'):
        return
    if mid in ('', '/', None):
        return
    end = np.expand_relative_node_path(second, mid) if second else mid
    eq(end, got, 'walk in two halves', rel, k, sp)


PARTS = [Part('paths', check_path, 24000, 400000,
              'generated name lists; every path helper vs list operation'),
         Part('pairs', check_pair, 24000, 400000,
              'pairs of related paths; ancestor tests and replacement'),
         Part('relative', check_relative, 24000, 400000,
              'relative paths of names, "..", "." and empty steps')]
ASSUMPTIONS = ['node names contain neither "/" nor "."']
