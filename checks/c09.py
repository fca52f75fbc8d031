"""C09: values, code, enabled state and new nodes with an open composite."""
import copy

from pbt.main import Part
from pbt.nxtlib import need, parts, to_path
from pbt.nxtlib import INTERNAL_ATTRS as IA
from pbt.structops import make_stage, layer_of
from pbt import compgen, snap
from nxt import DATA_STATE
from nxt.nxt_node import get_node_enabled

RESOLVED = DATA_STATE.RESOLVED

PROPERTY = 'C09'
RULE = ('a case is non-trivial when an edit with the open composite changed '
        'what a node other than the edited one answers, or changed nothing '
        'because another layer decides')
PLAIN = ['1', 'text', '"q"', '[1, 2]', 'a b', "{'k': 1}", '', None]
# tokens name attributes which only get plain values: no cycles
VALUES = PLAIN + ['${nw}', '${zz}!', '${ax}', '${/a.nw}']
CODE = [['pass'], ['x = 1', 'y = 2'], ['# note'], ['self.x = "${y}"'], [],
        ['']]
NEW = ['nw', 'ax', 'zz']


def picture(s, comp, added):
    out = snap.comp(s, comp)
    for p, node in out.items():
        if node['proxy']:
            # any node of the chain it comes from
            del node[IA.INSTANCE_PATH + '.source']
            node[IA.INSTANCE_PATH] = None
        if added:
            # the order among siblings is settled by the next rebuild
            for k in ('child_order', 'children', 'ordered'):
                if k in node:
                    node[k] = sorted(node[k])
        if p == '/':
            del node['child_order']
        for k in list(node):
            if k.endswith('.source'):
                del node[k]
        # an attribute without value is one whether spelled None or not
        node[IA.COMPUTE] = node[IA.COMPUTE] or []
        node[IA.INSTANCE_PATH] = node[IA.INSTANCE_PATH] or None
        for a in node['attrs'].values():
            a.pop('source')
    return out


def values_of(s, comp):
    """What the public queries answer."""
    out = {}
    for p in snap.all_paths(comp):
        n = comp.lookup(p)
        out[p] = [get_node_enabled(n),
                  list(s.get_node_code_lines(n, comp, RESOLVED) or []),
                  {a: s.get_node_attr_value(n, a, comp, RESOLVED)
                   for a in s.get_node_attr_names(n)}]
    return out


def same(a, b, what):
    need(a == b, what, 'the updated composite and a rebuilt one differ',
         snap.diff(a, b) if a != b else '')


def edit(d, s, comp, ls):
    """One edit. Returns (layer index, path, description) or None."""
    i = d.integer(0, len(ls) - 1)
    layer = layer_of(s, i)
    paths = sorted(layer._nodes_path_as_key)
    if not paths:
        return None
    p = d.choice(paths)
    n = layer.lookup(p)
    own = sorted(s.get_node_attr_names(n))
    known = sorted(s.get_node_attr_names(comp.lookup(p))
                   if comp.lookup(p) is not None else [])
    op = d.weighted([(3, 'value'), (2, 'shared'), (2, 'new'), (2, 'delete'),
                     (4, 'code'), (4, 'enabled'), (3, 'add')])
    if op == 'value':
        if not own:
            return None
        a = d.choice(own)
        v = d.choice(PLAIN if a in NEW else VALUES)
        s.node_setattr_data(n, a, layer, create=True, comp_layer=comp,
                            value=v)
        return i, p, (op, a, v)
    if op in ('shared', 'new'):
        if op == 'shared' and not known:
            return None
        a = d.choice(known if op == 'shared' else NEW)
        v = d.choice(PLAIN if a in NEW else VALUES)
        s.node_setattr_data(n, a, layer, create=True, comp_layer=comp,
                            value=v)
        return i, p, (op, a, v)
    if op == 'delete':
        if not own:
            return None
        a = d.choice(own)
        s.delete_node_attr(n, a)
        return i, p, (op, a)
    if op == 'add':
        wish = d.choice(['n1', 'n2', 'n3', 'n4'])
        data = compgen.node_data(d, i, p.rstrip('/') + '/' + wish, 2, 3)
        for k in ('start_point', 'execute_in'):
            data.pop(k, None)
        if not layer_active(ls, i) or any(
                wish in parts(q)
                for ly in s._sub_layers for q in ly._nodes_path_as_key):
            return None
        s.add_node(wish, copy.deepcopy(data), p, layer, comp_layer=comp)
        return i, p, (op, wish, data)
    if op == 'code':
        lines = d.choice(CODE)
        s.set_node_code_lines(n, list(lines), comp)
        return i, p, (op, lines)
    if p == '/':
        return None
    state = d.choice([True, False, None])
    s.node_setattr_data(n, IA.ENABLED, layer, create=True, comp_layer=comp,
                        value=state)
    return i, p, (op, state)


def layer_active(ls, i):
    return i in compgen.active_ids(ls)


def chain_layers(d):
    """Long chains of instances and of parents."""
    n = d.integer(1, 2)
    out = [{'nodes': {}} for _ in range(n)]
    known = []
    for nm in 'abcdefg'[:d.integer(3, 7)]:
        kids = ['/' + nm]
        for c in d.sample(['k', 'm'], 0, 2):
            kids.append(d.choice(kids) + '/' + c)
        for q in kids:
            some = [i for i in range(n) if d.boolean(3, 4)] or [n - 1]
            src = d.choice(some)
            for i in some:
                data = compgen.node_data(d, i, q, 2, 4)
                if i == src and known and (
                        d.boolean(5, 6) if q == kids[0] else
                        d.boolean(1, 8)):
                    data['instance'] = known[-1] if q == kids[0] and \
                        d.boolean(3, 4) else d.choice(known)
                out[i]['nodes'][q] = data
        known.append(kids[0])
        if len(kids) > 1 and d.boolean(1, 3):
            known.append(kids[-1])
    return out


def check_values(d):
    histories(d, compgen.layers(
        d, 1, 3, 7, inst=(1, 3) if d.boolean(2, 3) else (0, 1),
        settings=d.boolean(1, 4)))


def check_chains(d):
    histories(d, chain_layers(d))


def histories(d, ls):
    d.note(ls)
    compgen.model(ls)
    s = make_stage(ls)
    comp = s.build_stage()
    need(not comp.failure, 'composite failed', comp.failure)
    # what was asked before can decide what is answered later
    quiet = d.boolean(1, 3)
    before = picture(s, s.build_stage() if quiet else comp, False)
    added = False
    for _ in d.many(1, 8, (3, 4)):
        did = edit(d, s, comp, ls)
        if did is None:
            continue
        if quiet and d.boolean():
            d.note(['unseen', did])
            added = added or did[2][0] == 'add'
            continue
        d.note(did)
        i, p, what = did
        if what[0] == 'add':
            added = True
        got = picture(s, comp, added)
        fresh = s.build_stage()
        want = picture(s, fresh, added)
        same(got, want, did)
        a, b = values_of(s, comp), values_of(s, fresh)
        need(a == b, did, 'queries differ',
             [(q, a[q], b[q]) for q in a if a[q] != b.get(q)][:3])
        new = to_path(parts(p) + [what[1]]) if what[0] == 'add' else p
        far = [q for q in want if q not in (p, new) and
               want[q] != before.get(q)]
        if far or want == before:
            d.interesting()
        if far:
            d.label('{} reached other nodes'.format(what[0]))
        elif want == before:
            d.label('{} changed nothing'.format(what[0]))
        else:
            d.label('{} changed its node'.format(what[0]))
        before = want


PARTS = [Part('values', check_values, 3000, 80000,
              'histories of value, code and enabled edits and new nodes '
              'with an open composite against rebuilding it after each'),
         Part('chains', check_chains, 1500, 40000,
              'the same with long chains of instances')]
ASSUMPTIONS = ['which layer a value is said to come from is not compared',
               'other structural edits are not claimed: their callers rebuild',
               'after a node was added the order among siblings is not '
               'compared']
