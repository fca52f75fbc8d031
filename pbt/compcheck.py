"""Compares a composite with the reference model."""
from pbt.nxtlib import need, eq, parts, parent, SpecLayer
from pbt.nxtlib import INTERNAL_ATTRS as IA, META_ATTRS as MA
from pbt.nxtlib import LayerReturnTypes as RT
from pbt import compmodel as cm
from nxt.nxt_layer import get_node_local_attr_names
from nxt.nxt_node import get_node_enabled

ATTR_OF = {cm.CODE: IA.COMPUTE, cm.EXEC: IA.EXECUTE_IN,
           cm.COMMENT: IA.COMMENT, cm.START: IA.START_POINT,
           cm.ENABLED: IA.ENABLED}


def rp(i):
    return '/nowhere/layer{}.nxt'.format(i)


def existing(comp):
    ps = set(comp.descendants(return_type=RT.Path))
    if comp.lookup('/') is not None:
        ps.add('/')
    return ps


def node_set(comp, m):
    got = existing(comp)
    eq(sorted(got), sorted(m.paths), 'nodes of the composite',
       'extra', sorted(got - m.paths), 'missing', sorted(m.paths - got))
    for p in got:
        n = comp.lookup(p)
        need(n is not None, 'node is listed but not found', p)
        eq(comp.get_node_path(n), p, 'path of composite node', p)
        if p != '/':
            eq(getattr(n, IA.NAME), parts(p)[-1], 'name', p)
            eq(getattr(n, IA.PARENT_PATH), parent(p), 'parent path', p)


def internals(comp, m, stage, keys=tuple(ATTR_OF)):
    for p in sorted(m.paths):
        n = comp.lookup(p)
        for key in keys:
            want, i = m.internal(p, key)
            got = getattr(n, ATTR_OF[key], None)
            if key == cm.CODE:
                got = list(got or [])
                want = want or []
            eq(got, want, key + ' of node', p)
            if key == cm.COMMENT:
                eq(stage.get_node_comment(n), want, 'comment asked for', p)
            elif key == cm.EXEC:
                eq(stage.get_node_exec_in(n), want, 'link asked for', p)
                if p != '/' and parent(p) == '/':
                    eq(comp.get_exec_in(p), want, 'link of the root', p)
            if i is not None:
                eq(stage.get_node_attr_source(n, ATTR_OF[key]), (rp(i), p),
                   'source of ' + key, p)
        if cm.ENABLED in keys:
            eq(get_node_enabled(n), m.internal(p, cm.ENABLED)[0],
               'enabled state', p)


def instances(comp, m, stage):
    for p in sorted(m.paths):
        if p == '/':
            continue
        n = comp.lookup(p)
        got = getattr(n, IA.INSTANCE_PATH, None)
        want = m.inst.get(p)
        if want or got:
            eq(got or None, want or None, 'instance path', p)
        v, i = m.own(p, cm.INST)
        if i is not None and v and cm.walk(v, p) == want:
            eq(stage.get_node_attr_source(n, IA.INSTANCE_PATH), (rp(i), p),
               'source of instance', p)


def attributes(comp, m, stage, sub_layers, own_only=False):
    for p in sorted(m.paths):
        n = comp.lookup(p)
        names = m.local(p) if own_only else m.visible(p)
        seen = stage.get_node_attr_names(n)
        need(len(seen) == len(set(seen)), 'attribute listed twice', p, seen)
        eq(sorted(get_node_local_attr_names(p, sub_layers)),
           sorted(m.local(p)), 'own attributes', p)
        if own_only:
            need(set(names) <= set(seen), 'own attribute is not visible', p)
        else:
            eq(sorted(seen), sorted(names), 'visible attributes', p)
        for a in sorted(names):
            q, i, value, typ, comment = m.attr(p, a)
            got = getattr(n, a, 'NOTHING')
            need(got == value and type(got) == type(value),
                 'value of attribute', p, a, 'got', repr(got), 'want',
                 repr(value), 'from', q)
            raw = stage.get_node_attr_value(n, a, comp, resolved=False)
            if value not in (None, '', 0, False, []):
                eq(raw, value, 'raw value', p, a)
            eq(stage.get_node_attr_source(n, a), (rp(i), q),
               'source of attribute', p, a)
            eq(stage.get_node_attr_comment(n, a), comment,
               'comment of attribute', p, a)
            eq(getattr(n, a + MA.TYPE, None), typ, 'type of attribute', p, a)


def derived_names(comp, m, stage):
    for p in sorted(m.paths):
        n = comp.lookup(p)
        loc = m.local(p)
        inh = stage.get_node_inherited_attr_names(n, comp)
        ins = stage.get_node_instanced_attr_names(n, comp)
        need(len(inh) == len(set(inh)), 'inherited attr listed twice', p, inh)
        need(len(ins) == len(set(ins)), 'instanced attr listed twice', p, ins)
        eq(sorted(loc | set(inh) | set(ins)), sorted(m.visible(p)),
           'own, inherited and instanced attributes', p)
        need(not set(inh) & set(ins), 'an attribute is reported as inherited '
             'and as instanced', p, inh, ins)
        need(not loc & (set(inh)), 'own attribute reported as inherited', p,
             inh)
