"""A plain-data picture of a composite, as the public API shows it."""
from pbt.nxtlib import INTERNAL_ATTRS as IA, META_ATTRS as MA
from pbt.nxtlib import LayerReturnTypes as RT
from nxt.nxt_node import get_node_enabled

INTERNAL = (IA.COMPUTE, IA.EXECUTE_IN, IA.COMMENT, IA.START_POINT, IA.ENABLED,
            IA.INSTANCE_PATH)


def node(stage, comp, path, resolve=False):
    n = comp.lookup(path)
    out = {'name': getattr(n, IA.NAME), 'parent': getattr(n, IA.PARENT_PATH),
           'proxy': bool(getattr(n, IA.PROXY, False)),
           'enabled': get_node_enabled(n),
           'child_order': list(getattr(n, IA.CHILD_ORDER, []) or [])}
    for a in INTERNAL:
        v = getattr(n, a, None)
        out[a] = list(v) if isinstance(v, (list, tuple)) else v
        out[a + '.source'] = getattr(n, a + MA.SOURCE, None)
    attrs = {}
    for a in stage.get_node_attr_names(n):
        attrs[a] = {'value': getattr(n, a, None),
                    'type': getattr(n, a + MA.TYPE, None),
                    'comment': getattr(n, a + MA.COMMENT, None),
                    'source': stage.get_node_attr_source(n, a)}
    out['attrs'] = attrs
    if path != '/':
        out['children'] = list(comp.children(path, RT.Path))
        out['ordered'] = list(comp.children(path, RT.Path, ordered=True))
    return out


def all_paths(comp):
    ps = set(comp.descendants(return_type=RT.Path))
    if comp.lookup('/') is not None:
        ps.add('/')
    return sorted(ps)


def comp(stage, comp_layer):
    return {p: node(stage, comp_layer, p) for p in all_paths(comp_layer)}


def diff(a, b):
    out = []
    for p in sorted(set(a) | set(b)):
        if p not in a or p not in b:
            out.append((p, 'only in', 'first' if p in a else 'second'))
        elif a[p] != b[p]:
            for k in a[p]:
                if a[p][k] != b[p].get(k):
                    out.append((p, k, a[p][k], b[p].get(k)))
    return repr(out[:6])
