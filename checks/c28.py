"""C28: where a value comes from and what it refers to is reported truthfully.
The reports of the stage against the layers' plain data."""
from pbt.main import Part
from pbt.nxtlib import need, eq, parts, to_path
from pbt.nxtlib import INTERNAL_ATTRS as IA, META_ATTRS as MA
from pbt.structops import make_stage
from pbt import compgen, compmodel
from nxt.stage import get_historical_opinions
from nxt.nxt_layer import LayerReturnTypes as RT, get_node_local_attr_names
from nxt.tokens import TOKENTYPE
from nxt.constants import DATA_STATE

PROPERTY = 'C28'
RULE = ('a case is non-trivial when an attribute or piece of code has opinions '
        'on several nodes or layers, or refers to attributes of other nodes '
        'relative to its own, or an answer that is emptied held something')
INTERNALS = [(compmodel.CODE, IA.COMPUTE), (compmodel.COMMENT, IA.COMMENT),
             (compmodel.ENABLED, IA.ENABLED),
             (compmodel.EXEC, IA.EXECUTE_IN),
             (compmodel.START, IA.START_POINT)]


def rp(i):
    return '/nowhere/layer{}.nxt'.format(i)


def opinions(m, p, key=None, attr=None):
    """[((layer, node), value)] strongest first."""
    if attr is not None:
        return [((rp(i), q), data['attrs'][attr].get('value'))
                for q in m.mro(p) for i, data in m.real.get(q, ())
                if compmodel.opinion(
                    data.get('attrs', {}).get(attr, {}).get('value'))]
    nodes = [p]
    if key in compmodel.FROM_INSTANCE:
        for s in m.trace(p):
            if s not in m.paths:
                break
            nodes.append(s)
    return [((rp(i), q), data[key]) for q in nodes
            for i, data in m.real.get(q, ())
            if compmodel.opinion(data.get(key))]


def reported(got):
    return [(tuple(h[MA.SOURCE]), h[MA.VALUE]) for h in got]


def history(n, name, comp, p, want):
    got = reported(get_historical_opinions(n, name, comp, include_local=True))
    eq(got, want, 'opinions on', name, 'of', p)
    less = reported(get_historical_opinions(n, name, comp))
    if getattr(n, IA.PROXY):
        eq(less, want, 'opinions a mirrored node overrules', name, 'of', p)
    else:
        eq(less, want[1:], 'overruled opinions on', name, 'of', p)
    return len(want) > 1


def check_opinions(d):
    ls = compgen.layers(d, 1, 4, 7)
    d.note(ls)
    m = compgen.model(ls)
    s = make_stage(ls)
    comp = s.build_stage()
    need(not comp.failure, 'composite failed', comp.failure)
    many = False
    for p in sorted(m.paths):
        n = comp.lookup(p)
        for a in sorted(m.visible(p)):
            want = opinions(m, p, attr=a)
            many |= history(n, a, comp, p, want)
            q, i, value, typ, comment = m.attr(p, a)
            data = s.get_node_attr_data(n, a, comp)
            full = {'value': value, 'source': (rp(i), q), 'type': typ,
                    'comment': comment}
            for k in data:
                need(k in full, 'unknown piece of attribute data', p, a, k)
            for k in full:
                eq(data.get(k), full[k], 'attribute data', k, p, a)
        if p != '/':
            for key, name in INTERNALS:
                many |= history(n, name, comp, p, opinions(m, p, key))
        for i, ly in enumerate(s._sub_layers):
            need(s.lookup_layer(rp(i)) is ly, 'layer by path', i)
        own = m.real.get(p, ())
        if own:
            need(s.get_node_source_layer(n) is s._sub_layers[own[0][0]],
                 'source layer', p)
            for a in sorted(m.local(p)):
                first = [data['attrs'][a].get('value') for _, data in own
                         if a in data.get('attrs', {})][0]
                eq(s.get_uncomped_opinion(n, a), first, 'own opinion', p, a)
    known = sorted(set(p for ly in ls for p in ly['nodes']))
    for p in known + ['/never']:
        some = d.sample(list(range(len(ls)))) if d.boolean(1, 3) else \
            list(range(len(ls)))
        some = sorted(some) or list(range(len(ls)))
        given = [s._sub_layers[i] for i in some]
        eq(index(s, s.get_layers_with_opinion(p, given)),
           [i for i in some if p in ls[i]['nodes']], 'layers with', p)
        for a in ['x', 'y', 'never']:
            eq(index(s, s.get_layers_with_opinion(p, given, a)),
               [i for i in some if compmodel.opinion(
                   ls[i]['nodes'].get(p, {}).get('attrs', {}).get(
                       a, {}).get('value'))], 'layers with', p, a)
        for key, name in INTERNALS:
            if p == '/':
                continue
            eq(index(s, s.get_layers_with_opinion(p, given, name)),
               [i for i in some if compmodel.opinion(
                   ls[i]['nodes'].get(p, {}).get(key))],
               'layers with', p, key)
    d.interesting(many)


def index(s, layers):
    return [s._sub_layers.index(ly) for ly in layers]


# -- references ---------------------------------------------------------------
PLAIN = ['', ' ', 'text', '{', '}', '$ ', '} {', '"', '\n', 'a.b', '/a.x']
ATTRS = ['x', 'y', 'zz']


def token(d, pool):
    """-> text, kind, (path as written, attribute) or None"""
    kind = d.weighted([(6, 'attr'), (3, 'local'), (1, 'file'), (1, 'path'),
                       (1, 'contents')])
    a = d.choice(ATTRS)
    if kind == 'attr':
        ref = d.choice(pool + ['..', '.', '../k', './k', 'k', 'k/m',
                               '../../a', '../k/../m', '/never'])
        return '${' + ref + '.' + a + '}', TOKENTYPE.ATTR, (ref, a)
    if kind == 'local':
        return '${' + a + '}', TOKENTYPE.ATTR, None
    f = d.choice(['f.txt', './d/f.txt', '../x', 'name'])
    t = {'file': TOKENTYPE.FILE, 'path': TOKENTYPE.FILEPATH,
         'contents': TOKENTYPE.CONTENTS}[kind]
    return '${' + t.prefix + f + '}', t, None


def text(d, pool):
    """-> text, [(token, kind, ref)]"""
    out, toks = '', []
    for _ in d.many(0, 5, (3, 4)):
        if d.boolean(1, 2):
            out += d.choice(PLAIN)
            continue
        t = token(d, pool)
        toks.append(t)
        if d.boolean(1, 6):
            # not resolvable before the inner one
            out += '${' + d.choice(['/a.', '', 'file::']) + t[0] + '}'
        else:
            out += t[0]
    return out, toks


def reach(rel, p):
    """The node reached from p, None above the top."""
    if rel.startswith('/'):
        return rel
    cur = parts(p)
    for step in rel.split('/'):
        if step == '..':
            if not cur:
                return None
            cur = cur[:-1]
        elif step != '.':
            cur = cur + [step]
    return to_path(cur) if cur else None


def check_references(d):
    pool = ['/a', '/a/k', '/a/k/m', '/b', '/b/k']
    nodes, written = {}, {}
    for p in d.sample(pool, 1):
        attrs = {}
        for a in d.sample(ATTRS):
            txt, toks = text(d, pool)
            attrs[a] = {'value': txt}
            written[p, a] = toks
        lines = [text(d, pool) for _ in d.many(0, 3, (2, 3))]
        nodes[p] = {'attrs': attrs, 'code': [x for x, _ in lines]}
        written[p, None] = [t for _, toks in lines for t in toks]
    if '/b' in nodes and d.boolean():
        nodes['/b']['instance'] = '/a'
    ls = [{'nodes': nodes}]
    d.note(ls)
    m = compgen.model(ls)
    s = make_stage(ls)
    comp = s.build_stage()
    relative = False
    for p in sorted(m.paths):
        n = comp.lookup(p)
        found = [(a, written[m.attr(p, a)[0], a]) for a in
                 sorted(m.visible(p))]
        coded = [q for q in [p] + m.trace(p)
                 if compmodel.opinion(nodes.get(q, {}).get('code'))]
        found.append((None, written[coded[0], None] if coded else []))
        for a, toks in found:
            want, open_ = set(), set()
            for t, kind, ref in toks:
                if ref is None:
                    continue
                q = reach(ref[0], p)
                relative |= not ref[0].startswith('/')
                if q is None:
                    open_.add(ref[1])
                else:
                    want.add(q + '.' + ref[1])
            if a is None:
                got = s.get_node_code_external_sources(n, comp)
                raw = s.get_node_code_string(n, comp, DATA_STATE.RAW)
            else:
                got = s.get_node_attr_external_sources(n, a, comp)
                raw = s.get_node_attr_value(n, a, comp, resolved=False)
            got = set(g for g in got if g in want or
                      g.rpartition('.')[2] not in open_)
            eq(sorted(got), sorted(want), 'attributes referred to', p, a)
            kinds = set((t, kind.prefix) for t, kind, _ in toks)
            eq(sorted(s.get_tokens_from(raw, TOKENTYPE.ATTR)),
               sorted(t for t, k in kinds if k == TOKENTYPE.ATTR.prefix),
               'attribute references', p, a)
            eq(sorted(s.get_tokens_from(raw)), sorted(t for t, _ in kinds),
               'tokens', p, a)
    d.interesting(relative)


def spoil(x):
    if isinstance(x, dict):
        x.clear()
    elif isinstance(x, list):
        del x[:]


def check_handed(d):
    """What is done to an answer by the one who asked changes nothing."""
    ls = compgen.layers(d, 1, 2, 5)
    d.note(ls)
    s = make_stage(ls)
    comp = s.build_stage()
    saved = [repr(ly.get_save_data()) for ly in s._sub_layers]
    for _ in d.many(1, 4):
        layer = d.choice(list(s._sub_layers) + [comp])
        paths = sorted(layer.descendants(return_type=RT.Path))
        if not paths:
            continue
        p = d.choice(paths)
        n = layer.lookup(p)
        names = sorted(s.get_node_attr_names(n))
        a = d.choice(names) if names else IA.COMPUTE
        asks = [
            ('lines', lambda: s.get_node_code_lines(n, layer)),
            ('child order', lambda: s.get_node_child_order(n)),
            ('attribute names', lambda: s.get_node_attr_names(n)),
            ('data of node', lambda: s.get_node_data(n, layer)),
            ('data of attribute', lambda: s.get_node_attr_data(n, a, layer,
                                                               quiet=True)),
            ('layers with opinion', lambda: s.get_layers_with_opinion(p)),
            ('own names', lambda: get_node_local_attr_names(
                p, s._sub_layers)),
            ('order', lambda: comp.get_exec_order(p)
                if comp.lookup(p) is not None else None),
            ('opinions', lambda: get_historical_opinions(
                comp.lookup(p), a, comp) if layer is comp else None),
            ('code refers to', lambda: s.get_node_code_external_sources(
                n, layer))]
        what, ask = d.choice(asks)
        d.note([what, p, a])
        first = ask()
        was = repr(first)
        if first:
            d.interesting()
        spoil(first)
        eq(repr(ask()), was, 'asked again after the answer was emptied', what,
           p, a)
        eq([repr(ly.get_save_data()) for ly in s._sub_layers], saved,
           'emptying an answer changed a layer', what, p, a)


PARTS = [Part('handed', check_handed, 800, 12000,
              'lists and dicts that were reported are emptied, and asked for '
              'again'),
         Part('opinions', check_opinions, 5000, 60000,
              'up to 4 layers, 7 paths each: every attribute, code, comment, '
              'enabled state, execution link and start point'),
         Part('references', check_references, 8000, 80000,
              'texts and code of up to 5 nodes with up to 5 tokens each')]
ASSUMPTIONS = ['references above the top of the hierarchy are not compared']
