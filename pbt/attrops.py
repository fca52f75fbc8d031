"""Attribute, code and node setting edits on one layer through the Stage API,
with a reference model (filegen.describe of the layer's nodes)."""
import ast

from pbt.nxtlib import need, eq, parts, parent
from pbt.nxtlib import INTERNAL_ATTRS as IA
from pbt import filegen as fg
from pbt.structops import CODE

VALUES = ['1', 'text', '2.5', '[1, 2]', "{'k': 1}", '"q"', "'s'", 'True',
          'None', '${x}', 'a b', 'caf\u00e9', 'a\nb', '(1,)', '-3', '', ' ', '  \t ', ' a', 'b ',
          '\n']
NEW = ['x', 'y', 'z', 'xx', 'x1', 'x2', 'B', '_p', 'value', 'attr']
COMMENTS = ['note', 'two\nlines', '"quoted"', 'caf\u00e9', '']
RESERVED = ('_code', '_comment', '_enabled', '_instance', '_name', '__class__',
            '_child_order')


def type_of(value):
    """The name of the type a value's text denotes."""
    try:
        return type(ast.literal_eval(value)).__name__
    except (ValueError, SyntaxError, TypeError):
        return 'raw'


class AttrEditor(object):
    """Draws one edit, applies it to the layer and to the model."""

    def __init__(self, d, stage, layer, comp=None):
        self.d = d
        self.s = stage
        self.layer = layer
        self.comp = comp
        self.nodes = fg.describe(layer)['nodes']
        self.paths = sorted(self.nodes)

    OPS = [(4, 'set'), (3, 'new'), (2, 'comment'), (3, 'rename'),
           (3, 'delete'), (2, 'code'), (1, 'node_comment'), (1, 'enabled'),
           (1, 'exec_in'), (1, 'start'), (1, 'instance'), (1, 'order')]

    def step(self, ops=None):
        d = self.d
        if not self.paths:
            return None
        op = d.weighted(ops or self.OPS)
        self.path = d.choice(self.paths)
        self.node = self.layer.lookup(self.path)
        self.want = self.nodes[self.path]
        self.note = None
        getattr(self, 'op_' + op)()
        if self.note:
            d.note('{} {}'.format(self.path, self.note))
        return op if self.note else None

    def some_attr(self):
        have = sorted(self.want['attrs'])
        return self.d.choice(have) if have else None

    def check_new_name(self, wish, got):
        taken = set(self.want['attrs'])
        need(got not in taken, 'a taken attribute name was given', wish, got)
        need(got not in IA.PROTECTED, 'a reserved name was given', wish, got)
        if wish is not None and wish not in taken and \
                wish not in IA.PROTECTED:
            eq(got, wish, 'a free attribute name was changed')

    # -- attributes
    def op_set(self):
        a = self.some_attr()
        if a is None:
            return self.op_new()
        v = self.d.choice(VALUES)
        self.note = 'set {} = {!r}'.format(a, v)
        extra = {}
        if self.d.boolean(1, 4):
            extra['comment'] = self.d.choice(COMMENTS)
        self.s.node_setattr_data(self.node, a, self.layer, create=True,
                                 comp_layer=self.comp, value=v, **extra)
        e = self.want['attrs'][a]
        # empty text is how an attribute's value is taken away
        e['value'] = v if v != '' else None
        e['type'] = type_of(e['value']) if v != '' else ANY
        if extra:
            e['comment'] = extra['comment'] or None
            self.note += ' comment {!r}'.format(extra['comment'])

    def op_new(self):
        d = self.d
        v = d.choice(VALUES)
        wish = d.choice(NEW + list(RESERVED[:2]))
        data = {'value': v}
        if d.boolean(1, 3):
            data['comment'] = d.choice(COMMENTS)
        direct = d.boolean()
        if not direct and (wish in self.want['attrs'] or wish[:1] == '_'):
            direct = True
        if direct and d.boolean(1, 3):
            data['type'] = d.choice(['raw', 'int'])
        self.note = 'new {} {} {}'.format(wish, data, direct)
        if direct:
            got = self.s.add_node_attr(self.node, wish, dict(data),
                                       self.layer)
            self.check_new_name(wish, got)
        else:
            self.s.node_setattr_data(self.node, wish, self.layer, create=True,
                                     comp_layer=self.comp, **data)
            got = wish
        # a new attribute may be kept with an empty value
        self.want['attrs'][got] = {
            'value': v if v != '' else ANY, 'type': data.get('type') or ANY,
            'comment': data.get('comment') or None}

    def op_comment(self):
        a = self.some_attr()
        if a is None:
            return
        c = self.d.choice(COMMENTS)
        self.note = 'comment {} {!r}'.format(a, c)
        self.s.node_setattr_comment(self.node, a, self.layer, comment=c)
        self.want['attrs'][a]['comment'] = c or None

    def op_rename(self):
        a = self.some_attr()
        if a is None:
            return
        wish = self.d.choice(NEW)
        if wish == a:
            return
        self.note = 'rename {} to {}'.format(a, wish)
        before = set(self.want['attrs'])
        self.s.rename_node_attr(self.node, a, wish, self.layer)
        now = set(fg.spec(self.node)['attrs'])
        got = sorted(now - before)
        need(len(got) == 1 and before - now == {a}, 'renamed attribute',
             self.path, a, wish, 'now', sorted(now))
        self.check_new_name(wish, got[0])
        self.want['attrs'][got[0]] = self.want['attrs'].pop(a)

    def op_delete(self):
        a = self.some_attr()
        if a is None:
            return
        self.note = 'delete {}'.format(a)
        need(self.s.delete_node_attr(self.node, a), 'delete reported failure')
        self.want['attrs'].pop(a)

    # -- node settings
    def op_code(self):
        d = self.d
        comp = self.comp or self.s.build_stage()
        lines = [d.choice(CODE) for _ in d.many(0, 3, (2, 3))]
        self.note = 'code {}'.format(lines)
        self.s.set_node_code_lines(self.node, list(lines), comp)
        self.want[IA.COMPUTE] = lines or None

    def op_node_comment(self):
        c = self.d.choice(COMMENTS[:-1] + [None])
        self.note = 'node comment {!r}'.format(c)
        self.s.set_node_comment(self.node, c, self.layer)
        self.want[IA.COMMENT] = c

    def op_enabled(self):
        if self.path == '/':
            return
        v = self.d.choice([True, False, None])
        self.note = 'enabled {}'.format(v)
        comp = self.comp or self.s.build_stage()
        self.s.node_setattr_data(self.node, IA.ENABLED, self.layer,
                                 create=True, comp_layer=comp, value=v)
        self.want[IA.ENABLED] = v

    def op_exec_in(self):
        if len(parts(self.path)) != 1:
            return
        v = self.d.choice([p for p in self.paths if len(parts(p)) == 1 and
                           p != self.path] + ['/missing', None])
        self.note = 'execute in {}'.format(v)
        self.s.set_node_exec_in(self.node, v, self.layer)
        self.want[IA.EXECUTE_IN] = v

    def op_start(self):
        if len(parts(self.path)) != 1:
            return
        v = self.d.boolean()
        self.note = 'start {}'.format(v)
        self.s.node_setattr_data(self.node, IA.START_POINT, self.layer,
                                 create=True, comp_layer=self.comp, value=v)
        self.want[IA.START_POINT] = v

    def sources(self):
        """Only other root trees that sort earlier: never a cycle."""
        return [p for p in self.paths if p != '/' and
                parts(p)[0] < parts(self.path)[0]]

    def op_instance(self):
        if self.path == '/':
            return
        v = self.d.choice(self.sources() + ['', None])
        if v and self.d.boolean(1, 3):
            # kept as it was given
            v = './' + '../' * len(parts(self.path)) + v[1:]
        self.note = 'instance {!r}'.format(v)
        self.s.set_node_instance_path(self.node, v, self.layer)
        self.want[IA.INSTANCE_PATH] = v

    def op_order(self):
        if self.path == '/':
            return
        kids = [parts(p)[-1] for p in self.paths if p != '/' and
                parent(p) == self.path]
        order = self.d.permutation(kids)
        self.note = 'order {}'.format(order)
        self.s.set_node_child_order(self.node, list(order), self.layer)
        self.want[IA.CHILD_ORDER] = order or None

    # -- comparing
    def check(self, what):
        got = fg.describe(self.layer)['nodes']
        eq(sorted(got), sorted(self.nodes), 'nodes of the layer', what)
        for p, w in self.nodes.items():
            g = got[p]
            eq(sorted(g['attrs']), sorted(w['attrs']), 'attribute names',
               what, p)
            for a, x in w['attrs'].items():
                y = g['attrs'][a]
                for k in x:
                    if x[k] is ANY:
                        x[k] = y[k]
                    need(x[k] == y[k] and type(x[k]) is type(y[k]),
                         'attribute ' + k, what, p, a, 'got', repr(y[k]),
                         'want', repr(x[k]))
            for k in w:
                if k not in ('attrs', IA.CHILD_ORDER):
                    eq(g[k], w[k], 'node' + k, what, p)
            eq(g[IA.CHILD_ORDER] or [], w[IA.CHILD_ORDER] or [],
               'child order', what, p)


class _Any(object):
    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'ANY'


ANY = _Any()


def step(d, stage, layer):
    """One unchecked edit."""
    return AttrEditor(d, stage, layer).step()


def raw(ly):
    """The layer's nodes as layer data, as the spec nodes hold them (an empty
    comment or type that was set counts as an opinion)."""
    nodes = {}
    for p in list(ly._nodes_path_as_key):
        n = ly.lookup(p)
        out = {'attrs': {}}
        for k in list(n.__dict__):
            if k in IA.PROTECTED or k.endswith(fg.MA._suffix):
                continue
            a = {'value': getattr(n, k)}
            for key, suffix in (('type', fg.MA.TYPE),
                                ('comment', fg.MA.COMMENT)):
                if k + suffix in n.__dict__:
                    a[key] = n.__dict__[k + suffix]
            out['attrs'][k] = a
        for attr in (IA.START_POINT, IA.INSTANCE_PATH, IA.EXECUTE_IN,
                     IA.ENABLED, IA.COMMENT, IA.COMPUTE):
            v = n.__dict__.get(attr)
            if v is not None:
                out[attr[1:]] = list(v) if attr == IA.COMPUTE else v
        nodes[p] = out
    return {'nodes': nodes}
