"""C25: values survive being written as attribute text."""
import ast
import os

from pbt.main import Part
from pbt.nxtlib import need, eq, Stage
from pbt.structops import make_stage
from pbt import filegen as fg, runlog

from nxt import stage as nxt_stage

PROPERTY = 'C25'
RULE = ('a case is non-trivial when the value is nested, or its text holds a '
        'quote, a backslash, a line break or a non ascii character, or the '
        'text only looks like a literal')

CHARS = ['a', 'b', ' ', '"', "'", '\\', '\n', '\t', '{', '}', '$', '#', '[',
         '(', ',', ':', '/', '.', '1', 'caf\u00e9', '\u4e2d', '\U0001f600',
         '\r', '\x0b', '\x85', '\u2028', '\x00', '%', '*', '=']


def string(d, lo=0, hi=7):
    s = d.text(CHARS, lo, hi)
    return s.replace('${', '$ {')  # tokens are another property


def scalar(d, hashable=False):
    k = d.draw(8)
    if k == 0:
        return d.integer(-20, 20)
    if k == 1:
        return d.choice([None, True, False])
    if k == 2:
        return d.choice([0.5, -1.25, 1e300, -1e-7, 1e22, 0.1, -0.0, 3.0,
                         123456789.123456789])
    if k == 3:
        n = 10 ** d.integer(0, 60) + d.draw(9)
        return -n if d.boolean() else n
    if k == 4:
        return d.choice([1j, -2.5j, 1 + 2j, complex(-1, -3.5)])
    if k == 5:
        out = bytes(bytearray(d.draw(255) for _ in d.many(0, 5)))
        return out.replace(b'${', b'$_')
    return string(d)


def value(d, depth, hashable=False):
    if depth <= 0 or d.boolean(1, 3):
        return scalar(d)
    kinds = ['tuple'] if hashable else ['list', 'dict', 'tuple', 'set']
    kind = d.choice(kinds)
    hi = d.choice([0, 1, 3, 6])
    if kind == 'dict':
        return {value(d, depth - 2, True): value(d, depth - 1)
                for _ in d.many(0, hi)}
    items = [value(d, depth - 1, hashable or kind == 'set')
             for _ in d.many(0, hi)]
    return {'list': list, 'tuple': tuple, 'set': set}[kind](items)


def form(v):
    """A comparable description that tells 1 from 1.0 from True, at every
    depth."""
    t = type(v).__name__
    if isinstance(v, (list, tuple)):
        return [t] + [form(x) for x in v]
    if isinstance(v, set):
        return [t] + sorted((form(x) for x in v), key=repr)
    if isinstance(v, dict):
        return [t] + sorted(([form(k), form(x)] for k, x in v.items()),
                            key=repr)
    if isinstance(v, complex):
        v += 0  # zeros of either sign are equal
    return [t, repr(v)]


def written(d, v):
    """A text that denotes v."""
    k = d.draw(5)
    t = repr(v)
    if k == 1 and not isinstance(v, str):
        t = '(' + t + ')'
    elif k == 2:
        t = t + d.choice([' ', '\n', ' # note', '\n# note\n'])
    elif k == 3 and isinstance(v, (list, tuple, dict)) and v:
        # one element per line
        o, c = t[0], t[-1]
        if isinstance(v, dict):
            body = ['{!r}: {!r}'.format(a, b) for a, b in v.items()]
        else:
            body = [repr(x) for x in v]
        t = o + '\n    ' + ',\n    '.join(body) + ',\n' + c
    elif k == 4 and isinstance(v, (list, dict)) and v:
        t = t[:-1] + ' ,' + t[-1]
    return t


SHOW = ("__import__('pbt.runlog', fromlist=['x']).LOG.append(('${_nxtpath}', "
        "__import__('checks.c25', fromlist=['x']).form(self.x)))")


def code():
    return [SHOW]


def nodes(text):
    """An attribute, one inherited by a child, by an instance and one that
    names it in a token."""
    return {'/src': {'attrs': {'x': {'value': text}}, 'code': code()},
            '/src/kid': {'code': code()},
            '/inst': {'instance': '/src'},
            '/tok': {'attrs': {'x': {'value': '${/src.x}'}},
                     'code': code()}}


ALL = ['/src', '/src/kid', '/inst', '/tok']


def enter(d, text):
    """A stage whose nodes hold the text, given to it in one of the ways a
    user does."""
    way = d.choice(['data', 'set', 'edit', 'file', 'saved'])
    d.note([way])
    d.label(way)
    if way == 'set' or way == 'edit':
        s = make_stage([{'nodes': nodes(text if way == 'set' else 'other')}])
        ly = s._sub_layers[0]
        comp = s.build_stage() if d.boolean() else None
        s.node_setattr_data(ly.lookup('/src'), 'x', ly, create=True,
                            comp_layer=comp, value=text)
    else:
        s = make_stage([{'nodes': nodes(text)}])
    if way in ('file', 'saved'):
        path = os.path.join(os.environ['VERIF_WORK'], 'v.nxt')
        if way == 'file':
            fg.write(path, {'version': fg.GRAPH_VERSION.VERSION_STR,
                            'nodes': nodes(text)})
        else:
            s._sub_layers[0].save(path)
        s = Stage.load_from_filepath(path)
    return s, way


def evaluated(s, want, text):
    comp = s.build_stage()
    for p in ALL:
        n = comp.lookup(p)
        got = s.get_attr_as_real_data_type(n, 'x', comp)
        eq(form(got), want, 'evaluated value', p, 'text', repr(text))
    runlog.take()
    s.execute_nodes(ALL, comp)
    eq(runlog.take(), [(p, want) for p in ALL], 'value seen by code', 'text',
       repr(text))


def check_value(d):
    while True:
        v = value(d, d.integer(0, 3))
        if not isinstance(v, str):
            break
    text = written(d, v)
    d.note(text)
    s, way = enter(d, text)
    if way in ('set', 'edit'):
        eq(fg_type(s), type(v).__name__, 'reported type', repr(text))
    evaluated(s, form(v), text)
    plain = isinstance(v, (int, float, type(None)))
    d.interesting(not plain and text not in ('[]', '()', '{}', 'set()'))
    d.label(type(v).__name__)


def fg_type(s):
    data = s._sub_layers[0].get_save_data()
    return data['nodes']['/src']['attrs']['x'].get('type')


WORDS = ['a', 'b c', 'self', 'None ', 'none', 'true', 'Tru', 'x y', '1 2', '',
         '[', ']', '{', '}', '(', ')', ',', ':', '"', "'", '1', '2.5', '+',
         '-', '*', '1+1', '1+2j', '[1]', '{}', '[]', '()', '{1: 2}', 'lambda',
         'range(3)', '"a"', "'b'", '.', '/', '\\', 'caf\u00e9', '\u4e2d',
         '#', '\n', '\t', '%', '@', '$', '0', '00', '1l', "b'a'", "u'a'",
         "f'a'", '...', 'set()', 'not ', '**', '{[1]: 2}', '{{}}', 'nan',
         'inf', '\U0001f600', '~', '^', '==', 'if', 'import os', '\x00']


def check_text(d):
    k = d.draw(3)
    if k == 0:
        text = ''.join(d.choice(WORDS) for _ in d.many(1, 6))
    elif k == 1:
        text = string(d, 1, 10)
    elif k == 2:
        # something like a literal, with a piece cut out
        t = repr(value(d, 2))
        i = d.draw(len(t))
        j = min(len(t), i + d.integer(1, 3))
        text = t[:i] + t[j:]
    else:
        text = d.choice(['{}', '[]', '()', '{1}', '{}, 1', 'a']).join(
            [d.choice(['{', '[', '(', '', 'f(']),
             d.choice(['}', ']', ')', ': 1}', ''])])
    text = text.replace('${', '$ {')
    # how leading blanks are read differs between interpreters
    text = text.lstrip(' \t\x0c\n\r')
    if text.startswith('"') and text.endswith('"') or text == '':
        text = 'a' + text
    d.note(text)
    try:
        v = ast.literal_eval(text)
        if isinstance(v, str):
            v = text
            d.label('quoted')
        else:
            d.label('literal after all')
    except (ValueError, TypeError, SyntaxError, NameError, MemoryError,
            RuntimeError):
        v = text
        d.label('text')
    s, way = enter(d, text)
    evaluated(s, form(v), text)
    d.interesting(v == text and
                  any(c in text for c in '{[("\'\\\n1') or
                  any(ord(c) > 127 for c in text))


def check_embedded(d):
    """Tokens inside a larger value take the place of the text they name."""
    vs = [value(d, 2) for _ in range(d.integer(1, 3))]
    vs = [v if not isinstance(v, str) else [v] for v in vs]
    shape = d.choice(['[%s]', '(%s,)', "{'k': [%s]}", '[0, [%s]]'])
    attrs = {'x': {'value': shape % ', '.join(
        '${v%d}' % i for i in range(len(vs)))}}
    for i, v in enumerate(vs):
        attrs['v%d' % i] = {'value': repr(v)}
    want = {'[%s]': vs, '(%s,)': tuple(vs), "{'k': [%s]}": {'k': vs},
            '[0, [%s]]': [0, vs]}[shape]
    d.note([attrs])
    s = make_stage([{'nodes': {'/a': {'attrs': attrs, 'code': code()},
                               '/a/b': {'code': code()}}}])
    comp = s.build_stage()
    for p in ('/a', '/a/b'):
        got = s.get_attr_as_real_data_type(comp.lookup(p), 'x', comp)
        eq(form(got), form(want), 'value with tokens', p, attrs)
    runlog.take()
    s.execute_nodes(['/a', '/a/b'], comp)
    eq(runlog.take(), [('/a', form(want)), ('/a/b', form(want))],
       'value with tokens seen by code', attrs)
    d.interesting(any(v != () and v not in ([], {}, set(), None, 0)
                      for v in vs))


QUOTES = ["'", '"', "'''", '"""']


def check_quote(d):
    i = d.draw(3)
    q = QUOTES[i]
    chars = [c for c in CHARS if c not in ('\\', '\x00') and c != q[0]]
    if len(q) == 1:
        chars = [c for c in chars if c not in '\n\r']
    else:
        chars = [c for c in chars if c != '\r']
    text = d.text(chars, 0, 10)
    if len(q) == 3 and d.boolean() and text:
        # the quote itself may be inside, just not next to the end
        k = d.draw(len(text) - 1)
        text = text[:k] + q[0] * d.integer(1, 2) + text[k:]
    d.note([i, text])
    got = nxt_stage.w(text, i)
    eq(ast.literal_eval(got), text, 'quoted text', i, repr(text))
    own = d.choice(['$', q, '', '--', 'ab'])
    eq(nxt_stage.w(text, own), own + text + own, 'wrapped text', repr(text))
    if i == 0:
        eq(nxt_stage.w(text), got, 'default quote')
    # as node code uses it
    text = text.replace('${', '$ {').replace('}', ')')
    s = make_stage([{'nodes': {'/a': {
        'attrs': {'x': {'value': '[%r, %d]' % (text, i)}},
        'code': ['self.x = eval(w(self.x[0], self.x[1]))'] + code()}}}])
    runlog.take()
    s.execute_nodes(['/a'], s.build_stage())
    eq(runlog.take(), [('/a', form(text))], 'text quoted in code')
    d.interesting(len(text) > 2 and any(not c.isalnum() for c in text))


PARTS = [
    Part('value', check_value, 1500, 40000,
         'values of the literal types nested 3 deep, written as text'),
    Part('text', check_text, 1500, 40000,
         'texts that are no literal, many of them nearly one'),
    Part('embedded', check_embedded, 1000, 20000,
         'values put together from other values through tokens'),
    Part('quote', check_quote, 1500, 30000,
         'strings in each kind of quote'),
]
ASSUMPTIONS = [
    'supported types are those python literals have, without strings (a '
    'quoted text stays as it is written), nan and infinities',
    'w() does not escape: strings hold no backslash and not the quote in a '
    'place where it would end the string']
