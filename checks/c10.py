"""C10: tokens in text resolve to the values they name, and only they."""
import re

from pbt.main import Part
from pbt.nxtlib import need, eq, parts, Discard
from pbt.structops import make_stage
from pbt import compgen, compmodel
from nxt import tokens

PROPERTY = 'C10'
RULE = ('a case is non-trivial when the text holds at least one balanced '
        'token that names an existing attribute, or its braces are '
        'unbalanced or nested')

PLAIN = ['a', ' ', '.', '$', '{', '\n', '"', '\\', 'x', '/', '\u00e9', '$$',
         '{}', '1', ',', '%s', '{0}']


LIKE = ['_nxtpaths', '_nxtpath1', '_nxtcolors', 'file', 'path', 'contents',
        'filelist', 'x_', 'Z']


# -- the texts -------------------------------------------------------------
def gen_text(d, paths, attrs, depth=3, broken=True, lo=0):
    out = []
    for _ in d.many(lo, 5, (2, 3)):
        k = d.draw(9)
        if k <= 2:
            out.append(d.choice(PLAIN))
        elif k <= 8:
            out.append('${' + gen_content(d, paths, attrs, depth) + '}')
        elif broken:
            out.append(d.choice(['${', '}', '${x', '}}', '${{x}', '${x}}']))
        if out and d.boolean(1, 10):
            out.append(out[d.draw(len(out) - 1)])
    return ''.join(out)


# Tokens of plugins, registered as plugins do.
def upper(stage, node, value, layer, **kwargs):
    return stage.resolve(node, value, layer, **kwargs).upper()


def literal(stage, node, value, layer, **kwargs):
    return '<' + value + '>'


def nothing(stage, node, value, layer, **kwargs):
    return None


PLUGINS = {'upper::': lambda r, p, t, n: r.resolve(p, t, n).upper(),
           'literal::': lambda r, p, t, n: '<' + t + '>',
           'nothing::': lambda r, p, t, n: '',
           'ex::': lambda r, p, t, n: r.resolve(p, t, n)[::-1]}
tokens.register_token('upper::', lambda v: v.startswith('upper::'), upper)
tokens.register_token('literal::', lambda v: v.startswith('literal::'),
                      literal)
tokens.register_token('nothing::', lambda v: v.startswith('nothing::'),
                      nothing)


def gen_content(d, paths, attrs, depth):
    if d.boolean(1, 7):
        return d.choice(sorted(PLUGINS)) + d.choice([
            lambda: gen_text(d, paths, attrs, depth - 1, False),
            lambda: d.choice(attrs), lambda: 'aBc', lambda: ''])()
    k = d.draw(9)
    if k <= 3:
        return d.choice(attrs)
    if k == 4:
        return d.choice(paths) + '.' + d.choice(attrs)
    if k == 5:
        return d.choice(['../b', 'a', './a', '..', '.', '../../b', 'a/b',
                         '../a/../b']) + '.' + d.choice(attrs)
    if k == 6:
        return d.choice(['missing', 'x y', '/zz.x', '/a.nothing', '_nxtpath', '_nxtcolor',
                         'x ', ' x'])
    if depth <= 0:
        return d.choice(attrs)
    inner = '${' + gen_content(d, paths, attrs, depth - 1) + '}'
    if k == 7:
        return inner
    if k == 8:
        return d.choice(paths) + '.' + inner
    return inner + d.choice(['x', '.x', '1']) if d.boolean() else \
        d.choice(['x', 'a.', '../']) + inner


# -- what they mean --------------------------------------------------------
def scan(text):
    """[(is token, piece)]; one plain piece when a token is never closed."""
    out, plain, i = [], '', 0
    while i < len(text):
        if text.startswith('${', i):
            deep, j = 1, i + 2
            while j < len(text) and deep:
                if text.startswith('${', j):
                    deep += 1
                    j += 2
                elif text[j] == '}':
                    deep -= 1
                    j += 1
                else:
                    j += 1
            if deep:
                return [(False, text)]
            if plain:
                out.append((False, plain))
            plain = ''
            out.append((True, text[i:j]))
            i = j
        else:
            plain += text[i]
            i += 1
    if plain:
        out.append((False, plain))
    return out


class Resolver(object):
    def __init__(self, m, colors=None):
        self.m = m
        self.colors = colors
        self.hits = self.plugins = 0

    def resolve(self, p, text, depth=0):
        if depth > 40:
            raise Discard('values refer to each other in a cycle')
        out = ''
        for is_token, piece in scan(text):
            out += self.token(p, piece[2:-1], depth) if is_token else piece
        if len(out) > 3000:
            raise Discard('too long')
        return out

    def token(self, p, content, depth):
        if content == '':
            raise Discard('empty token')
        if content == '_nxtpath':
            return p
        if content == '_nxtcolor':
            at = self.m.real[p][0][0] if p in self.m.real else None
            if self.colors is None or at is None:
                raise Discard('no color')
            self.hits += 1
            return self.colors[at] or ''
        for prefix in PLUGINS:
            if content.startswith(prefix):
                self.plugins += 1
                return PLUGINS[prefix](self, p, content[len(prefix):],
                                       depth + 1)
        ref = self.resolve(p, content, depth + 1)
        where, attr = p, ref
        if '.' in ref and not ref.endswith('.'):
            head, _, tail = ref.rpartition('.')
            if head and tail:
                where, attr = self.walk(head, p), tail
        return self.value(where, attr, depth + 1)

    def walk(self, rel, p):
        if rel.startswith('/'):
            return rel
        cur = parts(p)
        for step in rel.split('/'):
            if step == '..':
                cur = cur[:-1]
            elif step not in ('', '.'):
                cur = cur + [step]
        if not cur:
            raise Discard('leaves the tree')
        return '/' + '/'.join(cur)

    def value(self, p, attr, depth=0):
        if p not in self.m.paths:
            return ''
        found = self.m.attr(p, attr)
        if found is None:
            return ''
        self.hits += 1
        v = found[2]
        if v is None:
            return ''
        return self.resolve(p, str(v), depth) if v else str(v)


def graph(d, broken):
    """Layers whose values hold tokens."""
    ls = compgen.layers(d, lo=1, hi=2, size=6, inst=(1, 4), internals=9,
                        settings=False)
    ps = sorted({p for ly in ls for p in ly['nodes']})
    if not ps:
        raise Discard('empty')
    attrs = compgen.ATTRS
    if d.boolean(1, 3):
        # names which look like other things a token can hold
        attrs = d.sample(LIKE, 1) + ['x', 'y', 'xx']
        for ly in ls:
            for p in sorted(ly['nodes']):
                own = ly['nodes'][p].get('attrs', {})
                if 'z' in own:
                    own[attrs[0]] = own.pop('z')
    for ly in ls:
        for p in sorted(ly['nodes']):
            for a in sorted(ly['nodes'][p].get('attrs', {})):
                data = ly['nodes'][p]['attrs'][a]
                k = d.draw(3)
                if k == 0:
                    data['value'] = d.choice(['x', 'y', '/a', '../b', '',
                                              'val', 'a.x', 'z'])
                elif k == 1:
                    data['value'] = gen_text(d, ps, attrs, 1, broken)
    return ls, ps, attrs


def color(d, s):
    colors = [d.choice([None, '#ff0000', '#00ff00']) for _ in s._sub_layers]
    for ly, c in zip(s._sub_layers, colors):
        ly.color = c
    return colors


def check_resolve(d):
    broken = d.boolean(1, 3)
    ls, ps, attrs = graph(d, broken)
    d.note(ls)
    m = compgen.model(ls)
    s = make_stage(ls)
    colors = color(d, s)
    comp = s.build_stage()
    if not m.paths:
        raise Discard('empty')
    p = d.choice(sorted(m.paths))
    text = gen_text(d, ps, attrs, 3, True, 1)
    d.note([p, text])
    r = Resolver(m, colors)
    want = r.resolve(p, text)
    got = s.resolve(comp.lookup(p), text, comp)
    need(got == want, 'resolved text', p, repr(text), 'got', repr(got),
         'want', repr(want))
    toks = [x for ok, x in scan(text) if ok]
    d.interesting(r.hits > 0 or any('${' in t[2:] for t in toks) or
                  (not toks and '${' in text))
    if not toks:
        eq(got, text, 'text without tokens changed')
        d.label('no balanced token')
    if any(x[2:-1] == '' for x in toks):
        d.label('empty token')
    # values the same way
    for q in sorted(m.paths):
        for a in sorted(m.visible(q)):
            try:
                want = Resolver(m, colors).value(q, a)
            except Discard:
                continue
            got = s.get_node_attr_value(comp.lookup(q), a, comp)
            need(got == want, 'resolved value', q, a, 'got', repr(got),
                 'want', repr(want))
    # compositional: pieces resolve on their own
    whole = ''.join(s.resolve(comp.lookup(p), piece, comp)
                    for _, piece in scan(text))
    eq(whole, s.resolve(comp.lookup(p), text, comp),
       'text is not its pieces resolved', p, repr(text))


def check_code(d):
    """The code of a node with its tokens replaced."""
    ls, ps, attrs = graph(d, False)
    lines = [gen_text(d, ps, attrs, 2, False) for _ in d.many(1, 4)]
    if not ps:
        raise Discard('empty')
    p = d.choice(ps)
    for ly in ls:
        if p in ly['nodes']:
            ly['nodes'][p]['code'] = lines
            break
    d.note([ls, p])
    m = compgen.model(ls)
    s = make_stage(ls)
    colors = color(d, s)
    comp = s.build_stage()
    node = comp.lookup(p)
    r = Resolver(m, colors)
    lines = m.internal(p, compmodel.CODE)[0]
    raw = '\n'.join(lines)
    eq(s.get_node_code_string(node, comp), raw, 'raw code')
    want = '\n'.join(r.resolve(p, x) for x in lines)
    got = s.get_node_code_string(node, comp, 'resolved')
    eq(got, want, 'resolved code', p, repr(raw))
    d.interesting(r.hits > 0)


TEXT = ['${', '}', 'a', '{', '$', 'x', '/', '.', ' ']

ATOM = re.compile(r'\$\{(?:(?!\$\{)[^}])*\}')


def check_scan(d):
    """The tokens of any text over token syntax."""
    text = d.text(TEXT, 0, 14)
    d.note(text)
    pieces = scan(text)
    want = [x for ok, x in pieces if ok]
    got = tokens.get_standalone_tokens(text)
    eq(got, want, 'tokens of', repr(text))
    eq(''.join(x for _, x in pieces), text, 'pieces')
    d.interesting('${' in text and '}' in text)
    for t in got:
        inner = tokens.get_token_content(t)
        eq(inner, t[2:-1], 'token content', t)
        eq(tokens.make_token_str(inner), t, 'token from content', t)
    # innermost tokens: those without another inside
    if want or '${' not in text:
        atoms = tokens.get_atomic_tokens(text)
        for a in atoms:
            need(a in text and '${' not in a[2:] and '}' not in a[2:-1],
                 'not an innermost token', repr(text), a)
        eq(sorted(atoms), sorted(set(ATOM.findall(text))),
           'innermost tokens', repr(text))
    make = tokens.make_token_str(text)
    eq(tokens.get_token_content(make), text, 'content of a made token')


PARTS = [Part('resolve', check_resolve, 3000, 80000,
              'texts and values with tokens on composites'),
         Part('code', check_code, 800, 20000, 'node code'),
         Part('scan', check_scan, 12000, 300000,
              'texts over token syntax against a recursive scanner')]
ASSUMPTIONS = ['values that refer to each other in a cycle, and the empty '
               'token, name nothing and are not generated']
