"""C33: file paths mean the same file however they are written."""
import os
import re
import shutil
import tempfile

from nxt import nxt_path
from pbt.main import Part
from pbt.nxtlib import need, eq, Discard

PROPERTY = 'C33'
RULE = ('a case is non-trivial when the path holds a variable next to other '
        'text, or one in a style of another platform')

ENV = {'NV_A': 'one', 'NV_AB': 'two', 'NV_A1': 'num', 'nv_a': 'a b',
       '_NV': 'deep/er', 'NV_A_': 'under', 'NV_ABS': None, 'NV_EMPTY': '',
       'NV_D': '$NV_A', 'NV_W': '%NV_A%', 'NV_HOME': '~/h', 'NV_UP': '..'}
UNSET = ['NV_UN', 'NVX_', 'NVY1', 'NVZ']
TEXTS = ['a', 'B_', 'x1', '1', '.', '-', ' ', '_', '\xe9', '100%', '%%', '%',
         '{', '}', '$', '$$', '@', '/', '/', '/', '..', './', 'link/', 'one',
         '~', 'x.nxt', '(x86)', '$1', '%1%', '% %', '%a b%', '\\']
STYLES = {'win32': '%{}%', 'linux': '${}', 'braces': '${{{}}}'}
NAME = '[A-Za-z_][A-Za-z0-9_]*'
FORMS = [('win32', re.compile('(?=(%({})%))'.format(NAME))),
         ('linux', re.compile(r'(?=(\$({})(?![A-Za-z0-9_])))'.format(NAME))),
         ('braces', re.compile(r'(?=(\${{({})}}))'.format(NAME)))]


def names_in(text, styles):
    """Every place of the text where a variable of the styles can be read."""
    out = []
    for style, form in FORMS:
        if style in styles:
            out += [(m.start(), m.group(1), m.group(2))
                    for m in form.finditer(text)]
    return sorted(out)


def written(pieces):
    """Text, [where variables are]"""
    text, spots = '', []
    for kind, what in pieces:
        if kind == 'text':
            text += what
        else:
            var = STYLES[kind].format(what)
            spots.append((len(text), var, what))
            text += var
    return text, spots


def one_reading(pieces, styles=('win32', 'linux', 'braces')):
    text, spots = written(pieces)
    if names_in(text, styles) != [s for s, p in zip(
            spots, [p for p in pieces if p[0] != 'text']) if p[0] in styles]:
        raise Discard('can be read in several ways')
    return text


def gen(d, home=True):
    out = []
    if home and d.boolean(1, 6):
        out.append(('text', '~/'))
    for _ in d.many(1, 7, (4, 5)):
        if d.boolean():
            out.append((d.choice(['win32', 'win32', 'linux', 'braces']),
                        d.weighted([(6, d.choice(sorted(ENV))),
                                    (1, d.choice(UNSET))])))
        else:
            out.append(('text', d.choice(TEXTS)))
        if d.boolean(1, 3):
            out.append(('text', '/'))
    return out


def meaning(text, styles):
    """[text or (name,)], as those styles are read."""
    out, at = [], 0
    for pos, var, name in names_in(text, styles):
        need(pos >= at, 'variables overlap', text)
        out += [text[at:pos], (name,)]
        at = pos + len(var)
    return [p for p in out + [text[at:]] if p]


def merged(pieces, keep):
    """The same of generated pieces; keep: styles that are only text."""
    out = []
    for kind, what in pieces:
        p = what if kind == 'text' else \
            STYLES[kind].format(what) if kind in keep else (what,)
        if out and isinstance(p, str) and isinstance(out[-1], str):
            out[-1] += p
        elif p:
            out.append(p)
    return out


def check_convert(d):
    pieces = gen(d)
    target = d.choice(['win32', 'linux', 'darwin', 'linux2'])
    text = one_reading(pieces)
    d.note([text, target])
    own = ('win32',) if target == 'win32' else ('linux', 'braces')
    form = own[-1]
    one_reading([(form if k not in ('text',) + own else k, w)
                 for k, w in pieces], own)
    got = nxt_path.unify_env_vars(text, target)
    eq(meaning(got, own), merged(pieces, ()), 'variables of the converted path',
       text, target, got)
    if not [k for k, _ in pieces if k not in ('text',) + own]:
        eq(got, text, 'a native path changed', target)
    eq(nxt_path.unify_env_vars(got, target), got, 'converted twice', text)
    other = 'linux' if target == 'win32' else 'win32'
    back = nxt_path.unify_env_vars(got, other)
    if other == 'win32':
        one_reading([(k if k == 'text' else 'win32', w) for k, w in pieces],
                    ('win32',))
    eq(meaning(back, ('win32',) if other == 'win32' else ('linux', 'braces')),
       merged(pieces, ()), 'converted there and back', text, got, back)
    d.interesting(interest(pieces))


def interest(pieces):
    kinds = [k for k, _ in pieces]
    return 'win32' in kinds or 'braces' in kinds or \
        ('linux' in kinds and 'text' in kinds)


def check_expand(d):
    pieces = gen(d)
    text = one_reading(pieces)
    if text.count('${') != len([k for k, _ in pieces if k == 'braces']):
        raise Discard('braces of no variable')
    start_kind = d.draw(3)
    d.note([text, start_kind])
    base = os.path.realpath(tempfile.mkdtemp(prefix='c33'))
    cwd = os.getcwd()
    before = dict(os.environ)
    try:
        env = dict(ENV, NV_ABS=base + '/abs', HOME=base + '/home')
        for folder in ('abs', 'home/h', 'one/deep', 'start/one', 'target/in'):
            os.makedirs(os.path.join(base, folder))
        for folder in ('', 'start', 'home', 'abs'):
            os.symlink(base + '/target/in', os.path.join(base, folder, 'link'))
        os.environ.update(env)
        for name in UNSET:
            os.environ.pop(name, None)
        here = os.path.join(base, 'one')
        os.chdir(here)
        start = [None, base + '/start', '../start', base + '/missing'][
            start_kind]
        if start_kind == 3:
            try:
                nxt_path.full_file_expand(text, start)
            except OSError:
                d.label('failed')
            eq(os.getcwd(), here, 'the working directory', text)
            return
        full = ''.join(w if k == 'text' else env[w] if w in env else None or
                       '\0' + w + '\0' for k, w in pieces)
        if full == '~' or full.startswith('~/'):
            full = env['HOME'] + full[1:]
        elif full.startswith('~'):
            raise Discard('another user')
        want = os.path.realpath(os.path.join(
            base + '/start' if start else here, full.replace('\0', '#')))
        if '\0' in full:    # variables without a value are left
            d.label('unset')
        got = nxt_path.full_file_expand(text, start)
        eq(os.getcwd(), here, 'the working directory', text)
        if '\0' in full:
            for name in UNSET:
                for form in ('${{{}}}', '${}'):
                    got = got.replace(form.format(name), '#' + name + '#')
        eq(got, want, 'expanded path', text, start)
        need('//' not in got and os.path.isabs(got), 'not plain', got)
        d.interesting(interest(pieces))
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(before)
        shutil.rmtree(base)


PARTS = [Part('convert', check_convert, 6000, 200000,
              'paths converted to the style of a platform, and back'),
         Part('expand', check_expand, 2500, 60000,
              'paths expanded in a scratch folder, with links')]
ASSUMPTIONS = ['names of variables are ASCII letters, digits and underscores',
               'texts that can be read in several ways are not generated']
