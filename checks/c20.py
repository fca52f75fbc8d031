"""C20: file tokens find the right existing file.
Files spread over layer folders, roots and the working directory; every token
form, against a reference resolver over the plan."""
import ast
import os

from pbt.main import Part
from pbt.nxtlib import need, eq, Stage, Discard, to_path, parts
from pbt import compgen, compmodel, ondisk, runlog
from pbt import filegen as fg
from checks.c10 import scan
from nxt.constants import GRAPH_VERSION
from nxt.stage import DATA_STATE

PROPERTY = 'C20'
RULE = ('a case is non-trivial when the file was not found in the first place '
        'that was looked at, or not at all although a file of that name '
        'exists somewhere')

FOLDERS = ['', 'one', 'two', 'two/in', 'other dir', 'root1', 'root2',
           'caf\u00e9']
NAMES = ['f.txt', 'g.txt', 'f1.txt', 'g2.txt', 'in/f.txt', 'f g.txt']
NODES = ['/a', '/a/b', '/o', '/o/p', '/']
ATTRS = ['v', 'w', 'n']


def value(d, a):
    """Values only refer to attributes further down the list: no cycles."""
    later = ATTRS[ATTRS.index(a) + 1:]
    k = d.draw(9)
    if k == 4:
        return d.choice([1, 2])
    if k == 5:
        return d.choice(['', 0, None, 'gone', 'f g'])
    if k <= 5 or not later:
        return d.choice(['f', 'g', 'in/f', 'f1'])
    b = d.choice(later)
    if k == 6:
        return '${' + b + '}'
    if k == 7:
        return '${/o.' + b + '}'
    if k == 8:
        return '${file::' + d.choice(['f.txt', '${' + b + '}.txt', '']) + '}'
    return d.choice(['${../o.' + b + '}', '${path::}',
                     '${file::f.txt}/../g'])


class World(object):
    def __init__(self, d, inst=False):
        self.base = os.path.realpath(ondisk.empty())
        for f in FOLDERS:
            if not os.path.isdir(os.path.join(self.base, f)):
                os.makedirs(os.path.join(self.base, f))
        os.symlink(os.path.join(self.base, 'two'),
                   os.path.join(self.base, 'link'))
        self.roots = []
        if d.boolean(1, 3):
            self.roots = [os.path.join(self.base, r) for r in d.sample(
                ['root1', 'root2', 'none', 'one', 'one/f.txt'])]
        n = d.integer(1, 4)
        self.dirs = [os.path.join(self.base, d.choice(FOLDERS))
                     for _ in range(n)]
        # files to be found
        self.placed = []
        homes = sorted(set(self.dirs + self.roots + [self.base]))
        for nm in NAMES:
            for home in d.sample([h for h in homes
                                  if h == self.base or os.path.isdir(h)]):
                p = os.path.join(home, nm)
                if not os.path.isdir(os.path.dirname(p)):
                    os.makedirs(os.path.dirname(p))
                text = os.path.relpath(p, self.base)
                if d.boolean(1, 3):
                    text += d.choice([' ${v}', '\n${w}', '\n', ' ${gone}',
                                      '\n\n', '\n\n\tlast ', '  \n\n${v}\n'])
                    if d.boolean(1, 3):
                        text = d.choice(['\n', ' ', '\n\n', '# ']) + text
                with open(p, 'w') as fp:
                    fp.write(text)
                self.placed.append(os.path.relpath(p, self.base))
        self.ls = []
        for i in range(n):
            nodes = {}
            for p in NODES:
                if i == 0 and p == '/a' or d.boolean(3, 5):
                    attrs = {}
                    for a in ATTRS:
                        if d.boolean(2, 5):
                            attrs[a] = {'value': value(d, a)}
                    nodes[p] = {'attrs': attrs}
            ly = {'nodes': nodes}
            if i:
                ly['parent'] = 0
            if d.boolean(1, 5):
                ly['mute'] = True
            if d.boolean(1, 8):
                ly['solo'] = True
            if d.boolean(1, 6):
                ly['cwd'] = os.path.join(self.base, d.choice(FOLDERS))
            self.ls.append(ly)
        self.cwds = [ly.get('cwd') or x
                     for ly, x in zip(self.ls, self.dirs)]

    def form(self, d, text):
        """Ways to write down a path."""
        k = d.draw(11)
        if k <= 5:
            return text
        if k == 6:
            return './' + text
        if k == 7:
            return '../' + d.choice(FOLDERS[1:]) + '/' + text
        if k == 8:
            return os.path.join(self.base, d.choice(FOLDERS), text)
        if k == 9:
            return d.choice(['$NXTV_BASE/', '~/', '%NXTV_BASE%/']) + text
        if k == 10:
            return os.path.join(self.base, 'link', text)
        return d.choice(['in/../', './/', 'gone/../']) + text

    def token(self, d):
        k = d.draw(9)
        if k <= 2:
            inner = d.choice(NAMES)
        elif k <= 5:
            inner = '${' + d.choice(['v', 'w', 'n', '/o.v', '/o.w', '../o.v',
                                     '/gone.v', 'gone', '/o/p.v']) + '}.txt'
        elif k == 6:
            inner = '${v}${n}.txt'
        elif k == 7:
            inner = d.choice(['', 'in', '.', '..'])
        elif k == 8:
            inner = d.choice(['${v}', '${${w}}.txt', '${file::f.txt}',
                              '${path::f.txt}', '${/o.${gone}}',
                              '${w}/../f.txt', '${v}.txt ', '${v'])
        else:
            inner = d.choice(['gone.txt', '$NXTV_UNSET/f.txt', '~nobody_x/f'])
        return self.form(d, inner)

    def write(self):
        files = [os.path.join(x, 'layer{}.nxt'.format(i))
                 for i, x in enumerate(self.dirs)]
        for i, ly in enumerate(self.ls):
            data = {k: v for k, v in ly.items() if k != 'parent'}
            data['version'] = GRAPH_VERSION.VERSION_STR
            if i == 0:
                data['references'] = files[1:]
            if ly.get('cwd'):
                data['cwd'] = ly['cwd']
            fg.write(files[i], data)
        return files[0]


class Oracle(object):
    def __init__(self, w, first, cwd):
        self.w = w
        self.first = first
        self.cwd = cwd
        self.models = {}
        for k in range(first, len(w.ls)):
            ids = compgen.active_ids(w.ls, k)
            self.models[k] = (ids, compgen.model(w.ls, k)) if ids else None
        self.missed = False
        self.deep = 0

    def paths(self):
        return self.models[self.first][1].paths

    # -- the file system -----------------------------------------------------
    def full(self, text, start):
        b = self.w.base
        text = text.replace('$NXTV_BASE', b).replace('%NXTV_BASE%', b)
        if text == '~' or text.startswith('~/'):
            text = b + text[1:]
        return os.path.realpath(os.path.join(start, text))

    def live_roots(self):
        return [r for r in self.w.roots if os.path.isdir(r)]

    def find(self, text, folder):
        for r in self.live_roots() + [folder]:
            p = self.full(text, r)
            if os.path.exists(p):
                return p
            self.missed = True
        return ''

    # -- tokens --------------------------------------------------------------
    def guard(self):
        self.deep += 1
        if self.deep > 300:
            raise Discard('values refer to each other in a cycle')

    def text(self, p, text):
        """As displayed."""
        self.guard()
        out = ''
        for is_token, piece in scan(text):
            if not is_token:
                out += piece
                continue
            c = piece[2:-1]
            if c.startswith('file::'):
                got = self.search(p, c[6:])
                out += got[0] if got else ''
            elif c.startswith('filelist::'):
                out += str(self.search(p, c[10:]))
            elif c.startswith('path::'):
                out += self.path(p, c[6:])
            elif c.startswith('contents::'):
                f = self.full(self.text(p, c[10:]), self.cwd) \
                    if self.text(p, c[10:]) else ''
                if f and os.path.isfile(f):
                    with open(f) as fp:
                        out += self.text(p, fp.read())
            else:
                v = self.value(self.first, p, self.text(p, c))
                if v is not None:
                    src, v = v
                    out += self.text(src, str(v))
            if len(out) > 4000:
                raise Discard('too long')
        return out

    def path(self, p, content):
        roots = self.live_roots()
        home = roots[0] if roots else \
            self.w.cwds[compgen.active_ids(self.w.ls, self.first)[0]]
        return self.full(self.text(p, content), home)

    def value(self, k, p, ref):
        """-> (node, value) or None, as displayed from layer k."""
        if '.' in ref and not ref.endswith('.'):
            node, _, attr = ref.rpartition('.')
            node = compmodel.walk(node, p) if node else p
        else:
            node, attr = p, ref
        if node not in self.paths():
            return None
        m = self.models[k][1]
        at = node
        while at not in m.paths:
            if at == '/':
                return None
            at = compmodel.parent(at)
        got = m.attr(at, attr)
        if got is None or got[2] is None:
            return None
        return node, got[2]

    def at(self, k, p, text):
        self.guard()
        out = ''
        for is_token, piece in scan(text):
            if not is_token:
                out += piece
                continue
            c = piece[2:-1]
            if c.startswith('file::'):
                out += self.hit(k, p, c[6:])
            elif '::' in c:
                out += self.text(p, piece)
            else:
                v = self.value(k, p, self.at(k, p, c))
                if v is not None:
                    src, v = v
                    out += self.at(k, src, str(v))
            if len(out) > 4000:
                raise Discard('too long')
        return out

    def hit(self, k, p, content):
        text = self.at(k, p, content)
        if content and not text:
            self.missed = True
            return ''
        return self.find(text, self.w.cwds[self.models[k][0][0]])

    def search(self, p, content):
        out = []
        for k in range(self.first, len(self.w.ls)):
            if self.models[k] is None:
                continue
            got = self.hit(k, p, content)
            if got and got not in out:
                out.append(got)
        return out


def text_for(d, w, kinds):
    out = ''
    for _ in d.many(1, 2, (1, 3)):
        kind = d.choice(kinds)
        inner = w.token(d)
        tok = '${' + kind + '::' + inner + '}'
        if kind == 'contents':
            tok = '${contents::' + d.choice(
                ['${file::' + inner + '}', '${path::' + inner + '}']) + '}'
        out += d.choice(['', '', 'x=', '${v} ']) + tok
    return out


def literal(text):
    try:
        v = ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return text
    return text if isinstance(v, str) else v


def resolving(d, kinds):
    w = World(d)
    text = text_for(d, w, kinds)
    at = d.choice(['/a', '/a/b', '/a', '/o'])
    d.note([[os.path.relpath(x, w.base) for x in w.dirs],
            [os.path.relpath(x, w.base) for x in w.roots]])
    d.note(w.placed)
    d.note(w.ls)
    d.note([at, text])
    if at not in compgen.model(w.ls).paths:
        raise Discard('no such node')
    first = d.draw(len(w.ls) - 1) if d.boolean(1, 4) else 0
    for i in range(len(w.ls)):
        if at in w.ls[i]['nodes']:
            w.ls[i]['nodes'][at]['attrs']['tok'] = {'value': text}
            w.ls[i]['nodes'][at]['code'] = [
                "x = '''" + text + "'''",
                "__import__('pbt.runlog', fromlist=['x'])"
                ".LOG.append([x, self.tok])"]
    cwd = os.path.join(w.base, d.choice(FOLDERS))
    d.note([first, os.path.relpath(cwd, w.base)])
    top = w.write()
    old, env = os.getcwd(), dict(os.environ)
    try:
        os.environ['NXTV_BASE'] = w.base
        os.environ['HOME'] = w.base
        os.environ.pop('NXT_FILE_ROOTS', None)
        os.chdir(cwd)
        s = Stage.load_from_filepath(top)
        eq(len(s._sub_layers), len(w.ls), 'layers loaded')
        if w.roots:
            os.environ['NXT_FILE_ROOTS'] = os.pathsep.join(w.roots)
        if not compgen.active_ids(w.ls, first):
            raise Discard('nothing active')
        o = Oracle(w, first, cwd)
        if at not in o.paths():
            raise Discard('no such node')
        want = o.text(at, text)
        before = [os.getcwd(), dict(os.environ), ondisk.picture(w.base)]
        comp = s.build_stage(first)
        n = comp.lookup(at)
        got = s.resolve(n, text, comp)
        eq(got, want, 'resolved', at, text)
        got = s.get_node_attr_value(n, 'tok', comp, resolved=True)
        eq(got, want, 'value of an attribute', at, text)
        if '\n' not in want and '"' not in want and d.boolean():
            got = s.get_node_code_string(n, comp, DATA_STATE.RESOLVED)
            eq(got.split('\n')[0], "x = '''" + want + "'''", 'code', at, text)
            tok = s.get_attr_as_real_data_type(n, 'tok', comp)
            eq(tok, literal(want), 'evaluated', at, text)
            runlog.take()
            s.execute_nodes([at], comp)
            eq(runlog.take(), [[want, tok]], 'seen by code', at, text)
            d.label('run')
        after = [os.getcwd(), dict(os.environ), ondisk.picture(w.base)]
        eq(after[0], before[0], 'working directory')
        eq(after[1], before[1], 'environment')
        need(after[2] == before[2], 'files changed')
    finally:
        os.chdir(old)
        os.environ.clear()
        os.environ.update(env)
    found = w.base in want
    d.label('found' if found else 'nothing found')
    d.interesting(o.missed and (found or bool(w.placed)))


def check_file(d):
    resolving(d, ['file'])


def check_forms(d):
    resolving(d, ['filelist', 'path', 'contents', 'file'])


PARTS = [Part('file', check_file, 3000, 60000,
              'file tokens over up to 4 layers in 8 folders, 2 roots, 6 names'),
         Part('forms', check_forms, 3000, 60000,
              'file list, path and contents tokens, also several in a text')]
ASSUMPTIONS = ['the graph is saved; nodes are not instanced (file fall backs '
               'through diverging instances are documented as unsupported)',
               'a contents token is given the path of a file by another token']
