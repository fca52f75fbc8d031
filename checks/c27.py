"""C27: layers referenced and removed while a graph is open.
Histories on an open graph against a tree of layers, and after each operation
against the graph saved and loaded again."""
import os

from pbt.main import Part
from pbt.nxtlib import need, eq, Discard, Stage, Session
from pbt import compgen, filegen as fg, ondisk, snap
from nxt import nxt_io
from nxt.constants import GRAPH_VERSION

PROPERTY = 'C27'
RULE = ('a case is non-trivial when a layer with references of its own was '
        'referenced or removed, or layers were on both sides of the change')
BAD = ['gone.nxt', '/nowhere/at/all.nxt', 'no/such.nxt', 'newer.nxt',
       'text.txt']


class World(object):
    """Files with content.  refs: what the file lists now,
    [(text, index or None)].  shared: a file can be listed by several."""

    def __init__(self, d, base, shared=False):
        self.base = base
        for f in ondisk.FOLDERS:
            if f and not os.path.isdir(os.path.join(base, f)):
                os.makedirs(os.path.join(base, f))
        fg.write(os.path.join(base, 'newer.nxt'), {'version': '99.0'})
        fg.write(os.path.join(base, 'text.txt'), {})
        ls = compgen.layers(d, 3, 7, 5, settings=False)
        n = len(ls)
        self.files, self.refs = [], []
        for i in range(n):
            folder = d.choice(ondisk.FOLDERS)
            name = 'l{}.nxt'.format(i)
            if d.boolean(1, 3):
                # the same name in several folders
                free = [f for f in ondisk.FOLDERS
                        if os.path.join(base, f, 'x.nxt') not in self.files]
                if free:
                    folder, name = d.choice(free), 'x.nxt'
            self.files.append(os.path.join(base, folder, name))
        up = [None] * n
        for i in range(1, n):
            if d.boolean(2, 3):
                up[i] = d.integer(0, i - 1)
        # not loaded yet, may list a file that lists them
        self.fresh = set(i for i in range(n) if up[i] is not None)
        for i in range(n):
            here = []
            for k in range(n):
                if up[k] == i or (shared and k > i and d.boolean(1, 4)):
                    here.append((self.form(d, k, i), k))
            if d.boolean(1, 5):
                here.insert(d.draw(len(here)), (d.choice(BAD), None))
            if not shared and d.boolean(1, 6):
                chain = [i]
                while up[chain[-1]] is not None:
                    chain.append(up[chain[-1]])
                here.insert(d.draw(len(here)),
                            (self.form(d, d.choice(chain), i), None))
            if i and up[i] is None and not shared and d.boolean(1, 3):
                # already written to sit on top of the graph
                here.insert(d.draw(len(here)), (self.form(d, 0, i), 0))
            self.refs.append(here)
            data = {'version': GRAPH_VERSION.VERSION_STR,
                    'nodes': ls[i]['nodes'],
                    'references': [t for t, _ in here]}
            if 'meta_data' in ls[i]:
                data['meta_data'] = ls[i]['meta_data']
            if d.boolean(1, 3):
                data['alias'] = 'Layer {}'.format(i)
            if d.boolean(1, 5):
                data['mute'] = True
            if d.boolean(1, 8):
                data['solo'] = True
            kids = [text for text, k in here if k is not None]
            if kids and d.boolean(1, 4):
                data['comp_overrides'] = {d.choice(kids): {
                    d.choice(['mute', 'solo']): d.boolean()}}
            fg.write(self.files[i], data)

    def form(self, d, k, i):
        """How file i writes the path of file k."""
        f = self.files[k]
        if d.boolean(1, 4):
            return f
        rel = os.path.relpath(f, os.path.dirname(self.files[i]))
        return './' + rel if d.boolean(1, 4) else rel

    def subtree(self, k, up):
        """Rows [index, parent] of the file with all it references."""
        out = [[k, up]]
        for _, j in self.refs[k]:
            if j is not None:
                out += self.subtree(j, k)
        return out

    def loaded(self, k):
        """Loading drops the references which lead nowhere."""
        for i, _ in self.subtree(k, None):
            self.fresh.discard(i)
            self.refs[i] = [r for r in self.refs[i] if r[1] is not None]

    def rows(self):
        return self.subtree(self.top, None)

    def new(self, d):
        """A file that is not there yet."""
        k = len(self.files)
        self.files.append(os.path.join(
            self.base, d.choice(ondisk.FOLDERS), 'new{}.nxt'.format(k)))
        self.refs.append([])
        return k


def show(w, s):
    """The layers as the graph has them."""
    ls = list(s._sub_layers)
    out = []
    for i, ly in enumerate(ls):
        eq(ly._layer_idx, i, 'index of layer', i)
        up = ly.parent_layer
        need(up is None or any(up is x for x in ls),
             'the parent of a layer is gone', ly.real_path)
        out.append([w.files.index(os.path.realpath(ly.real_path)),
                    None if up is None else
                    w.files.index(os.path.realpath(up.real_path))])
    return out


def compare(w, s, what, build=True):
    want = w.rows()
    eq(show(w, s), want, 'layers', what)
    for ly, (k, _) in zip(s._sub_layers, want):
        eq([w.files.index(os.path.realpath(os.path.join(
            os.path.dirname(ly.real_path), r))) for r in ly.get_references()],
           [j for _, j in w.refs[k]], 'references of', w.files[k], what)
    for ly in s._sub_layers:
        ly.save()
    again = Stage.load_from_filepath(w.files[w.top])
    eq(show(w, again), want, 'layers after loading', what)
    if not build:
        return
    a, b = s.build_stage(), again.build_stage()
    if a.failure and b.failure:
        raise Discard()     # instances and parents contradict each other
    need(not a.failure and not b.failure, 'composite failed', what)
    pa, pb = snap.comp(s, a), snap.comp(again, b)
    need(pa == pb, 'the open graph and the one loaded again differ', what,
         snap.diff(pa, pb) if pa != pb else '')
    eq([a.positions, a.collapse], [b.positions, b.collapse], 'layout', what)
    for x, y in zip(s._sub_layers, again._sub_layers):
        dx, dy = fg.describe(x), fg.describe(y)
        for k in sorted(dx):
            eq(dx[k], dy[k], 'layer', x.real_path, k, what)
        eq([x.get_muted(), x.get_soloed(), x.get_alias(), x.get_color()],
           [y.get_muted(), y.get_soloed(), y.get_alias(), y.get_color()],
           'settings shown', x.real_path, what)


def layer_data(w, k, text, parent):
    """What is handed over to reference the file k."""
    if os.path.isfile(w.files[k]):
        data = nxt_io.load_file_data(w.files[k])
    else:
        data = {'alias': os.path.basename(w.files[k])}
    data['parent_layer'] = parent
    data['filepath'] = text
    data['real_path'] = w.files[k]
    return data


def step(d, w, s):
    rows = w.rows()
    used = [k for k, _ in rows]
    op = d.weighted([(5, 'reference'), (2, 'new'), (1, 'top'), (1, 'new top'),
                     (4, 'remove'), (2, 'edit')])
    if op == 'reference' or op == 'top':
        free = []
        for k in range(len(w.files)):
            tree = [j for j, _ in w.subtree(k, None)]
            if op == 'top' and w.top in [j for _, j in w.refs[k]]:
                for j in used:
                    tree.remove(j)
            if k not in w.fresh and not set(tree) & set(used) and \
                    os.path.isfile(w.files[k]):
                free.append(k)
        if not free:
            return None
        k = d.choice(free)
    elif op == 'new' or op == 'new top':
        k = w.new(d)
    if op in ('reference', 'new'):
        at = d.integer(1, len(rows))
        up = rows[at - 1][0]
        text = w.form(d, k, up)
        s.new_sublayer(layer_data(w, k, text, s._sub_layers[at - 1]), idx=at)
        deep = len(w.subtree(k, None)) > 1
        w.loaded(k)
        w.refs[up].insert(0, (text, k))
        return [op, at, k, deep, deep or at < len(rows)]
    if op in ('top', 'new top'):
        s.new_sublayer(layer_data(w, k, w.files[k], None), idx=0)
        deep = len(w.subtree(k, None)) > 1
        w.loaded(k)
        if w.top in [j for _, j in w.refs[k]]:
            d.label('top which lists the graph')
        else:
            w.refs[k].append((w.files[w.top], w.top))
        w.top = k
        return [op, 0, k, deep, True]
    if op == 'remove':
        if len(rows) < 2:
            return None
        at = d.integer(1, len(rows) - 1)
        k, up = rows[at]
        tree = [j for j, _ in w.subtree(k, None)]
        s.remove_sublayer(s._sub_layers[at] if d.boolean() else at)
        w.refs[up] = [r for r in w.refs[up] if r[1] != k]
        return [op, at, k, len(tree) > 1,
                len(tree) > 1 or at < len(rows) - 1]
    ly = d.choice(s._sub_layers)
    known = [p for p in ly._nodes_path_as_key if p != '/']
    if not known:
        return None
    p = d.choice(sorted(known))
    v = 'edited {}'.format(d.draw(9))
    s.node_setattr_data(ly.lookup(p), 'x', ly, create=True, value=v)
    return [op, rows[s._sub_layers.index(ly)][0], p, v, False]


def step_shared(d, w, s):
    """Files can be loaded several times; only the reference lists and content
    of files which are loaded once are changed."""
    rows = w.rows()
    used = [k for k, _ in rows]
    once = [n for n, (k, _) in enumerate(rows) if used.count(k) == 1]
    op = d.weighted([(2, 'reference'), (3, 'remove'), (1, 'edit')])
    many = len(set(used)) < len(used)
    if op == 'remove':
        at = [n for n, (_, up) in enumerate(rows)
              if up is not None and used.count(up) == 1]
        if not at:
            return None
        at = d.choice(at)
        k, up = rows[at]
        tree = [j for j, _ in w.subtree(k, None)]
        s.remove_sublayer(s._sub_layers[at] if d.boolean() else at)
        w.refs[up] = [r for r in w.refs[up] if r[1] != k]
        return [op, at, k, len(tree) > 1, many]
    n = d.choice(once)
    up = rows[n][0]
    if op == 'edit':
        ly = s._sub_layers[n]
        v = 'edited {}'.format(d.draw(9))
        known = sorted(p for p in ly._nodes_path_as_key if p != '/')
        if not known:
            return None
        p = d.choice(known)
        s.node_setattr_data(ly.lookup(p), 'x', ly, create=True, value=v)
        return [op, up, p, v, False]
    free = [k for k in range(len(w.files)) if up not in
            [j for j, _ in w.subtree(k, None)] and os.path.isfile(
                w.files[k]) and k not in [j for _, j in w.refs[up]] and
            k not in w.fresh]
    if not free or len(rows) > 14:
        return None
    k = d.choice(free)
    text = w.form(d, k, up)
    s.new_sublayer(layer_data(w, k, text, s._sub_layers[n]), idx=n + 1)
    w.loaded(k)
    w.refs[up].insert(0, (text, k))
    return [op, n + 1, k, len(w.subtree(k, None)) > 1, many or k in used]


def check_shared(d):
    check_layers(d, True)


def check_layers(d, shared=False):
    w = World(d, os.path.realpath(ondisk.empty()), shared)
    w.top = 0
    d.note([os.path.relpath(f, w.base) for f in w.files])
    d.note([[t for t, _ in r] for r in w.refs])
    old = os.getcwd()
    os.chdir(os.path.join(w.base, d.choice(ondisk.FOLDERS)))
    try:
        if d.boolean(1, 4):
            s = Session().load_file(w.files[0])
        elif d.boolean():
            s = Stage.load_from_filepath(os.path.relpath(w.files[0]))
        else:
            s = Stage.load_from_filepath(w.files[0])
        w.loaded(0)
        compare(w, s, 'loaded', d.boolean(1, 3))
        for _ in d.many(1, 6, (3, 4)):
            cwd = os.getcwd()
            did = step_shared(d, w, s) if shared else step(d, w, s)
            if did is None:
                continue
            d.note(did)
            d.label('{}{}'.format(did[0], ' with references'
                                  if did[0] != 'edit' and did[3] else ''))
            eq(os.getcwd(), cwd, 'working directory')
            compare(w, s, did, d.boolean(2, 3))
            d.interesting(did[-1])
        compare(w, s, 'at last')
    finally:
        os.chdir(old)


PARTS = [Part('layers', check_layers, 2500, 60000,
              'histories of up to 6 layer references, new layers, removals '
              'and edits on an open graph of up to 7 files'),
         Part('shared', check_shared, 1500, 40000,
              'histories on graphs with files that are referenced by several '
              'layers')]
ASSUMPTIONS = ['a file that is loaded several times is not edited itself',
               'a layer is put under the layer above it, or on top of all']
