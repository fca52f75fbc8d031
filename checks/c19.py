"""C19: references load in strength order, relative to their file.
A generated set of files on disk, with any path form and any fault, against a
reference loader written over the plan of the files."""
import os

from pbt.main import Part
from pbt.nxtlib import need, eq, Discard
from pbt.nxtlib import Stage, Session
from pbt import filegen as fg, ondisk
from nxt import nxt_io
from nxt.constants import GRAPH_VERSION

PROPERTY = 'C19'
RULE = ('a case is non-trivial when at least three layers were loaded, or two '
        'and a reference was skipped')
FOLDERS = ['', 'lib', 'lib/deep', 'other dir', 'roots/one', 'roots/two',
           'caf\u00e9']
MISSING_FORMS = ['gone.nxt', './no/such.nxt', '/nowhere/at/all.nxt',
                 '${NXTV_UNSET}/a.nxt', '~nobody_here/x.nxt', 'plain', 'lib',
                 '..']
MAX_LAYERS = 30


class World(object):
    """The plan: files, what is wrong with them, and who references whom."""

    def __init__(self, d, base):
        self.base = base
        self.env = {'NXTV_BASE': base, 'NXTV_LIB': os.path.join(base, 'lib'),
                    'HOME': base}
        for f in FOLDERS:
            p = os.path.join(base, f)
            if not os.path.isdir(p):
                os.makedirs(p)
        os.symlink(os.path.join(base, 'lib'), os.path.join(base, 'link'))
        self.roots = [os.path.join(base, r) for r in
                      d.sample(['roots/one', 'roots/two', 'roots/none'])] \
            if d.boolean(1, 2) else []
        if self.roots:
            self.env['NXT_FILE_ROOTS'] = os.pathsep.join(self.roots)
        # what plugins make of paths that begin with lib:
        self.shelves = [os.path.join(base, f) for f in d.sample(
            FOLDERS, 1)] if d.boolean(1, 3) else []
        n = d.size(1, 6)
        self.files, self.kind = [], []
        for i in range(n):
            same = d.boolean(1, 4) and self.files
            name = os.path.basename(d.choice(self.files)).split('.')[0] \
                + '.nxt' if same else 'l{}.nxt'.format(i)
            if same and d.boolean():
                # another file wherever file names are case sensitive
                name = name.upper().replace('.NXT', '.nxt')
            p = os.path.join(base, d.choice(FOLDERS), name)
            p = os.path.normpath(p)
            if p in self.files:
                raise Discard()
            self.files.append(p)
            self.kind.append('ok' if i == 0 else d.weighted(
                [(8, 'ok'), (1, 'missing'), (1, 'newer'), (1, 'too old'),
                 (1, 'version'), (1, 'extension')]))
            if self.kind[-1] == 'extension':
                self.files[-1] += d.choice(['.json', '.txt', 'x'])
        self.refs = [self.references(d, i, n) for i in range(n)]
        for i in range(n):
            if self.kind[i] == 'missing':
                continue
            v = {'ok': GRAPH_VERSION.VERSION_STR, 'newer': '99.0',
                 'too old': '0.12.1', 'version': '117',
                 'extension': GRAPH_VERSION.VERSION_STR}[self.kind[i]]
            data = {'version': v, 'references': self.refs[i],
                    'nodes': {'/f{}'.format(i): {}}}
            if d.boolean(1, 4):
                data['alias'] = 'Layer {}'.format(i)
            fg.write(self.files[i], data)

    def references(self, d, i, n):
        here = os.path.dirname(self.files[i])
        out = []
        for _ in d.many(0, 4, (2, 3)):
            if d.boolean(1, 8):
                out.append(d.choice(MISSING_FORMS))
                continue
            # mostly downwards: circles only now and then
            later = list(range(i + 1, n))
            k = d.choice(later) if later and d.boolean(7, 8) else \
                d.draw(n - 1)
            out.append(self.form(d, self.files[k], here))
        return out

    def expanders(self):
        def of(shelf):
            def expand(path):
                if not path.startswith('lib:'):
                    return ''
                return os.path.join(shelf, path[4:])
            return expand
        return [of(s) for s in self.shelves]

    def form(self, d, target, here):
        rel = os.path.relpath(target, here)
        if os.path.dirname(target) in self.shelves and d.boolean():
            d.label('plugin')
            return 'lib:' + os.path.basename(target)
        kind = d.draw(8)
        d.label(['relative', 'dotted', 'absolute', 'detour', 'home', '$VAR',
                 '${VAR}', '%VAR%', 'link or root'][kind])
        from_base = os.path.relpath(target, self.base)
        if kind == 0:
            return rel
        if kind == 1:
            return './' + rel
        if kind == 2:
            return target
        if kind == 3:
            return os.path.join(d.choice(['.', 'x/..', './/.']), rel)
        if kind == 4:
            return '~/' + from_base
        if kind == 5:
            return '$NXTV_BASE/' + from_base
        if kind == 6:
            return '${NXTV_BASE}/./' + from_base
        if kind == 7:
            return '%NXTV_BASE%/' + from_base
        lib = os.path.join(self.base, 'lib') + '/'
        if target.startswith(lib):
            return os.path.join(os.path.relpath(self.base, here), 'link',
                                target[len(lib):])
        for r in self.roots:
            if target.startswith(r + '/'):
                return target[len(r) + 1:]
        return rel

    # -- the reference loader -----------------------------------------------
    def where(self, ref, here):
        p = ref
        if p.startswith('lib:'):
            for s in self.shelves:
                full = os.path.join(s, p[4:])
                if os.path.isfile(full):
                    return full
        for k in ('NXTV_BASE',):
            for form in ('${%s}', '%%%s%%', '$%s'):
                p = p.replace(form % k, self.base)
        if p.startswith('~/'):
            p = self.base + p[1:]
        if not os.path.isabs(p):
            for r in self.roots:
                if os.path.isdir(r):
                    full = os.path.realpath(os.path.join(r, p))
                    if os.path.isfile(full):
                        return full
        return os.path.realpath(os.path.join(here, p))

    def index(self, real):
        return self.files.index(real) if real in self.files else None

    def load(self, i, authored, up, out):
        """Appends one row per layer; up: rows above it."""
        row = {'file': i, 'authored': authored, 'kept': [],
               'parent': up[-1] if up else None}
        me = len(out)
        out.append(row)
        if len(out) > MAX_LAYERS:
            raise Discard()
        here = os.path.dirname(self.files[i])
        chain = [out[u]['file'] for u in up] + [i]
        for ref in self.refs[i]:
            k = self.index(self.where(ref, here))
            if k is None or self.kind[k] != 'ok' or k in chain:
                self.skipped += 1
                continue
            row['kept'].append(ref)
            self.load(k, ref, up + [me], out)

    def expected(self, authored):
        self.skipped = 0
        out = []
        self.load(0, authored, [], out)
        return out


def check_load(d):
    base = ondisk.empty()
    w = World(d, os.path.realpath(base))
    d.note([os.path.relpath(f, w.base) for f in w.files])
    d.note(w.kind)
    d.note(w.refs)
    d.note(w.roots)
    d.note(w.shelves)
    cwd = os.path.join(w.base, d.choice(FOLDERS))
    old, env = os.getcwd(), dict(os.environ)
    known = list(nxt_io.plugin_expanders)
    try:
        for e in w.expanders():
            nxt_io.register_reference_path_expander(e)
        os.environ.update(w.env)
        if not w.roots:
            os.environ.pop('NXT_FILE_ROOTS', None)
        os.chdir(cwd)
        given = w.form(d, w.files[0], cwd)
        if w.where(given, cwd) != w.files[0]:
            raise Discard()     # another file of that name in a root
        d.note(given)
        want = w.expected(given)
        before = [os.getcwd(), dict(os.environ), ondisk.picture(w.base)]
        if d.boolean(1, 3):
            s = Session()
            st = s.load_file(given)
        else:
            st = Stage.load_from_filepath(given)
        after = [os.getcwd(), dict(os.environ), ondisk.picture(w.base)]
        eq(after[0], before[0], 'working directory')
        eq(after[1], before[1], 'environment')
        need(after[2] == before[2], 'files changed')
        ls = list(st._sub_layers)
        got = []
        for ly in ls:
            got.append({'file': w.index(ly.real_path),
                        'authored': ly.filepath,
                        'kept': list(ly.sub_layer_paths),
                        'parent': ls.index(ly.parent_layer)
                        if ly.parent_layer is not None else None})
        eq(got, want, 'layers')
        for i, (ly, row) in enumerate(zip(ls, want)):
            eq(ly._layer_idx, i, 'index of layer', i)
            eq([x['filepath'] for x in ly.sub_layers], row['kept'],
               'listed references', i)
            need(ly.lookup('/f{}'.format(row['file'])) is not None,
                 'content of layer', i)
            eq([p for p in ly.descendants()],
               ['/f{}'.format(row['file'])], 'content of layer', i)
        eq(st.top_layer is ls[0], True, 'top layer')
        d.interesting(len(ls) > 2 or (len(ls) > 1 and w.skipped))
        if w.skipped:
            d.label('skipped')
        if len(set(r['file'] for r in want)) < len(want):
            d.label('loaded twice')
    finally:
        nxt_io.plugin_expanders[:] = known
        os.chdir(old)
        os.environ.clear()
        os.environ.update(env)


PARTS = [Part('load', check_load, 8000, 120000,
              'up to 6 files over 7 folders (one linked, two roots), up to 4 '
              'references each')]
ASSUMPTIONS = ['configured roots are absolute folders; names in them never '
               'are folders']
