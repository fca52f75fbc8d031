"""C34: interpreters added as contexts stay available and run graphs.
Oracle: what was asked for when the context was made."""
import json
import os
import shutil
import sys

import nxt
from nxt import plugin_loader, nxt_path
from nxt.remote import contexts
from nxt.remote.server import ServerFunctions
from pbt.main import Part
from pbt.nxtlib import need, eq, Stage, Discard, nxt_layer
from pbt import ondisk, filegen as fg
from checks import c24

PROPERTY = 'C34'
RULE = ('a case is non-trivial when two contexts were made, or one after '
        'another was refused, and all were loaded again; in runs when a node '
        'recorded something')
NAMES = ['ctx', 'maya', 'my ctx', 'a.b', "o'brien", 'x{0}', '"q"', 'a-b',
         'back\\slash', 'CTX', 'ctx2', 'b', 'n%s', '$HOME', 'python']
EXES = ['/opt/apps/python', '/opt/my apps/bin/mayapy', "/opt/o'neil/python",
        '/opt/{x}/py', '/opt/Blender/blender', 'C:\\apps\\maya.exe',
        '/opt/new\\tools/py', '/opt/Maya.app/MAYA',
        '/opt/Blender 4/Blender.exe', sys.executable, 'python3', '/opt/"q"/py']
ARGS = ['-b', '--python', "it's", '"q"', 'a b', '{0}', '\\n', '--x=1', '']


class World(object):
    """A user's plugin folder; the contexts known are put back at the end."""

    def __enter__(self):
        self.base = ondisk.empty()
        self.dir = os.path.join(self.base, 'user dir', 'plugins')
        os.makedirs(self.dir)
        self.kept = (nxt.USER_PLUGIN_DIR, plugin_loader.PLUGIN_DIRS,
                     list(contexts._CONTEXTS), os.getcwd(),
                     dict(os.environ),
                     list(plugin_loader._nxt_loaded_plugin_module_names))
        nxt.USER_PLUGIN_DIR = self.dir
        plugin_loader.PLUGIN_DIRS = [os.path.join(self.base, 'missing'),
                                     self.dir]
        self.modules = set(sys.modules)
        os.environ['CTXV_DIR'] = self.base
        return self

    def __exit__(self, *_):
        (nxt.USER_PLUGIN_DIR, plugin_loader.PLUGIN_DIRS, known, cwd, env,
         names) = self.kept
        contexts._CONTEXTS[:] = known
        plugin_loader._nxt_loaded_plugin_module_names[:] = names
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        self.forget()

    def forget(self):
        for m in set(sys.modules) - self.modules:
            if m.startswith('custom_'):
                del sys.modules[m]

    def restart(self):
        """As nxt does when it is started the next time."""
        contexts._CONTEXTS[:] = self.kept[2]
        plugin_loader._nxt_loaded_plugin_module_names[:] = []
        self.forget()
        plugin_loader.load_plugins()

    def files(self):
        out = {}
        for root, _, names in os.walk(self.dir):
            if '__pycache__' in root:
                continue
            for n in names:
                with open(os.path.join(root, n), 'rb') as fp:
                    out[os.path.join(root, n)] = fp.read()
        return out


def context_graph(d, w):
    """-> (what is given as the graph, the file it means or None)"""
    how = d.choice(['default', 'default', 'absolute', 'relative', 'variable',
                    'beside', 'missing', 'user', 'folder'])
    if how == 'default':
        return None, None, how
    folder = {'beside': w.dir}.get(how, os.path.join(
        w.base, d.choice(['graphs', 'user dir', 'my graphs/sub'])))
    if not os.path.isdir(folder):
        os.makedirs(folder)
    path = os.path.join(folder, d.choice(['g.nxt', 'custom.nxt', 'c d.nxt',
                                          "it's.nxt"]))
    if how == 'folder':
        how, path = 'missing', folder
    elif how != 'missing':
        fg.write(path, {'version': '1.17',
                        'references': ['$NXT_BUILTINS/_context.nxt'],
                        'nodes': {}})
    elif os.path.exists(path):
        os.remove(path)
    given = path
    if how == 'relative':
        given = os.path.relpath(path, os.getcwd())
    elif how == 'variable':
        given = '$CTXV_DIR/' + os.path.relpath(path, w.base)
    elif how == 'user':
        os.environ['HOME'] = w.base
        given = '~/' + os.path.relpath(path, w.base)
    return given, None if how == 'missing' else os.path.realpath(path), how


def look(want, what):
    """Every context made is known, and is what was asked for."""
    for name in sorted(want):
        exe, graph, args = want[name]
        c = contexts.find_context_by_name(name)
        need(c is not None, 'context is not known', what, name)
        eq(c.name, name, 'name', what)
        eq(c.exe, exe, 'interpreter', what, name)
        eq(list(c.args), list(args), 'arguments', what, name)
        eq(nxt_path.full_file_expand(c.graph), graph, 'graph of the context',
           what, name)
    names = list(contexts.iter_context_names())
    eq(len(names), len(set(names)), 'names of contexts', what, names)
    eq(sorted(names), sorted(list(want) + BUILTIN), 'names of contexts', what)


BUILTIN = [c.name for c in contexts._CONTEXTS]


def make(d, w, want, name, exe, graph, args):
    d.note([name, exe, graph, args])
    kw = {}
    if graph is not None:
        kw['context_graph'] = graph
    if args or d.boolean():
        kw['exe_script_args'] = args
    return nxt.create_context(name, exe, **kw)


def check_made(d):
    with World() as w:
        places = [w.base, os.path.join(w.base, 'work'), w.dir]
        os.makedirs(places[1])
        want = {}
        refused = 0
        for _ in d.many(1, 4, (2, 3)):
            os.chdir(d.choice(places))
            name = d.choice(NAMES) if d.boolean(9, 10) else d.choice(['', None])
            exe = d.choice(EXES)
            graph, real, how = context_graph(d, w)
            args = d.choice([tuple, list])(d.choice(ARGS)
                                           for _ in d.many(0, 2, (1, 3)))
            before = w.files()
            known = list(contexts._CONTEXTS)
            elsewhere = name in want and d.boolean(1, 3)
            if elsewhere:       # made by another nxt running at the time
                contexts._CONTEXTS[:] = known = [
                    c for c in known if c.name != name]
                d.label('made elsewhere')
            bad = not name or name in want or name in BUILTIN or \
                how == 'missing'
            d.label(how)
            try:
                got = make(d, w, want, name, exe, graph, args)
            except (IOError, NameError) as e:
                need(bad, 'refused', name, how, repr(e))
                eq(w.files(), before, 'files, the context was refused')
                eq(contexts._CONTEXTS, known, 'contexts known, one was '
                   'refused')
                refused += 1
                if elsewhere:
                    w.restart()
                continue
            need(not bad, 'a context that cannot be was made', name, how)
            eq(got, name, 'answer')
            after = w.files()
            for f in before:
                eq(after.get(f), before[f], 'a file of another context', f)
            if real is None:
                new = [f for f in after if f not in before and
                       f.endswith('.nxt')]
                eq(len(new), 1, 'graphs made', new)
                real = os.path.realpath(new[0])
                ctx = Stage.load_from_filepath(real)
                need(len(ctx._sub_layers) > 1, 'the graph made is on its own')
                need(ctx.get_layer_start_nodes(ctx.build_stage()),
                     'the graph made starts nowhere')
                app = os.path.splitext(os.path.basename(
                    exe.replace(os.sep, '/')))[0].lower()
                if app in contexts.starter_contexts:
                    d.label(app)
                    with open(contexts.starter_contexts[app]) as fp:
                        model = json.load(fp)
                    with open(real) as fp:
                        mine = json.load(fp)
                    for g in (model, mine):
                        for n in g['nodes'].values():
                            n.pop('child_order', None)
                    for key in ('nodes', 'references'):
                        eq(mine.get(key), model.get(key), key, 'of the graph '
                           'made for', exe)
            want[name] = (exe.replace(os.sep, '/'), real, args)
            os.chdir(d.choice(places))
            look(want, 'after it was made')
        for i in range(d.integer(1, 2)):
            os.chdir(d.choice(places))
            before = w.files()
            w.restart()
            look(want, 'after a restart')
            eq(w.files(), before, 'files after a restart')
        d.interesting(len(want) > 1 or (want and refused))


def check_run(d):
    """A graph run by a context made before the last restart."""
    with World() as w:
        name, given = d.choice(NAMES[:-1]), None
        where = os.path.join(w.base, 'project')
        os.makedirs(where)
        ls = c24.graph(d, exits=False)
        top = c24.on_disk(d, ls, where)
        st = Stage.load_from_filepath(top)
        comp = st.build_stage()
        paths = sorted(p for p in comp.descendants() if p != '/')
        if not paths:
            raise Discard('empty')
        start = None if st.get_layer_start_nodes(comp) and d.boolean() else \
            d.choice(paths)
        given = c24.params(d, paths) if d.boolean() else {}
        graph, real, how = context_graph(d, w)
        if how == 'missing':
            graph = None
        args = d.choice([(), ('-W', 'ignore'), ['-B', '-s'], ('-c',)])
        if args == ('-c',):     # a launcher that is told what to run
            args = ['-c', 'import sys, runpy; sys.argv[:] = sys.argv[1:]; '
                    "sys.argv[1:2] = [] if sys.argv[1] == '--' else "
                    "sys.argv[1:2]; runpy.run_path(sys.argv[0], None, "
                    "'__main__')"]
        d.note([ls, start, given])
        make(d, w, {}, name, sys.executable, graph, args)
        os.chdir(d.choice([w.base, where, w.dir]))
        w.restart()
        trace, cache = (os.path.join(w.base, f) for f in ('trace', 'c.nxt'))
        want = c24.outcome(lambda: st.execute(start=start, parameters=given))
        os.environ['NXTV_TRACE'] = trace
        with c24.quiet():
            got = ServerFunctions.exec_in_headless(top, start, cache, given,
                                                   name)
        eq(got, cache, 'record of the run')
        log = []
        if os.path.exists(trace):
            with open(trace) as fp:
                log = [tuple(json.loads(x)) for x in fp]
        eq(log, want[1], 'what the nodes recorded')
        eq(os.path.exists(cache), want[0] == 'done', 'record of the run')
        if want[0] == 'done':
            c24.compare(want[2], c24.cached_values(cache), 'values')
        d.interesting(bool(want[1]))


PARTS = [Part('made', check_made, 500, 10000, 'contexts made, refused, loaded again'),
         Part('run', check_run, 40, 600, 'graphs run by a context made')]
ASSUMPTIONS = []
