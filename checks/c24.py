"""C24: every way of running a graph gives the same result.
The same graph on disk is run by Stage.execute (decided by C12 to C15) and by
every other entry point; what node code recorded and the values the nodes
ended with must be the same."""
import contextlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

import nxt
from nxt import cli
from nxt.remote import contexts
from nxt.remote.server import ServerFunctions
from nxt.session import RPCServerProcess
from nxt.runtime import GraphError, ExitGraph, ExitNode
from pbt.main import Part
from pbt.nxtlib import need, eq, Discard, Stage, Session, parts
from pbt.nxtlib import INTERNAL_ATTRS as IA, META_ATTRS as MA
from pbt.nxtlib import nxt_layer
from pbt import progs, runlog, ondisk, filegen as fg

RPCServerProcess.STARTUP_TIMEOUT = 120      # a busy machine is no failure
contexts.register_context(contexts.RemoteContext(
    'python with arguments', sys.executable,
    '${NXT_BUILTINS}/_context.nxt', ('-W', 'ignore')))
PROPERTY = 'C24'
RULE = ('a case is non-trivial when the run recorded something of two nodes, '
        'or of one and parameters were given')
FILE_TOKENS = ['${path::data.txt}', '${file::data.txt}', '${path::lib/x}',
               '${file::lib/data.txt}', '${contents::${file::data.txt}}',
               '${file::no.txt}']


def graph(d, exits=True, tokens=True):
    ls, programs = progs.graph(d, 1, 3, 6, exits=exits)
    for i, ly in enumerate(ls):
        if i and d.boolean(1, 8):
            ly[d.choice(['mute', 'solo'])] = True
        for p in sorted(ly['nodes']):
            data = ly['nodes'][p]
            attrs = data.get('attrs', {})
            for a in sorted(attrs):
                for b in 'xyz':     # values that lead back to themselves
                    if b <= a and b + '}' in str(attrs[a].get('value')):
                        attrs[a]['value'] = d.choice(['[1]', 'plain'])
                if tokens and d.boolean(1, 6):
                    attrs[a]['value'] = d.choice(FILE_TOKENS)
            if p == '/':
                continue
            if d.boolean(1, 5):
                data['start_point'] = d.boolean(4, 5)
            if len(parts(p)) == 1 and d.boolean(1, 4):
                data['execute_in'] = d.choice(sorted(
                    q for q in ly['nodes'] if len(parts(q)) == 1))
    return ls


def on_disk(d, ls, base):
    """Like ondisk.save, sometimes with the same file name in two folders."""
    top, files = ondisk.save(d, ls, base)
    for f in ondisk.FOLDERS:
        if d.boolean(1, 2):
            p = os.path.join(base, f)
            if not os.path.isdir(p):
                os.makedirs(p)
            with open(os.path.join(p, 'data.txt'), 'w') as fp:
                fp.write('text of ' + (f or 'top'))
    if d.boolean(1, 3):
        names = {}
        for i, p in enumerate(files):
            q = os.path.join(os.path.dirname(p), d.choice(['g.nxt', 'h.nxt']))
            if q not in names.values():
                names[p] = q
        real = {os.path.realpath(k): v for k, v in names.items()}
        for p in files:
            data = json.loads(fg.read(p))
            here = os.path.dirname(p)
            refs = []
            for r in data.get('references', []):
                t = os.path.realpath(os.path.join(here, r))
                refs.append(os.path.relpath(real.get(t, t), here))
            data['references'] = refs
            fg.write(p, data)
        for p, q in names.items():
            os.rename(p, q)
        top = names.get(top, top)
        if len(set(map(os.path.basename, names.values()))) < len(names):
            d.label('same file names')
    if d.boolean(1, 3):     # settings made from above
        st = Stage.load_from_filepath(top)
        for ly in st._sub_layers:
            below = [x.filepath for x in st._sub_layers
                     if x.parent_layer is not None]
            if not below or d.boolean(1, 2):
                continue
            data = json.loads(fg.read(ly.real_path))
            data['comp_overrides'] = {
                f: {d.choice(['mute', 'solo']): d.boolean()}
                for f in d.sample(below, 1)}
            fg.write(ly.real_path, data)
            d.label('overrides')
    return top


def params(d, paths):
    out = {}
    for _ in d.many(0, 3, (2, 3)):
        p = d.choice(paths + ['/', '/missing'])
        out[p.rstrip('/') + '.' + d.choice(progs.ATTRS) if p != '/' else
            '/.' + d.choice(progs.ATTRS)] = d.choice(
            ['1', 5, 'text', None, 'a b', [1, 2], True, '', "{'a': 2}", 1.5,
             'caf\u00e9', "['x', 'it']", '(1, 2)', '"q"', "it's", '{}', 0,
             ' x ', -5, '[1, 2] ', 'a=b', 'two\nlines'])
    return out


def values(cache):
    """What the record of a run holds, as comparable data."""
    out = {}
    for p in sorted(cache.nodes):
        n = cache.nodes[p]
        attrs = {}
        for a in vars(n):
            if a in progs.ATTRS or a in ('n1', 'n2', IA.CACHED_CODE):
                v = getattr(n, a)
                attrs[a] = [type(v).__name__, repr(v)]
        out[p] = attrs
    return out


def outcome(fn):
    """-> [how it ended, what it recorded, values or None]"""
    runlog.take()
    rt = None
    old = os.getcwd()
    try:
        rt = fn()
        end = 'done'
    except ExitGraph as e:
        rt, end = e.runtime_layer, 'exit'
    except (GraphError, ExitNode) as e:
        end = 'error'
    except ValueError as e:
        end = 'no start'
    eq(os.getcwd(), old, 'working directory')
    cache = getattr(rt, 'cache_layer', None)
    return [end, runlog.take(), None if cache is None else values(cache)]


def as_text(given):
    out = []
    for k in given:
        out += [k, str(given[k])]
    return out


def run_cli(argv):
    old = sys.argv
    sys.argv = ['nxt'] + argv
    try:
        cli.main()
    finally:
        sys.argv = old


def by_cli(d, top, start, given, base):
    argv = ['exec', top]
    if d.boolean():
        argv.insert(0, '-v') if d.boolean(1, 4) else None
    if start is not None:
        argv += [d.choice(['-s', '--start']), start]
    if given:
        if d.boolean(1, 3):
            p = os.path.join(base, d.choice(['given.json', 'given', 'p.nxt',
                                             'a b.txt']))
            with open(p, 'w') as fp:
                json.dump(given, fp)
            argv += [d.choice(['-p', '--parameters']), p]
        else:
            argv += [d.choice(['-p', '--parameters'])] + as_text(given)
    elif d.boolean(1, 4):
        argv += ['-p']
    return argv


def refused(d, top, start, given):
    """Parameters that are not complete: nothing runs."""
    words = as_text(given)
    if d.boolean() or len(words) == 2:
        words = words[:-1]
    else:
        i = 2 * d.draw(len(words) // 2 - 1)
        words[i] = words[i][1:]
    d.note(words)
    argv = ['exec', top] + (['-s', start] if start else []) + ['-p'] + words
    runlog.take()
    try:
        run_cli(argv)
    except Exception:
        eq(runlog.take(), [], 'what the nodes recorded, the parameters '
           'are not complete')
        d.label('refused')
        return
    need(False, 'ran with parameters that are not complete', words)


def caller(d, top, start, given, base):
    """A graph with a node that runs the graph at top as its sub graph."""
    attrs = {'_graph_path': {'value': top}}
    if start is not None:
        attrs['_start'] = {'value': start}
    if given:
        attrs['_parameters'] = {'value': repr(given)}
    outer = os.path.join(base, 'outer dir', 'outer.nxt')
    fg.write(outer, {'version': '1.17',
                     'references': ['$NXT_BUILTINS/sub_graphs.nxt'],
                     'nodes': {'/call': {'instance': '/_sub_graph',
                                         'attrs': attrs}}})
    return outer


def cached_values(path):
    return values(nxt_layer.CacheLayer.load_from_filepath(path))


WAYS = ['session', 'python', 'cli', 'sub graph', 'temp', 'nodes', 'opened',
        'list']


def setup(d, tokens=True, exits=True):
    ls = graph(d, exits, tokens)
    base = ondisk.empty()
    top = on_disk(d, ls, base)
    d.note([ls, {os.path.relpath(k, base): v for k, v in []}])
    st = Stage.load_from_filepath(top)
    comp = st.build_stage()
    paths = sorted(p for p in comp.descendants() if p != '/')
    if not paths:
        raise Discard('empty')
    starts = st.get_layer_start_nodes(comp)
    start = None if starts and d.boolean(1, 2) or d.boolean(1, 12) else \
        d.choice(paths if d.boolean(9, 10) else ['/missing', 'x'])
    given = params(d, paths) if d.boolean(2, 3) else {}
    d.note([start, given])
    return base, top, st, comp, paths, start, given


def judge(d, got, want, way, given, start, skip_values=False):
    d.label(way)
    eq(got[1], want[1], way, 'what the nodes recorded')
    ends = [want[0]]
    if way == 'sub graph':
        # leaving the sub graph does not end the calling graph
        ends = {'exit': ['done'], 'no start': ['error']}.get(want[0], ends)
    need(got[0] in ends, way, 'ended with', got[0], 'want', ends)
    if got[2] is not None and want[2] is not None and not skip_values:
        eq(got[2], want[2], way, 'values the nodes ended with')
    d.interesting(len(set(x[0] for x in want[1])) > 1 or
                  (want[1] and given))


def check_ways(d):
    base, top, st, comp, paths, start, given = setup(d)
    order = None
    old = os.getcwd()
    try:
        os.chdir(base)
        if d.boolean(1, 4):      # edits of the open graph that are not saved
            for _ in d.many(1, 2):
                ly = d.choice(st._sub_layers)
                p = d.choice(paths)
                node = ly.lookup(p)
                if node is None:
                    continue
                st.node_setattr_data(node, 'x', ly, create=True,
                                     value=d.choice(['7', 'edited']))
                ly.mute = d.boolean(1, 6)
            ways = ['temp']
        else:
            ways = d.sample(WAYS, 1)
        want = outcome(lambda: st.execute(start=start, parameters=given))
        for way in ways:
            d.note(way)
            if way == 'session':
                s = Session()
                got = outcome(lambda: s.execute_graph(top, start, given))
                eq(s.rpc_server, None, 'rpc server')
            elif way == 'opened':
                s = Session()
                s.load_file(top)
                got = outcome(lambda: s.execute_graph(
                    os.path.relpath(top), start=start, parameters=given))
            elif way == 'python':
                got = outcome(lambda: nxt.execute_graph(top, start, given))
            elif way == 'cli':
                if given and d.draw(8) == 0:
                    refused(d, top, start, given)
                    continue
                argv = by_cli(d, top, start, given, base)
                d.note(argv)
                got = outcome(lambda: run_cli(argv))
            elif way == 'temp':
                out = os.path.join(base, 'temp copy')
                os.makedirs(out)
                n = len(os.listdir(out))
                copy = st.save_to_temp(comp, out)
                eq(os.path.dirname(copy), out, 'folder of the copy')
                t = Stage.load_from_filepath(copy)
                eq(len(t._sub_layers), len(st._sub_layers), 'layers of copy')
                got = outcome(lambda: t.execute(start, parameters=given))
                shutil.rmtree(out)
            elif way == 'nodes':
                try:
                    order = comp.get_exec_order(start) if start else \
                        comp.get_exec_order(st.get_layer_start_nodes(comp)[0])
                except (IndexError, ValueError):
                    continue
                if want[0] == 'no start':
                    continue
                s = Session()
                got = outcome(lambda: s.execute_nodes(top, order, given))
            elif way == 'list':
                some = [d.choice(paths) for _ in d.many(1, 6, (2, 3))]
                d.note(some)
                here = outcome(lambda: st.execute_nodes(
                    some, st.build_stage(), given))
                s = Session()
                got = outcome(lambda: s.execute_nodes(top, some, given))
                judge(d, got, here, way, given, None)
                continue
            else:
                outer = caller(d, top, start, given, base)
                t = Stage.load_from_filepath(outer)
                got = outcome(lambda: t.execute('/call'))
                rec = got[2]
                if rec and want[2] and got[0] == 'done':
                    for a, v in want[2]['/'].items():
                        if a in progs.ATTRS:
                            eq(rec['/call'].get(a), v, 'value brought back '
                               'from the sub graph', a)
                judge(d, got, want, way, given, start, True)
                continue
            judge(d, got, want, way, given, start)
    finally:
        os.chdir(old)


@contextlib.contextmanager
def quiet():
    """The processes started below write to nowhere."""
    sys.stdout.flush()
    sys.stderr.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    kept = os.dup(1), os.dup(2)
    try:
        os.dup2(null, 1)
        os.dup2(null, 2)
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(kept[0], 1)
        os.dup2(kept[1], 2)
        for fd in (null,) + kept:
            os.close(fd)


def compare(want, got, way):
    """Values of a run elsewhere, as far as they can be brought back."""
    for p in want:
        if p == '/':
            continue
        for a, v in want[p].items():
            try:
                json.dumps(eval(v[1]))
            except Exception:
                continue
            if a in progs.ATTRS and v[0] not in ('tuple', 'NoneType'):
                eq(got.get(p, {}).get(a), v, way, p, a)


def check_process(d):
    """Runs in a process of their own: the command line and the python
    context."""
    base, top, st, comp, paths, start, given = setup(d, exits=False)
    old, env = os.getcwd(), dict(os.environ)
    trace = os.path.join(base, 'trace')
    try:
        os.chdir(base)
        want = outcome(lambda: st.execute(start=start, parameters=given))
        os.environ['NXTV_TRACE'] = trace
        way = d.choice(['cli process', 'context'])
        d.note(way)
        if way == 'cli process':
            argv = by_cli(d, top, start, given, base)
            rc = subprocess.call([sys.executable, '-m', 'nxt.cli'] + argv,
                                 stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL)
            eq(rc == 0, want[0] == 'done', 'exit status', rc, 'of', want[0])
            got = None
        else:
            cache = os.path.join(base, 'cache.nxt')
            context = d.choice(['python', 'python with arguments'])
            d.note(context)
            with quiet():
                ServerFunctions.exec_in_headless(top, start, cache, given,
                                                 context)
            got = cached_values(cache) if os.path.exists(cache) else None
            eq(got is not None, want[0] == 'done', 'record of the run')
        log = []
        if os.path.exists(trace):
            with open(trace) as fp:
                log = [tuple(json.loads(x)) for x in fp]
        eq(log, want[1], way, 'what the nodes recorded')
        if got is not None:
            compare(want[2], got, way)
        d.label(way)
        d.interesting(len(set(x[0] for x in want[1])) > 1 or
                      (want[1] and given))
    finally:
        os.chdir(old)
        os.environ.clear()
        os.environ.update(env)


def remote_call(d, top, start, base, way):
    """A graph with a node that runs the graph at top, there or elsewhere."""
    attrs = {'_graph_path': {'value': top}}
    for a in d.sample(progs.ATTRS):
        attrs[a] = {'value': d.choice(['5', 'plain', '[1, 2]', "{'a': 'b'}"])}
    if start is not None:
        attrs['_start'] = {'value': start}
    d.note(attrs)
    out = []
    for name, src in (('sub_graphs', '/_sub_graph'),
                      ('remote_contexts', '/_remote_sub_graph')):
        path = os.path.join(base, 'outer dir', name + '.nxt')
        fg.write(path, {'version': '1.17',
                        'references': ['$NXT_BUILTINS/' + name + '.nxt'],
                        'nodes': {'/call': {'instance': src,
                                            'attrs': attrs}}})
        out.append(path)
    return out


def check_remote(d):
    """The same through a remote server."""
    base, top, st, comp, paths, start, given = setup(d, exits=False)
    old, env, tmp = os.getcwd(), dict(os.environ), tempfile.tempdir
    trace = os.path.join(base, 'trace')
    mine = os.path.join(base, 'tmp')
    over = False
    os.makedirs(mine)
    way = d.choice(['context', 'node'])
    d.note(way)
    d.label(way + ' by a server')
    try:
        os.chdir(base)
        if way == 'context':
            want = outcome(lambda: st.execute(start=start, parameters=given))
        else:
            here, there = remote_call(d, top, start, base, way)
            t = Stage.load_from_filepath(here)
            want = outcome(lambda: t.execute('/call'))
            over = d.boolean()
            if over:    # the sub graph of a graph runs it remotely
                d.label('in a sub graph')
                here, up = there, os.path.join(base, 'up', 'up.nxt')
                fg.write(up, {
                    'version': '1.17',
                    'references': ['$NXT_BUILTINS/sub_graphs.nxt'],
                    'nodes': {'/up': {'instance': '/_sub_graph', 'attrs': {
                        '_graph_path': {'value': there},
                        '_start': {'value': '/call'}}}}})
        os.environ['NXTV_TRACE'] = trace
        os.environ['NXT_DCC'] = 'standalone'
        os.environ['TMPDIR'] = tempfile.tempdir = mine
        s = Session()
        got, e = None, None
        with quiet():
            try:
                if way == 'context':
                    got = values(s.execute_graph(top, start, given,
                                                 context='python'))
                elif over:
                    got = values(s.execute_graph(up, '/up').cache_layer)
                else:
                    got = values(s.execute_graph(there,
                                                 '/call').cache_layer)
            except Exception as x:
                e = repr(x)
        d.note(e)
        eq(s.rpc_server, None, 'rpc server')
        eq(got is not None, want[0] == 'done', 'record of the run', want[0])
        log = []
        if os.path.exists(trace):
            with open(trace) as fp:
                log = [tuple(json.loads(x)) for x in fp]
        eq(log, want[1], 'what the nodes recorded')
        if got is not None and not over:
            compare(want[2], got, way)
        d.interesting(len(set(x[0] for x in want[1])) > 1 or
                      (want[1] and given))
    finally:
        os.chdir(old)
        os.environ.clear()
        os.environ.update(env)
        tempfile.tempdir = tmp


PARTS = [Part('ways', check_ways, 2500, 40000,
              'graphs of up to 3 files and 6 nodes per layer, run by every '
              'entry point in this process'),
         Part('process', check_process, 80, 1600,
              'the same through the command line and a python context in a '
              'process of their own', max_shrink=60),
         Part('remote', check_remote, 24, 500,
              'the same through a remote server', max_shrink=12)]
ASSUMPTIONS = ['parameters and values hold no token syntax where they pass '
               'through an attribute of the calling node']
