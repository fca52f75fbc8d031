"""C14: executing a graph never alters the graph."""
import os

from pbt.main import Part
from pbt.nxtlib import need, eq, Discard, Stage
from pbt.structops import make_stage, layer_of, saved
from pbt import progs, runlog, snap, ondisk
from nxt.runtime import GraphError, ExitGraph, ExitNode

PROPERTY = 'C14'
RULE = ('a case is non-trivial when node code changed an attribute or a list '
        'value while it ran')

RAW = [[1, 2], {'k': [1]}, [[], 'a'], 3, True, {'a': 1}]


def graph(d, exits=True):
    ls, programs = progs.graph(d, 1, 3, 6, exits=exits)
    changing = 0
    for i, ly in enumerate(ls):
        if d.boolean(1, 8):
            ly[d.choice(['mute', 'solo'])] = True
        for p in sorted(ly['nodes']):
            data = ly['nodes'][p]
            attrs = data.get('attrs', {})
            for a in sorted(attrs):
                for b in 'xyz':     # values that lead back to themselves
                    if b <= a and b + '}' in str(attrs[a].get('value')):
                        attrs[a]['value'] = d.choice(['[1]', 'plain'])
                k = d.draw(9)
                if k == 0:
                    attrs[a]['value'] = d.choice(RAW)
                elif k == 1:
                    attrs[a]['value'] = d.choice(
                        ['${file::f.txt}', '${path::lib}', '${contents::'
                         'f.txt}', '${file::no.txt}'])
            code = data.get('code')
            if p != '/' and code is not None:
                code += [d.choice([
                    'for _x in ([getattr(STAGE, "x", 0)]):\n'
                    '    if isinstance(_x, list):\n'
                    '        _x.append(9)',
                    'if isinstance(getattr(self, "y", 0), dict):\n'
                    '    self.y["new"] = 1',
                    'STAGE.n = [1]',
                    'if isinstance(getattr(self, "x", 0), list):\n'
                    '    self.x.append(3)'])] if d.boolean(1, 3) else []
                data['code'] = '\n'.join(code).split('\n')
            if p == '/' and code is not None and d.boolean(1, 3):
                data['code'] = code + [
                    'if isinstance(getattr(self, "x", 0), list):',
                    '    self.x.append("w")']
            changing += any(s[0] in ('set', 'append', 'copy', 'stage', 'new')
                            for s in getattr(programs.get(tuple(
                                code or ())), 'stmts', ()))
    d.interesting(changing > 0)
    return ls


def once(d, s, comp, how, paths, start, given):
    """-> the outcome as comparable data"""
    runlog.take()
    rt = None
    try:
        if how == 'execute':
            rt = s.execute(start=start, layer=comp, parameters=given)
        elif how == 'fresh':
            rt = s.execute(start=start, parameters=given)
        elif how == 'nodes':
            rt = s.execute_nodes(paths, comp, given)
        else:
            out = s.execute_custom_code('self.x = [5]\n' + runlog.LINE, start,
                                        comp)
            end = repr(out)
        if how != 'code':
            end = 'done'
    except ExitGraph as e:
        rt = e.runtime_layer
        end = 'exit'
    except GraphError as e:
        end = 'error ' + str(e).strip().splitlines()[-1]
    values = {}
    if rt is not None:
        for p, n in rt.cache_layer.nodes.items():
            values[p] = {a: repr(v) for a, v in n.__dict__.items()
                         if not a.startswith('_')}
    return [end, runlog.take(), values]


def state(s, n, comp, base):
    return {'save data': [saved(layer_of(s, i)) for i in range(n)],
            'files': ondisk.picture(base), 'composite': snap.comp(s, comp),
            'working directory': os.getcwd(),
            'layers': [ly.filepath for ly in s._sub_layers]}


def check_unaltered(d):
    ls = graph(d)
    n = len(ls)
    d.note(ls)
    base = ondisk.empty()
    with open(os.path.join(base, 'f.txt'), 'w') as fp:
        fp.write('text of f')
    top, _ = ondisk.save(d, ls, base)
    os.chdir(d.choice([base, os.environ['VERIF_WORK']]))
    s = Stage.load_from_filepath(top)
    comp = s.build_stage()
    paths = sorted(p for p in snap.all_paths(comp) if p != '/')
    if not paths:
        raise Discard('empty')
    before = state(s, n, comp, base)
    how = d.choice(['nodes', 'execute', 'nodes', 'fresh', 'code'])
    start = d.choice(paths)
    todo = [d.choice(paths) for _ in d.many(1, 6)]
    given = None
    if d.boolean(1, 3):
        given = {d.choice(paths) + '.x': d.choice(['5', [1], None, '${y}']),
                 d.choice(['/.z', '/nope.x', paths[0] + '.new']): 1}
    d.note([how, start, todo, given])
    first = once(d, s, comp, how, todo, start, given)
    same(before, state(s, n, comp, base))
    d.label(first[0].split()[0])
    other = once(d, s, comp, how, todo, start, None) if given and \
        how != 'code' else None
    again = once(d, s, comp, how, todo, start, given)
    eq(again, first, 'running again gave something else', how)
    same(before, state(s, n, comp, base))
    if other is not None and d.boolean():
        t = Stage.load_from_filepath(top)
        eq(other, once(d, t, t.build_stage(), how, todo, start, None),
           'parameters of an earlier run showed')
    built = snap.comp(s, s.build_stage())
    if built != before['composite']:
        need(False, 'building after a run gave something else',
             snap.diff(before['composite'], built))


def same(a, b):
    if a == b:
        return
    for k in sorted(a):
        if a[k] != b[k]:
            if k == 'composite':
                need(False, 'a run changed the composite',
                     snap.diff(a[k], b[k]))
            need(False, 'a run changed the ' + k, 'was', a[k], 'is', b[k])


PARTS = [Part('unaltered', check_unaltered, 2500, 25000,
              'layers, files, composite and working directory before and '
              'after runs that end, exit or fail; runs repeated')]
ASSUMPTIONS = ['the node code itself touches no files and does not change the '
               'working directory']
