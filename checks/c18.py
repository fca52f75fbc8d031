"""C18: unreadable or incompatible files are refused cleanly.
A file is written with a known fault (or none); every way of opening it must
refuse (or accept) it and leave everything else as it was."""
import copy
import json
import os

from pbt.main import Part
from pbt.nxtlib import need, eq
from pbt.nxtlib import SpecLayer, Stage, Session, nxt_io
from pbt import filegen as fg, ondisk
from nxt.constants import GRAPH_VERSION

PROPERTY = 'C18'
RULE = ('a case is non-trivial when the file (or a referenced one, or the '
        'save) was faulty, or its version was not the plain current one')
MAJ, MIN = GRAPH_VERSION.MAJOR, GRAPH_VERSION.MINOR
EXTS = ['.json', '.txt', '', '.nx', '.NXT', '.nxtx', '.nxt.bak', '.nxt ',
        '.nxtb2', '.py']
GOOD_EXTS = ['.nxt', '.nxtb']
NEWER = ['{}.{}'.format(MAJ, MIN + 1), '{}.{}.0'.format(MAJ, MIN + 3),
         '{}.0'.format(MAJ + 1), '{}.{}'.format(MAJ + 1, MIN),
         '{}.{}'.format(MAJ, MIN + 100), '{}.3.1'.format(MAJ + 9),
         '{}.{}'.format(MAJ, MIN * 10), '{}.{}'.format(MAJ + 1, MIN - 1),
         '{}.{}'.format(MAJ * 10, MIN - 1)]
CURRENT = ['{}.{}'.format(MAJ, MIN), '{}.{}.0'.format(MAJ, MIN),
           '{}.{}.99'.format(MAJ, MIN), '{}.{}.1.2'.format(MAJ, MIN),
           None, '']
OLDER = ['1.15', '1.16', '1.16.9']
MALFORMED = ['1', 'one', str(MAJ * 100 + MIN), '1,17', 'a.b', '.', '1.', '.1',
             '1.x', 'v1.17', '1..17', '1.17a']
TOO_OLD = ['0.38.0', '0.1', '0.30.9', '0.2.45']
DAMAGE = ['cut', 'empty', 'garbage', 'extra', 'comma', 'list', 'binary']


def damaged(d, text):
    how = d.choice(DAMAGE)
    if how == 'cut':
        return text[:d.integer(1, len(text) - 2)].rstrip('}').encode()
    if how == 'empty':
        return b''
    if how == 'garbage':
        return d.choice(['not a graph', '{', '{"version": }', "{'a': 1}",
                         '<xml/>', '\n\n']).encode()
    if how == 'extra':
        return (text + d.choice(['}', ' x', text])).encode()
    if how == 'comma':
        i = text.index(':')
        return (text[:i] + text[i + 1:]).encode()
    if how == 'list':
        return d.choice(['[]', '[1, 2]', '"text"', '5']).encode()
    return b'\xff\xfe\x00' + text.encode('utf-16')


def faulty(d, folder, stem='f'):
    """Writes a file. -> (path, kind, verdict) verdict: 'ok', 'io', 'any'"""
    data = fg.layer(d, 4, [])
    kind = d.weighted([(3, 'current'), (1, 'older'), (3, 'newer'),
                       (2, 'malformed'), (1, 'too old'), (2, 'extension'),
                       (1, 'missing'), (1, 'folder'), (3, 'damaged'),
                       (1, 'no folder')])
    ext = d.choice(GOOD_EXTS)
    verdict = 'io'
    if kind in ('current', 'older'):
        verdict = 'ok'
        data['version'] = d.choice(CURRENT if kind == 'current' else OLDER)
        if data['version'] is None:
            data.pop('version')
    elif kind == 'newer':
        data['version'] = d.choice(NEWER)
    elif kind == 'malformed':
        data['version'] = d.choice(MALFORMED)
        verdict = 'any'
    elif kind == 'too old':
        data['version'] = d.choice(TOO_OLD)
    elif kind == 'extension':
        ext = d.choice(EXTS)
    elif kind == 'damaged':
        verdict = 'any'
    path = os.path.join(folder, stem + ext)
    if kind == 'missing':
        pass
    elif kind == 'no folder':
        path = os.path.join(folder, 'nothing', 'here', stem + ext)
    elif kind == 'folder':
        os.makedirs(path)
    elif kind == 'damaged':
        raw = damaged(d, json.dumps(data))
        with open(path, 'wb') as fp:
            fp.write(raw)
    else:
        fg.write(path, data)
    d.label(kind)
    d.note([kind, os.path.basename(path), data])
    d.interesting(kind != 'current' or data.get('version') != CURRENT[0])
    return path, kind, verdict, data


def content(st):
    return [fg.describe(ly) for ly in st._sub_layers]


def around(base):
    return [os.getcwd(), dict(os.environ), ondisk.picture(base)]


def refused(fn, verdict, what):
    try:
        fn()
    except RecursionError:
        need(False, what, 'never ends')
    except IOError:
        return
    except Exception as e:
        need(verdict == 'any', what, 'raised', repr(e))
        return
    need(False, what, 'was not refused')


def check_open(d):
    base = ondisk.empty()
    good = os.path.join(base, 'open.nxt')
    fg.write(good, fg.layer(d, 3, []))
    sess = Session()
    st = sess.load_file(good)
    path, kind, verdict, data = faulty(d, base)
    cwd = os.path.join(base, 'wd')
    os.makedirs(cwd)
    old = os.getcwd()
    how = d.choice(['session', 'stage', 'layer', 'data', 'reference',
                    'run'])
    try:
        os.chdir(cwd)
        given = path
        if d.boolean(1, 3):
            given = os.path.relpath(path, cwd)
        before = [around(base), content(st), list(sess.loaded_files)]
        if how == 'session':
            fn = lambda: sess.load_file(given)
        elif how == 'stage':
            fn = lambda: Stage.load_from_filepath(given)
        elif how == 'layer':
            fn = lambda: SpecLayer.load_from_filepath(given)
        elif how == 'data':
            fn = lambda: nxt_io.load_file_data(given)
        elif how == 'run':
            fn = lambda: nxt_run(given, verdict)
        else:
            top = os.path.join(base, 'top.nxt')
            fg.write(top, fg.layer(d, 2, [os.path.relpath(path, base)]))
            before[0] = around(base)
            if verdict == 'any' and kind == 'damaged':
                fn = lambda: sess.load_file(top)
            elif verdict == 'any':
                # refused or left out, both are clean
                fn = None
                try:
                    new = sess.load_file(top)
                    eq(len(new._sub_layers), 1, 'layers')
                    sess.unload_file(new.uid)
                except Exception:
                    pass
            else:
                fn = None
                new = sess.load_file(top)
                eq(len(new._sub_layers), 1 + (verdict == 'ok'), 'layers')
                sess.unload_file(new.uid)
        d.label(how)
        d.note(how)
        if fn and verdict == 'ok':
            fn()
            if how == 'session':
                eq(len(sess.loaded_files), 2, 'loaded files')
                sess.unload_file(list(sess.loaded_files)[-1])
        elif fn:
            refused(fn, verdict, '{} {} {}'.format(how, kind,
                                                   data.get('version')))
        after = [around(base), content(st), list(sess.loaded_files)]
        eq(after[0][0], before[0][0], 'working directory')
        eq(after[0][1], before[0][1], 'environment')
        eq(after[0][2], before[0][2], 'files')
        eq(after[1], before[1], 'the open graph')
        eq(after[2], before[2], 'the open files')
    finally:
        os.chdir(old)


def nxt_run(path, verdict):
    if verdict == 'ok':
        return nxt_io.load_file_data(path)
    import nxt
    nxt.execute_graph(path)


UNSAVABLE = [lambda: object(), lambda: {1, 2}, lambda: b'raw',
             lambda: 1j]


def check_save(d):
    base = ondisk.empty()
    data = fg.layer(d, 4, [])
    kind = d.weighted([(2, 'good'), (3, 'extension'), (3, 'content'),
                       (1, 'no folder'), (1, 'no path')])
    ext = d.choice(EXTS if kind == 'extension' else GOOD_EXTS)
    stem = d.choice(['f', 'f.nxt', 'a b', 'x.nxtb'])
    if kind == 'extension' and ext == '':
        stem = d.choice(['f', 'a b', 'nxt', '.nxt'])
    path = os.path.join(base, stem + ext)
    if kind == 'no folder':
        path = os.path.join(base, 'nowhere', stem + ext)
    elif d.boolean(2, 3):
        fg.write(path, {'version': CURRENT[0], 'nodes': {'/old': {}}})
    d.label(kind)
    d.note([kind, os.path.basename(path), data])
    d.interesting(kind != 'good')
    before = around(base)
    how = d.choice(['layer', 'data'])
    if kind == 'content' and how == 'data':
        data['nodes'] = data.get('nodes', {})
        data['nodes']['/z'] = {'attrs': {'x': {'value':
                                               d.choice(UNSAVABLE)()}}}
    if kind == 'no path':
        out = nxt_io.save_file_data(copy.deepcopy(data))
        try:
            eq(os.path.splitext(out)[1], '.nxt', 'the temp file')
            with open(out) as fp:
                eq(json.load(fp), data, 'what was saved')
        finally:
            os.remove(out)
        return
    if how == 'data':
        fn = lambda: nxt_io.save_file_data(data, path)
    else:
        src = os.path.join(base, 'src.nxt')
        fg.write(src, data)
        ly = SpecLayer.load_from_filepath(src)
        if kind == 'content':
            ly.positions['/z'] = d.choice(UNSAVABLE)()
        before = around(base)
        fn = lambda: ly.save(path)
    if kind == 'good':
        fn()
        got = SpecLayer.load_from_filepath(path)
        eq(sorted(p for p, _ in got.descendants(return_type='NodeTable')),
           sorted(p for p in data.get('nodes', {}) if p != '/'), 'saved')
        after = around(base)
        after[2].pop(os.path.relpath(path, base))
        before[2].pop(os.path.relpath(path, base), None)
    else:
        try:
            fn()
            # a layer reports what it can not save, and writes nothing
            need(kind == 'content' and how == 'layer', kind, 'not refused')
        except (IOError, TypeError, ValueError):
            pass
        after = around(base)
        if how == 'layer':
            eq(ly.real_path, src, 'path of the layer')
    eq(after, before, 'cwd, environment, files')


PARTS = [Part('open', check_open, 3000, 40000,
              'files of every version, extension and damage, opened in '
              'every way, with another graph open'),
         Part('save', check_save, 1500, 20000,
              'saves to every extension, over existing files, with content '
              'that can not be saved')]
ASSUMPTIONS = ['a malformed version in a reference may be left out like a '
               'missing one or refuse the load',
               'a layer that holds values JSON has no form for logs an error '
               'and writes nothing instead of raising']
