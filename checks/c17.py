"""C17: older files load with all of their content.
A generated current graph is written in an older format by this file (the
inverse of what the formats changed) and must load as the same content."""
import copy
import json
import os

from pbt.main import Part
from pbt.nxtlib import need, eq, parts, parent, is_below, Discard
from pbt.nxtlib import SpecLayer, Stage, to_path
from pbt.nxtlib import INTERNAL_ATTRS as IA
from pbt import filegen as fg
from checks import c01
from nxt import legacy

PROPERTY = 'C17'
RULE = ('a case is non-trivial when the file held at least two nodes with '
        'attributes or code, or one and layer settings')


def work(name):
    return os.path.join(os.environ['VERIF_WORK'], name)


def put_back_refs(d, data):
    """References as they were before 1.10: one mapping each."""
    refs = data.get('references')
    if refs is None:
        return
    overs = data.pop('comp_overrides', {})
    md = data.get('meta_data', {})
    aliases, colors = md.pop('aliases', {}), md.pop('colors', {})
    out = []
    for r in refs:
        if d.draw(12) == 0:     # names no file
            out.append(d.choice([{}, {'path': ''}, {'mute': True},
                                 {'path': None, 'alias': 'x'}]))
        one = {'path': r}
        # some are written the new way already, which the old way overrules
        mixed = d.draw(4) == 0
        for k, v in overs.get(r, {}).items():
            how = d.choice(['old', 'new', 'both']) if mixed else 'old'
            if how != 'new':
                one[k] = v
            if how != 'old':
                data.setdefault('comp_overrides', {}).setdefault(r, {})[k] = \
                    v if how == 'new' else not v
        for key, k, all_of in (('aliases', 'alias', aliases),
                               ('colors', 'color', colors)):
            if r not in all_of:
                continue
            how = d.choice(['old', 'new', 'both']) if mixed else 'old'
            if how != 'new':
                one[k] = all_of[r]
            if how != 'old':
                data.setdefault('meta_data', {}).setdefault(key, {})[r] = \
                    all_of[r] if how == 'new' else '#123456'
        out.append(one)
    data['references'] = out


def older_meta(data):
    md = data.get('meta_data', {})
    for old, new in (('position_data', 'positions'),
                     ('collapse_data', 'collapse')):
        if new in md:
            md[old] = md.pop(new)


def limited(data, pre10, pre1):
    """What the older format can express at all."""
    refs = data.get('references', [])
    if pre10:
        overs = data.get('comp_overrides')
        md = data.get('meta_data', {})
        if overs is not None:
            overs = {k: v for k, v in overs.items() if k in refs and v}
            data.pop('comp_overrides')
            if overs:
                data['comp_overrides'] = overs
        for key in ('aliases', 'colors'):
            if key in md:
                md[key] = {k: v for k, v in md[key].items() if k in refs}
                if not md[key]:
                    md.pop(key)
        for key in ('positions', 'collapse'):
            if key in md and not md[key]:
                md.pop(key)
        data.pop('lock', None)
        md.pop('locks', None)
        data.get('nodes', {}).pop('/', None)
    if pre1:
        nodes = data.get('nodes', {})
        for p in sorted(nodes):     # a tree: no missing nodes in between
            ns = parts(p)
            for i in range(1, len(ns)):
                nodes.setdefault(to_path(ns[:i]), {})
        for p in nodes:             # every child is in the order
            kids = [parts(c)[-1] for c in nodes if c != '/' and
                    parent(c) == p]
            co = [n for n in nodes[p].get('child_order', [])
                  if n in kids]
            co = [n for i, n in enumerate(co) if n not in co[:i]]
            co += sorted(n for n in kids if n not in co)
            nodes[p].pop('child_order', None)
            if co:
                nodes[p]['child_order'] = co
            for k in ('execute_in', 'instance', 'comment'):
                if nodes[p].get(k) == '' and k != 'instance':
                    nodes[p].pop(k)
            if nodes[p].get('start_point') is False:
                nodes[p].pop('start_point')
    return data


def as_pre_release(d, data):
    """0.45: a tree of children."""
    nodes = data.pop('nodes', {})
    md = data.pop('meta_data', {})
    starts = [p for p in nodes if nodes[p].get('start_point')]
    if starts:
        md['start_nodes'] = starts
    if md or d.boolean():
        data['data'] = md

    def tree(p):
        n = nodes[p]
        inner = {}
        for new, old in (('instance', 'instance'), ('enabled', 'enabled'),
                         ('code', 'compute'), ('attrs', 'attributes')):
            if new in n:
                inner[old] = n[new]
        out = {'name': parts(p)[-1], 'data': inner}
        for new, old in (('execute_in', 'execute_in'),
                         ('comment', 'comment')):
            if new in n:
                out[old] = n[new]
        out['execute_order'] = n.get('child_order', [])
        kids = [c for c in nodes if c != '/' and parent(c) == p]
        if kids:
            out['children'] = [tree(c) for c in d.permutation(kids)]
        return out
    roots = [p for p in nodes if parent(p) == '/' and p != '/']
    if roots or d.boolean():
        data['children'] = [tree(p) for p in d.permutation(roots)]
    return data


def older(d):
    """-> (what it holds in the current form, the file, its version)"""
    data = fg.layer(d, 7)
    kind = d.choice(['0', '9', '10', '15'])
    pre1, pre10 = kind == '0', kind in ('0', '9')
    data = limited(data, pre10, pre1)
    now = copy.deepcopy(data)
    version = d.choice({'0': ['0.45.0', '0.45.6', '0.39.2', '0.44.1', '0.45'],
                        '9': ['1.9', '1.0.0', '1.3.2', '1.9.9', '1.8'],
                        '10': ['1.10', '1.12.1', '1.13', '1.14', '1.11.0'],
                        '15': ['1.15', '1.16', '1.15.3']}[kind])
    if pre10:
        put_back_refs(d, data)
        older_meta(data)
    if pre1:
        data = as_pre_release(d, data)
    data['version'] = version
    if kind in ('0', '9', '10'):
        data.setdefault('mute', False)
        data.setdefault('solo', False)
        if kind == '10':
            data.setdefault('references', [])
    if d.boolean(1, 5):
        data['comment'] = 'of the file'
    return now, fg.shuffled(d, data), version


def compare(got, want, pre1):
    unknown = got.pop('unknown')
    for k, v in want.pop('unknown').items():
        need(k in unknown and unknown[k] == v, 'unknown meta data', k,
             unknown)
    for n in list(got['nodes'].values()) + list(want['nodes'].values()):
        # left out is the same as none
        for k in (IA.COMMENT, IA.EXECUTE_IN):
            n[k] = n[k] or None
        n[IA.START_POINT] = n[IA.START_POINT] or None
    c01.same(got, want, 'converted')


def check_load(d):
    now, old, version = older(d)
    d.note(old)
    d.label('from ' + '.'.join(version.split('.')[:2]))
    path = work('old.nxt')
    fg.write(path, old)
    raw = fg.read(path)
    want = fg.expected(now, 'old.nxt')
    how = d.draw(3)
    if how <= 1:
        ly = SpecLayer.load_from_filepath(path)
    elif how == 2:
        # references that are not there are dropped by a stage
        files = [r for r in now.get('references', [])]
        s = Stage.load_from_filepath(path)
        ly = s._sub_layers[0]
        for r in files:
            if r in ly.sub_layer_paths:
                need(False, 'a missing reference was kept', r)
        want['references'] = []
        want['references listed'] = []
        d.label('stage')
    else:
        legacy.cli_file_convert(path, False)
        out = work('old_CONVERTED.nxt')
        with open(out) as fp:
            v = json.load(fp)['version']
        need(tuple(int(x) for x in v.split('.')[:2]) >= (1, 15),
             'the converted file has an old version', v)
        ly = SpecLayer.load_from_filepath(out)
        os.remove(out)
        if 'alias' not in now:
            want['alias'] = 'old_CONVERTED.nxt'
        d.label('converted file')
    eq(fg.read(path), raw, 'loading changed the file')
    c01.rich(d, fg.describe(ly))
    compare(fg.describe(ly), want, version.startswith('0'))


def check_current(d):
    data = fg.layer(d, 6)
    d.note(data)
    text = json.dumps(data)
    out = legacy.FileConverter.get_converted_data(json.loads(text))
    eq(json.dumps(out), text, 'converting a current file changed it')
    d.interesting(len(data.get('nodes', {})) > 1)
    path = work('current.nxt')
    fg.write(path, data)
    raw = fg.read(path)
    replace = d.boolean()
    legacy.cli_file_convert(path, replace)
    out = path if replace else work('current_CONVERTED.nxt')
    with open(out) as fp:
        eq(json.load(fp), json.loads(text), 'converted file')
    if not replace:
        eq(fg.read(path), raw, 'converting changed the file')
        os.remove(out)


PARTS = [Part('load', check_load, 6000, 60000,
              'graphs written in versions 0.39 to 1.16, loaded or converted'),
         Part('current', check_current, 600, 10000,
              'current files through the converter')]
ASSUMPTIONS = ['before 1.0 every child is listed in the execute order of its '
               'parent (the converter drops others on purpose)',
               'content an older format could not express is not generated; '
               'start_point false, empty comments and links are the same as '
               'none']
