"""Node programs with known effects: generated code lines, and a reference
interpreter for what each of them sees, sets and leaves behind."""
import ast
import copy

from pbt.nxtlib import Discard
from pbt import compgen
from pbt import compmodel as cm
from checks import c10

NOTHING = 'NOTHING'
LITS = [1, 0, True, None, 'text', [1, 2], {'k': 1}, 1.5, '', (1,), 'two words',
        '7', False, [], 2, [True, 2], [1.0, 2], {'k': True}, -0.0, (1.0,),
        {'k': [1, {'l': 0}]}, {'k': [1, {'l': False}]}, {1, 2}, {True, 2},
        {'a': 1, 'b': 2}, {'b': 2, 'a': 1}]
ATTR_VALUES = ['1', 'text', '[1, 2]', "{'k': 1}", 'True', 'None', '1.5', '',
               'two words', '"q"', '0', '(1,)', '-3', '[]', 'a.b', '0.0',
               "{'k': [1, {'l': 0}]}", '{1, 2}', "{'a': 1, 'b': 2}"]
REC = "__import__('pbt.runlog', fromlist=['x']).LOG.append(({}, {}, {}))"
ATTRS = ['x', 'y', 'z']
GLOBALS = ['gv', 'gw', 'gvx']
LOCALS = ['v', 'gvl', 'g']
WORLD_NAMES = ['w1', 'gv', 'w12']


# text, line of it that is named, exception
RAISES = [('raise ExitNode()', 0, ''), ('1 / 0', 0, 'ZeroDivisionError'),
          ('raise ExitGraph()', 0, ''), ('raise ExitNode("why")', 0, ''),
          ('raise ValueError("no")', 0, 'ValueError: no'),
          ('raise SystemExit(1)', 0, 'SystemExit: 1'),
          ('undefined_name', 0, 'NameError'),
          ('raise KeyError("k")', 0, "KeyError: 'k'"),
          ('import no_such_m', 0, 'ModuleNotFoundError'),
          ('assert False', 0, 'AssertionError'),
          ('for vv in range(3):\n    vv += 1\n    vv / 0', 2,
           'ZeroDivisionError'),
          ('def vv():\n    return 1 / 0\nvv()', 2, 'ZeroDivisionError'),
          ('try:\n    1 / 0\nexcept KeyError:\n    pass', 1,
           'ZeroDivisionError'),
          ('try:\n    1 / 0\nfinally:\n    raise ExitNode()', 3, ''),
          ('if True:\n    raise ExitGraph("x")', 1, 'x'),
          ('raise ExitGraph("two words")', 0, 'two words'),
          ('from pbt import deep\ndeep.outer()', 1, 'ValueError: deep'),
          ('def vv():\n    raise ExitNode()\nvv()', 2, ''),
          ('eval("1 +")', 0, 'SyntaxError'),
          ('[vv / 0 for vv in [1]]', 0, 'ZeroDivisionError')]
BAD = [('x ==', 0, 'SyntaxError'), ('1 +', 0, 'SyntaxError'),
       ('def', 0, 'SyntaxError'), ('return 1', 0, 'SyntaxError'),
       ("x = 'abc", 0, 'SyntaxError'), ('pass pass', 0, 'SyntaxError'),
       ('a b', 0, 'SyntaxError'), ('f)', 0, 'SyntaxError'),
       ('if 1:\npass', 1, 'IndentationError'),
       ('          vv = 1', 0, 'IndentationError')]


class Node(object):
    """Program of one node: list of statements."""

    def __init__(self, stmts):
        self.stmts = stmts

    def lines(self):
        out = []
        for s in self.stmts:
            out += code_of(s)
        return out


def rec(tag, expr):
    return REC.format("'${_nxtpath}'", repr(tag), 'repr(' + expr + ')')


# where in the code of a node a name can be made global
SHAPES = {'plain': ([], []),
          'if': (['if True:'], []),
          'def': (['def fn():'], ['fn()']),
          'inner': (['def fn():', 'def inner():'], ['    inner()', 'fn()']),
          'loop': (['for ln in [1]:'], []),
          'try': (['try:'], ['except ValueError:', '    pass']),
          'class': (['class Kl(object):', 'def do(self):'], ['Kl().do()'])}


def code_of(s):
    k = s[0]
    if k == 'get':
        return [rec('get ' + s[1], "getattr(self, {!r}, 'NOTHING')".format(
            s[1]))]
    if k == 'tok':
        return [rec('tok ' + s[1].replace('$', '#'),
                    "r'''{} '''".format(s[1]))]
    if k == 'set':
        return ['if hasattr(self, {!r}):'.format(s[1]),
                '    self.{} = {!r}'.format(s[1], s[2])]
    if k == 'new':
        return ['self.{} = {!r}'.format(s[1], s[2])]
    if k == 'copy':
        return ['if hasattr(self, {!r}):'.format(s[1]),
                '    self.{} = getattr(self, {!r}, None)'.format(s[1], s[2])]
    if k == 'append':
        return ["if isinstance(getattr(self, {!r}, 0), list):".format(s[1]),
                '    self.{}.append({!r})'.format(s[1], s[2])]
    if k == 'del':
        return ["if hasattr(self, {!r}):".format(s[1]),
                '    del self.{}'.format(s[1])]
    if k == 'global':
        body = ['global ' + ', '.join(s[1]) + s[3]] + \
            ['{} = {!r}'.format(n, s[2]) for n in s[1]]
        head, tail = SHAPES[s[4] if len(s) > 4 else 'plain']
        for _ in head:
            body = ['    ' + ln for ln in body]
        return ['    ' * i + h for i, h in enumerate(head)] + body + tail
    if k == 'local':
        return ['{} = {!r}'.format(s[1], s[2])]
    if k == 'wname':
        return ['{} = {!r}'.format(s[1], s[2])]
    if k == 'name':
        return [rec('name ' + s[1], "globals().get({!r}, 'NOTHING')".format(
            s[1]))]
    if k == 'stage':
        return ['STAGE.{} = {!r}'.format(s[1], s[2])]
    if k == 'getstage':
        return [rec('stage ' + s[1], "getattr(STAGE, {!r}, 'NOTHING')".format(
            s[1]))]
    if k == 'raise':
        return s[1].split('\n')
    if k == 'bad':
        return s[1].split('\n')
    if k == 'expr':     # a value the model does not follow
        return ['self.{} = {}'.format(s[1], s[2])]
    if k == 'raw':      # lines which do nothing
        return list(s[1])
    raise AssertionError(s)


# lines which do nothing, but count
BLANK = ['', '  ', '# note ', '    # x', '""', '', '\t']


def gen(d, paths, lo=0, hi=5, stage=True, exits=False, effects=True):
    out = []
    for _ in d.many(lo, hi, (5, 6)):
        k = d.draw(20)
        a = d.weighted([(4, 'x'), (2, 'y'), (1, 'z')])
        if k <= 4:
            out.append(('get', a))
        elif k <= 7:
            out.append(('tok', d.choice(
                ['${' + a + '}', '${' + d.choice(paths) + '.' + a + '}',
                 'v ${../a.' + a + '}', '${./b.' + a + '} w'])))
        elif not effects:
            continue
        elif k <= 11:
            out.append(('set', a, d.choice(LITS)))
        elif k == 12:
            out.append(('copy', a, d.choice(ATTRS)))
        elif k == 13:
            out.append(('append', a, d.choice([3, 'p'])))
        elif k == 14:
            free = [g for g in GLOBALS if not any(
                g in o[1] for o in out if o[0] == 'global')]
            if free:
                out.append(('global', d.sample(free, 1, 3), d.choice(LITS),
                            d.choice(['', '  # note', ' ']),
                            d.weighted([(6, 'plain'), (1, 'if'), (2, 'def'),
                                        (1, 'inner'), (1, 'loop'),
                                        (1, 'try'), (1, 'class')])))
        elif k == 15:
            out.append(('local', d.choice(LOCALS), d.choice(LITS)))
        elif k == 16:
            out.append(('name', d.choice(GLOBALS + LOCALS + WORLD_NAMES)))
        elif k == 17 and stage:
            out.append(('stage', d.choice(ATTRS), d.choice(LITS)))
        elif k == 18 and stage:
            out.append(('getstage', a))
        elif k == 20:
            out.append(('raw', [d.choice(BLANK) for _ in d.many(1, 3)]))
        elif exits:
            if d.boolean(1, 4):
                if not [o for o in out if o[0] == 'bad']:
                    out.append(('bad',) + d.choice(BAD))
            else:
                out.append(('raise',) + d.choice(RAISES))
        elif d.boolean(1, 3):
            out.append(('del', a))
        elif d.boolean():
            out.append(('new', d.choice(['n1', 'n2']), d.choice(LITS)))
    return Node(out)


def gen_world(d, paths):
    out = []
    for _ in d.many(1, 4):
        k = d.draw(4)
        if k == 0:
            out.append(('wname', d.choice(WORLD_NAMES), d.choice(LITS)))
        elif k == 1:
            out.append(('stage', d.choice(ATTRS), d.choice(LITS)))
        elif k == 2:
            out.append(('getstage', d.choice(ATTRS)))
        elif k == 3:
            out.append(('tok', '${' + d.choice(paths) + '.' +
                        d.choice(ATTRS) + '}'))
        else:
            out.append(('name', d.choice(WORLD_NAMES)))
    return Node(out)


def real(text):
    """The python value a text denotes."""
    if not isinstance(text, str):
        return text
    try:
        v = ast.literal_eval(text)
    except (ValueError, SyntaxError, TypeError):
        return text
    return text if isinstance(v, str) else v


class Stop(Exception):
    def __init__(self, kind, path=None, line=None, err=''):
        self.kind, self.path, self.line, self.err = kind, path, line, err


class Runtime(c10.Resolver):
    """What a run must do. m: compmodel.Comp; programs: {lines: Node}."""

    def __init__(self, m, programs):
        super(Runtime, self).__init__(m)
        self.programs = programs
        self.rt = {}
        self.names = {}
        self.log = []
        self.ran = []
        self.frames = {}
        self.code = {}
        self.changes = 0
        self.flows = 0

    # -- attribute values as they are now ---------------------------------
    def has(self, p):
        return p in self.m.paths or p == '/'

    def lookup(self, p, a):
        """(found, raw value, from where)"""
        chain = self.m.mro(p) if p in self.m.paths else [p]
        for q in chain:
            if a in self.rt.get(q, {}):
                return True, self.rt[q][a], q
            for _, data in self.m.real.get(q, ()):
                if a in data.get('attrs', {}):
                    return True, data['attrs'][a].get('value'), None
        return False, None, None

    def value(self, p, a, depth=0):
        if not self.has(p):
            return ''
        found, v, src = self.lookup(p, a)
        if not found or v is None:
            return ''
        self.hits += 1
        if src not in (None, p):
            self.flows += 1
        return self.resolve(p, str(v), depth) if v else str(v)

    def visible(self, p):
        chain = self.m.mro(p) if p in self.m.paths else [p]
        out = set()
        for q in chain:
            out |= set(self.rt.get(q, {})) | self.m.local(q)
        return out

    # -- running -----------------------------------------------------------
    def program(self, p):
        """The program whose code p has."""
        lines = self.m.internal(p, cm.CODE)[0] if p in self.m.paths else None
        return self.programs[tuple(lines)] if lines else None

    def params(self, given):
        for key, v in given.items():
            p, _, a = key.rpartition('.')
            if not self.has(p):
                continue
            self.rt.setdefault(p, {})[a] = str(v)

    def run_world(self):
        prog = self.program('/')
        if prog is None:
            return
        toks = {s: self.resolve('/', s[1]) for s in map(tuplify, prog.stmts)
                if s[0] == 'tok'}
        for s in prog.stmts:
            if s[0] == 'wname':
                self.names[s[1]] = s[2]
            elif s[0] == 'stage':
                self.rt.setdefault('/', {})[s[1]] = copy.deepcopy(s[2])
            elif s[0] == 'getstage':
                found, v, _ = self.lookup('/', s[1])
                self.say('/', 'stage ' + s[1], v if found else NOTHING)
            elif s[0] == 'tok':
                self.say('/', 'tok ' + s[1].replace('$', '#'),
                         toks[tuplify(s)] + ' ')
            elif s[0] == 'name':
                self.say('/', 'name ' + s[1], self.names.get(s[1], NOTHING))

    def run_node(self, p):
        prog = self.program(p)
        stmts = prog.stmts if prog else []
        raw = '\n'.join(prog.lines()) if prog else ''
        code = '\n'.join(self.resolve(p, ln) for ln in raw.split('\n'))
        pre = {}
        for a in sorted(self.visible(p)):
            found, v, src = self.lookup(p, a)
            if src not in (None, p):
                self.flows += 1
            if isinstance(v, str):
                v = real(self.resolve(p, v))
            pre[a] = copy.deepcopy(v)
        toks = {s: self.resolve(p, s[1]) for s in map(tuplify, stmts)
                if s[0] == 'tok'}
        frame = copy.deepcopy(pre)
        self.ran.append(p)
        self.frames[p] = frame
        self.code[p] = code
        own_locals = []
        stop = None
        line = 1
        for s in stmts:     # code that does not compile runs not at all
            if s[0] == 'bad':
                raise Stop('error', p, line + s[2], s[3])
            line += len(code_of(s))
        line = 1
        for s in stmts:
            k = s[0]
            if k == 'get':
                self.say(p, 'get ' + s[1], frame.get(s[1], NOTHING))
            elif k == 'tok':
                self.say(p, 'tok ' + s[1].replace('$', '#'),
                         toks[tuplify(s)] + ' ')
            elif k == 'set':
                if s[1] in frame:
                    frame[s[1]] = copy.deepcopy(s[2])
            elif k == 'new':
                frame[s[1]] = copy.deepcopy(s[2])
            elif k == 'copy':
                if s[1] in frame:
                    frame[s[1]] = frame.get(s[2])
            elif k == 'append':
                if isinstance(frame.get(s[1]), list):
                    frame[s[1]].append(s[2])
            elif k == 'del':
                frame.pop(s[1], None)
            elif k == 'global':
                for n in s[1]:
                    self.names[n] = s[2]
            elif k == 'local':
                self.names[s[1]] = s[2]
                own_locals.append(s[1])
            elif k == 'name':
                self.say(p, 'name ' + s[1], self.names.get(s[1], NOTHING))
            elif k == 'stage':
                self.rt.setdefault('/', {})[s[1]] = copy.deepcopy(s[2])
            elif k == 'getstage':
                found, v, _ = self.lookup('/', s[1])
                self.say(p, 'stage ' + s[1], v if found else NOTHING)
            elif k == 'raise':
                kind = 'node' if 'ExitNode' in s[1] else \
                    'graph' if 'ExitGraph' in s[1] else 'error'
                stop = Stop(kind, p, line + s[2], s[3])
                break
            line += len(code_of(s))
        for n in own_locals:
            self.names.pop(n, None)
        if stop is None or stop.kind != 'error':
            for a in pre:
                if a not in frame:
                    continue
                if repr(pre[a]) != repr(frame[a]):
                    self.rt.setdefault(p, {})[a] = frame[a]
                    self.changes += 1
        if stop is not None:
            raise stop

    def say(self, p, tag, v):
        self.log.append((p, tag, repr(v)))

    def run(self, paths):
        """-> None or the Stop that ended the run."""
        for p in paths:
            if p in self.m.paths and self.m.internal(p, cm.ENABLED)[0] \
                    is False:
                continue
            try:
                self.run_node(p)
            except Stop as e:
                if e.kind != 'node':
                    return e
        return None


def tuplify(s):
    return tuple(tuple(x) if isinstance(x, list) else x
                 for x in s) if s[0] == 'tok' else ('other',)


def graph(d, lo=1, hi=3, size=6, exits=False, world=True, settings=False,
          stage=True, stmts=5, inst=(1, 4), effects=True):
    """Layers whose nodes hold programs and values. -> layers, programs"""
    ls = compgen.layers(d, lo, hi, size, 3, 99, inst, 3, settings=settings,
                        world=world)
    ps = sorted({p for ly in ls for p in ly['nodes']})
    if not [p for p in ps if p != '/']:
        raise Discard('empty')
    programs = {}
    for ly in ls:
        for p in sorted(ly['nodes']):
            data = ly['nodes'][p]
            for key in ('code', 'enabled', 'start_point', 'execute_in'):
                data.pop(key, None)
            attrs = data.get('attrs', {})
            if 'x' not in attrs and d.boolean(2, 5):
                attrs = data.setdefault('attrs', {})
                attrs['x'] = {}
            for a in sorted(attrs):
                k = d.draw(7)
                if k <= 5:
                    attrs[a]['value'] = d.choice(ATTR_VALUES)
                elif k == 6:
                    attrs[a]['value'] = d.choice(
                        ['${' + d.choice(ATTRS) + '}',
                         '[${' + d.choice(ps) + '.' + d.choice(ATTRS) + '}]',
                         '${../a.' + d.choice(ATTRS) + '}', 'p ${x} q'])
                else:
                    attrs[a].pop('value', None)
            if p != '/' and d.boolean(4, 5):
                node = gen(d, ps, 0, stmts, stage, exits, effects)
                if 'x' in data.get('attrs', {}) and d.boolean(2, 3) and \
                        effects:
                    node.stmts.insert(0, ('set', 'x', d.choice(LITS)))
                if d.boolean(1, 2):
                    node.stmts.insert(0, ('get', 'x'))
                if node.stmts:
                    data['code'] = node.lines()
                    programs[tuple(data['code'])] = node
            if p == '/' and d.boolean(2, 3):
                node = gen_world(d, ps)
                data['code'] = node.lines()
                programs[tuple(data['code'])] = node
            if p != '/' and d.boolean(1, 10):
                data['enabled'] = False
    return ls, programs
