"""C31: graphs which are open side by side do not affect each other."""
import os

from pbt.main import Part
from pbt.nxtlib import need, eq, Discard, Stage
from pbt.structops import Model, Editor, layer_of, saved
from pbt import attrops, progs, runlog, snap, ondisk
from checks import c14
from nxt.session import Session

PROPERTY = 'C31'
RULE = ('a case is non-trivial when one graph was edited or run in a way that '
        'changed it or its run while another graph was open')
SESSION = []


def session():
    if not SESSION:
        SESSION.append(Session())
    return SESSION[0]


class Open(object):
    """One open graph and what it was like."""

    def __init__(self, d, stage, top):
        self.s = stage
        self.top = top
        self.comp = stage.build_stage()
        self.look()
        paths = sorted(p for p in snap.all_paths(self.comp) if p != '/')
        self.start = d.choice(paths) if paths else None
        self.todo = [d.choice(paths) for _ in d.many(1, 4)] if paths else []
        self.ran = self.run(d)

    def run(self, d):
        if not self.todo:
            return None
        return c14.once(d, self.s, self.s.build_stage(), 'nodes', self.todo,
                        self.start, None)

    def state(self):
        return {'layers': [saved(ly) for ly in self.s._sub_layers],
                'settings': [[ly.get_alias(), ly.get_color(), ly.get_muted(),
                              ly.get_soloed(), ly.get_locked(), ly.filepath,
                              ly.real_path] for ly in self.s._sub_layers],
                'composite': snap.comp(self.s, self.comp),
                'rebuilt': snap.comp(self.s, self.s.build_stage())}

    def look(self):
        self.was = self.state()

    def same(self, what):
        now = self.state()
        for k in sorted(now):
            if now[k] != self.was[k]:
                need(False, k + ' of another graph changed', what,
                     snap.diff(self.was[k], now[k])
                     if k in ('composite', 'rebuilt') else
                     [self.was[k], now[k]])

    # -- what is done to it ------------------------------------------------
    def work(self, d):
        s = self.s
        ly = d.choice(s._sub_layers)
        op = d.weighted([(4, 'attr'), (3, 'struct'), (2, 'settings'),
                         (4, 'run'), (1, 'remove'), (1, 'save'),
                         (1, 'position')])
        if op == 'attr':
            for _ in d.many(1, 4):
                attrops.step(d, s, ly)
        elif op == 'struct':
            others = [x for x in s._sub_layers if x is not ly]
            try:
                ed = Editor(d, s, ly, Model(ly), others)
                for _ in d.many(1, 3):
                    ed.step()
            except Discard:
                pass
        elif op == 'settings':
            k = d.draw(5)
            if k == 0:
                ly.set_alias(d.choice(['one', 'two']))
            elif k == 1:
                ly.color = '#ff00ff'
            elif k == 2:
                ly.set_muted(d.boolean())
            elif k == 3:
                ly.set_soloed(d.boolean())
            elif k == 4:
                ly.set_locked(d.boolean())
            else:
                s.top_layer.set_mute_over(ly.filepath, d.boolean())
        elif op == 'run':
            given = {'/a.x': d.choice([[1], '7', 'new']), '/.gv': 3} \
                if d.boolean() else None
            how = d.choice(['nodes', 'execute', 'fresh', 'code'])
            if not self.todo:
                return op + ' nothing'
            comp = s.build_stage()
            here = [p for p in self.todo if comp.lookup(p) is not None]
            if here and comp.lookup(self.start) is not None:
                c14.once(d, s, comp, how, here, self.start, given)
        elif op == 'remove':
            if ly is not s.top_layer:
                s.remove_sublayer(ly)
        elif op == 'save':
            if ly.real_path:
                ly.save()
        else:
            ly.positions['/a'] = [1, d.integer(0, 9)]
            ly.collapse['/a'] = d.boolean()
        return op


def check_apart(d):
    ls = c14.graph(d)
    d.note(ls)
    base = ondisk.empty('one')
    top, _ = ondisk.save(d, ls, base)
    tops = [top]
    if d.boolean(1, 3):
        other = c14.graph(d)
        d.note(other)
        tops.append(ondisk.save(d, other, ondisk.empty('two'))[0])
    os.chdir(os.environ['VERIF_WORK'])
    ses = session()
    for uid in list(ses.loaded_files):
        ses.unload_file(uid)
    have = []
    for _ in range(d.integer(2, 3)):
        t = d.choice(tops)
        have.append(Open(d, ses.load_file(t), t))
    if d.boolean(1, 3):
        have.append(Open(d, ses.new_file(), None))
    eq(len(ses.loaded_files), len(have), 'open graphs')
    log = []
    for _ in d.many(1, 5, (4, 5)):
        g = d.choice(have)
        try:
            op = g.work(d)
            g.state()
        except RecursionError:
            # an attribute now names itself: nothing of it can be shown
            raise Discard()
        log.append((have.index(g), op))
        d.note(log[-1])
        changed = g.was != g.state() or op == 'run'
        d.interesting(changed)
        for h in have:
            if h is not g:
                h.same('{} {}'.format(op, log))
        g.comp = g.s.build_stage()
        g.look()
        if op != 'run':
            g.ran = None
        eq(set(map(id, ses.loaded_files.values())),
           {id(h.s) for h in have}, 'graphs the session holds')
    for h in have:
        if h.ran is not None:
            eq(h.run(d), h.ran, 'a run of another graph changed', log)
    # what a session holds
    out = d.choice(have)
    ses.unload_file(out.s.uid)
    eq(set(map(id, ses.loaded_files.values())),
       {id(h.s) for h in have if h is not out}, 'graphs left in the session')
    for h in have:
        h.same('unloading')


PARTS = [Part('apart', check_apart, 900, 12000,
              'graphs of the same and other files edited, run, saved and '
              'unloaded in turn')]
