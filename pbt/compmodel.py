"""Reference model of compositing, computed from plain layer data.

Written from the documented semantics (docs, tutorials), not shared with nxt:
 - layers strongest first; a node exists when an active layer has it or when
   instancing mirrors it;
 - internal opinions: strongest active layer; code, comment and enabled fall
   back to the instance source;
 - attributes: linearization of (own layers, nearest existing ancestor,
   instance source) in which a node always precedes what it derives from.
"""
from pbt.engine import Discard

CODE, EXEC, COMMENT, START, ENABLED, INST = ('code', 'execute_in', 'comment',
                                             'start_point', 'enabled',
                                             'instance')
TRACKED = (CODE, EXEC, COMMENT, START, ENABLED, INST)
FROM_INSTANCE = (CODE, COMMENT, ENABLED)


def parts(path):
    return [p for p in path.split('/') if p]


def to_path(ns):
    return '/' + '/'.join(ns)


def parent(path):
    if path == '/':
        return ''
    return path.rpartition('/')[0] or '/'


def last(path):
    return path.rpartition('/')[2]


def is_below(path, anc):
    return path != anc and (anc == '/' or path.startswith(anc + '/'))


def walk(rel, start):
    """Relative node path -> full path, '' when there is none."""
    if not rel:
        return ''
    if rel.startswith('/'):
        return rel
    cur = parts(start)
    for i, step in enumerate(rel.split('/')):
        if step == '.':
            continue
        if step == '..':
            cur = cur[:-1]
        else:
            cur = cur + [step]
    return to_path(cur)


def opinion(v):
    return v is not None and v != []


class Conflict(Discard):
    """Parent and instance precedence contradict each other."""


def merge(seqs):
    seqs = [list(s) for s in seqs if s]
    out = []
    while seqs:
        for s in seqs:
            head = s[0]
            if not any(head in t[1:] for t in seqs):
                break
        else:
            raise Conflict('contradicting precedence')
        out.append(head)
        seqs = [[x for x in t if x != head] for t in seqs]
        seqs = [t for t in seqs if t]
    return out


class Comp(object):
    """layers: list of {'nodes': {path: data}} for the active layers,
    strongest first; ids: the id of each (index in the full list)."""

    def __init__(self, layers, ids=None):
        self.ids = list(ids) if ids is not None else list(range(len(layers)))
        self.layers = layers
        self.real = {}
        for i, ly in zip(self.ids, layers):
            for p, data in ly.get('nodes', {}).items():
                self.real.setdefault(p, []).append((i, data))
        self._cache = {}
        self._mro = {}
        self.forced = {}
        self.again()

    def again(self):
        self.inst = {}
        self.proxies = set()
        for p, specs in self.real.items():
            raw = self.own(p, INST)[0]
            self.inst[p] = walk(raw, p) if raw else raw
            if raw == '/' or self.inst[p] == '/':
                self.inst[p] = None
            self.inst[p] = self.forced.get(p, self.inst[p])
        self.blocked = {p for p, v in self.inst.items() if v == ''}
        self.expand()

    # -- own opinions ------------------------------------------------------
    def own(self, p, key):
        """(value, layer id) of the strongest layer with an opinion."""
        for i, data in self.real.get(p, ()):
            v = data.get(key)
            if key == CODE and v is not None:
                v = list(v)
            if opinion(v):
                return v, i
        return None, None

    # -- instances ---------------------------------------------------------
    def source(self, p):
        s = self.inst.get(p)
        if not s or s == '/':
            return None
        if s == p or is_below(p, s):
            raise Discard('instances itself or an ancestor')
        return s

    def kids_all(self):
        """parent -> children, implied ones included."""
        table = {}
        for p in list(self.real) + list(self.proxies):
            if p == '/':
                continue
            while p != '/':
                table.setdefault(parent(p), set()).add(p)
                p = parent(p)
        return table

    def expand(self):
        limit = 400
        while True:
            kids = self.kids_all()
            grew = False
            for p in sorted(set(self.real) | self.proxies):
                if p == '/':
                    continue
                s = self.source(p)
                if not s:
                    continue
                if is_below(s, p):
                    raise Discard('instances a descendant')
                for c in sorted(kids.get(s, ())):
                    t = p + '/' + last(c)
                    if t in self.real:
                        if t in self.blocked:
                            continue
                        cur = self.inst.get(t)
                        if cur and cur != c:
                            # what it mirrors as a child replaces an
                            # instance of its own
                            if t in self.forced:
                                raise Discard('two mirrors of one node')
                            self.forced = {
                                q: v for q, v in self.forced.items()
                                if not is_below(q, t)}
                            self.forced[t] = c
                            return self.again()
                        if cur != c:
                            self.inst[t] = c
                            grew = True
                    elif t in self.proxies:
                        if self.inst[t] != c:
                            raise Discard('two mirrors of one node')
                    else:
                        self.proxies.add(t)
                        self.inst[t] = c
                        grew = True
            if len(self.proxies) > limit:
                raise Discard('grows too much')
            if not grew:
                break
        # a mirror of a missing node is missing too
        self.paths = set(self.real)
        changed = True
        while changed:
            changed = False
            for t in self.proxies - self.paths:
                if self.inst[t] in self.paths:
                    self.paths.add(t)
                    changed = True
        for p in self.paths:
            self.trace(p)

    def trace(self, p):
        seen = [p]
        s = self.source(p)
        while s:
            if s in seen:
                raise Discard('cyclic instances')
            seen.append(s)
            s = self.source(s)
        return seen[1:]

    def existing_parent(self, p):
        p = parent(p)
        while p:
            if p in self.paths:
                return p
            p = parent(p)
        return None

    # -- resolved opinions -------------------------------------------------
    def internal(self, p, key):
        """-> (value or None, layer id or None if not from own layers)"""
        v, i = self.own(p, key)
        if i is not None:
            return v, i
        if key in FROM_INSTANCE:
            for s in self.trace(p):
                if s not in self.paths:
                    # nothing there: its own source still counts for nothing
                    return None, None
                v, i = self.own(s, key)
                if i is not None:
                    return v, None
        return None, None

    # -- attributes --------------------------------------------------------
    def mro(self, p, stack=()):
        if p in self._mro:
            return self._mro[p]
        if p in stack:
            raise Conflict('derivation cycle')
        st = stack + (p,)
        lin = []
        up = self.existing_parent(p)
        src = self.source(p) if p != '/' else None
        if src is not None and src not in self.paths:
            src = None
        a = self.mro(up, st) if up else []
        b = self.mro(src, st) if src else []
        if up and src and up in b:
            lin = merge([a, b])
        else:
            lin = merge([a, b, [x for x in (up, src) if x]])
        self._mro[p] = [p] + lin
        return self._mro[p]

    def local(self, p):
        out = set()
        for _, data in self.real.get(p, ()):
            out |= set(data.get('attrs', {}))
        return out

    def visible(self, p):
        out = set()
        for q in self.mro(p):
            out |= self.local(q)
        return out

    def attr(self, p, name):
        """(owner path, layer id, value, type, comment) or None."""
        chain = [(q, i, data['attrs'][name]) for q in self.mro(p)
                 for i, data in self.real.get(q, ())
                 if name in data.get('attrs', {})]
        if not chain:
            return None
        q, i, a = chain[0]

        def first(key):
            for _, _, x in chain:
                if key in x:
                    return x[key]
        return q, i, a.get('value'), first('type'), first('comment')

    def derivations(self, p):
        self.mro(p)
        return True

    def check_all(self):
        for p in sorted(self.paths):
            self.mro(p)


def active(settings):
    """settings: [(mute, solo)] strongest first -> indices that count."""
    solo = [i for i, (m, s) in enumerate(settings) if s and not m]
    if solo:
        return solo
    return [i for i, (m, s) in enumerate(settings) if not m]
