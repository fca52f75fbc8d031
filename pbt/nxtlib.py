"""Generators and helpers shared by the checks (imports nxt from VERIF_REPO)."""
import json
import os

import nxt  # noqa: F401  (loads plugins the way a user does)
from nxt import nxt_path, nxt_layer, nxt_node, nxt_io, tokens  # noqa: F401
from nxt.stage import Stage  # noqa: F401
from nxt.session import Session  # noqa: F401
from nxt.nxt_layer import LayerReturnTypes, SAVE_KEY, SpecLayer  # noqa: F401
from nxt.nxt_node import INTERNAL_ATTRS, META_ATTRS  # noqa: F401

from pbt.engine import Violation, Discard  # noqa: F401

W = '/'

# Few names, so that they collide; prefixes of each other; with digits,
# underscores and different case, so that string tricks show.
NAMES = ['a', 'b', 'c', 'aa', 'ab', 'a1', 'node', 'node2', 'A', '_x', 'b_a',
         'node10']
ATTRS = ['x', 'y', 'z', 'xx', 'x1', 'code_x', 'Y', '_p']


def fresh(s):
    """A string equal to s that is not the same object."""
    return ''.join([s[:1], s[1:]]) if len(s) > 1 else s


def name(d, pool=None):
    return d.choice(pool or NAMES)


def names(d, lo=0, hi=4, pool=None):
    return [name(d, pool) for _ in d.many(lo, hi)]


def to_path(ns):
    return '/' + '/'.join(ns)


def parts(path):
    return [p for p in path.split('/') if p]


def parent(path):
    if path == '/':
        return ''
    head = path.rpartition('/')[0]
    return head or '/'


def ancestors(path):
    """Nearest first, without the world."""
    ns = parts(path)
    return [to_path(ns[:i]) for i in range(len(ns) - 1, 0, -1)]


def is_below(path, anc):
    """Strictly below (world is above everything else)."""
    if anc == '/':
        return path != '/'
    return path.startswith(anc + '/')


# mostly small and colliding, now and then many siblings or many levels
SHAPES = [(28, 'usual'), (1, 'wide'), (1, 'deep')]
WIDE = ['a', 'a1', 'a2', 'a10', 'a11', 'A', 'b', 'B', '_a', '_', 'c', 'd',
        'Zz', 'zz', 'node', 'node1', 'node10', 'x']


def paths(d, lo=1, hi=8, pool=None, depth=3, implied=True):
    """A list of distinct node paths; mostly grown from one another; some with
    missing ("implied") ancestors if `implied`."""
    out = []
    shape, keep, again = d.weighted(SHAPES), (2, 3), (4, 5)
    if shape == 'wide':
        pool, hi, depth, keep, again = WIDE, max(hi, 18), 2, (5, 6), (19, 20)
    elif shape == 'deep':
        depth, keep, again = 9, (11, 12), (11, 12)
        hi = max(hi, 12)
    for _ in d.many(lo, hi, again):
        if out and d.boolean(*keep):
            base = parts(out[-1] if shape == 'deep' and d.boolean(3, 4) else
                         d.choice(out[:2] if shape == 'wide' else out)
                         )[:depth - 1]
        elif implied and d.boolean(1, 4):
            base = names(d, 0, depth - 1, pool)
        else:
            base = []
        p = to_path(base + [name(d, pool)])
        if p not in out:
            out.append(p)
    return out


def need(cond, kind, *msg):
    if not cond:
        raise Violation(kind, *msg)


def eq(got, want, kind, *msg):
    if got != want:
        raise Violation(kind, *(msg + ('got', repr(got), 'want', repr(want))))
