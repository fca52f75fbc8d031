"""Puts generated layer stacks (compgen form, strongest first) on disk as a
tree of referencing files, and compares folders before and after."""
import copy
import os
import shutil

from pbt import filegen as fg
from nxt.constants import GRAPH_VERSION

FOLDERS = ['', 'lib', 'lib/deep', 'other dir']


def empty(name='g'):
    """A fresh folder of this check's own."""
    base = os.path.join(os.environ['VERIF_WORK'], name)
    if os.path.isdir(base):
        shutil.rmtree(base)
    os.makedirs(base)
    return base


def plan(d, n):
    """Reference tree over n layers whose depth first order is 0..n-1.
    -> list of lists of children"""
    up, kids = [None], [[] for _ in range(n)]
    for i in range(1, n):
        chain = [i - 1]
        while up[chain[-1]] is not None:
            chain.append(up[chain[-1]])
        p = d.choice(chain)
        up.append(p)
        kids[p].append(i)
    return kids


def save(d, ls, base, flat=False):
    """Writes the layers; returns the path of the top one."""
    n = len(ls)
    kids = plan(d, n)
    files = [os.path.join(base, d.choice(FOLDERS) if i and not flat else '',
                          'layer{}.nxt'.format(i)) for i in range(n)]
    for i, ly in enumerate(ls):
        data = {k: copy.deepcopy(v) for k, v in ly.items()
                if k in ('nodes', 'mute', 'solo', 'alias', 'color')}
        data['version'] = GRAPH_VERSION.VERSION_STR
        here = os.path.dirname(files[i])
        data['references'] = [os.path.relpath(files[k], here)
                              for k in kids[i]]
        fg.write(files[i], data)
    return files[0], files


def picture(base):
    """Every file and folder below base, with contents."""
    out = {}
    for folder, dirs, files in os.walk(base):
        for x in dirs:
            out[os.path.relpath(os.path.join(folder, x), base)] = None
        for x in files:
            p = os.path.join(folder, x)
            out[os.path.relpath(p, base)] = fg.read(p)
    return out
