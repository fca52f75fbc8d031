import sys, os, json, logging
logging.disable(logging.CRITICAL)
W = sys.argv[1]
os.chdir(W)
from nxt.stage import Stage, determine_nxt_type
from nxt.session import Session
from nxt.constants import GRAPH_VERSION
from nxt.nxt_layer import SpecLayer, CompLayer, CacheLayer, LayerReturnTypes as RT
from nxt import nxt_path, nxt_io, nxt_node, tokens, DATA_STATE
from nxt.nxt_node import INTERNAL_ATTRS as IA
V = GRAPH_VERSION.VERSION_STR

def stage(*layers):
    s = Stage()
    s.remove_sublayer(0)
    for i, l in enumerate(layers):
        l = dict(l)
        l.setdefault('real_path', W + '/layer%d.nxt' % i)
        l.setdefault('filepath', l['real_path'])
        s.new_layer(i, l)
    return s

def put(name, **data):
    data.setdefault('version', V)
    p = os.path.join(W, name)
    if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
    with open(p, 'w') as f:
        f.write(json.dumps(data))
    return p

def read(p):
    with open(p) as f:
        return f.read()

def check(ok, *what):
    if not ok:
        print('BROKEN:', *what)
        sys.exit(1)


