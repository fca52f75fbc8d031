"""C07: hierarchy queries always agree with the actual nodes.
Oracle: the set of node paths (kept by a model of the edits; for composites,
the reference compositing model)."""
from pbt.main import Part
from pbt.nxtlib import *  # noqa: F403
from pbt.structops import gen_nodes, make_stage, layer_of, Model, Editor
from nxt.nxt_layer import LayerReturnTypes as RT
from pbt import queries, compgen, compcheck

PROPERTY = 'C07'
RULE = ('a case is non-trivial when at least two queries were asked of nodes '
        'that have children, with an edit in between where the part edits')


def layer_case(d, implied):
    s = make_stage([{'nodes': gen_nodes(d, 1, 7, implied=implied,
                                        instances=False)}])
    layer = layer_of(s, 0)
    m = Model(layer)
    d.note(sorted(m.nodes))
    ed = Editor(d, s, layer, m)
    hits = 0
    edits = 0
    known = queries.with_implied(m.nodes)
    warm = d.boolean(2, 3)
    for _ in d.many(1, 8, (7, 8)):
        known |= queries.with_implied(m.nodes)
        if warm and d.boolean(3, 4):
            # whatever the layer remembers, it remembers all of it
            queries.ask_all(layer, m.nodes, known)
        for _ in d.many(0, 3, (2, 3)):
            hits += bool(queries.ask(d, layer, m.nodes))
        if d.boolean(3, 4):
            ed.step()
            edits += 1
    for _ in d.many(1, 3):
        hits += bool(queries.ask(d, layer, m.nodes))
    queries.ask_all(layer, m.nodes, known)
    d.interesting(hits >= 2 and edits >= 1)


def check_dense(d):
    layer_case(d, False)


def check_sparse(d):
    layer_case(d, True)


def check_composite(d):
    ls = compgen.layers(d, 1, 3, 8, 1, 4, (1, 3), 4)
    d.note(ls)
    m = compgen.model(ls)
    s = make_stage(ls)
    comp = s.build_stage()
    compcheck.node_set(comp, m)
    hits = 0
    for _ in d.many(2, 10, (7, 8)):
        hits += bool(queries.ask(d, comp, m.paths))
    queries.ask_all(comp, m.paths)
    d.interesting(hits >= 2)


def check_open(d):
    """A composite that is updated while layers are edited: what it lists is
    what it finds, whichever nodes it keeps."""
    ls = compgen.layers(d, 1, 2, 7, 1, 4, (1, 3), 4)
    for ly in ls:
        for data in ly['nodes'].values():
            data.pop('instance', None)
    d.note(ls)
    s = make_stage(ls)
    comp = s.build_stage()
    known = queries.with_implied(compgen.model(ls).paths)
    hits = edits = 0
    active = sorted(compgen.active_ids(ls))
    if not active:
        raise Discard('no layer counts')

    def there():
        known.update(queries.with_implied(
            comp.descendants(return_type=RT.Path)))
        return {p for p in known | {'/'} if comp.lookup(p) is not None}

    for _ in d.many(1, 5, (5, 6)):
        if d.boolean(2, 3):
            queries.ask_all(comp, there(), known)
        for _ in d.many(0, 2):
            hits += bool(queries.ask(d, comp, there()))
        i = d.choice(active)
        layer = layer_of(s, i)
        own = sorted(p for p in layer.descendants(return_type=RT.Path))
        if not own:
            continue
        p = d.choice(own)
        if d.boolean():
            name = d.choice(['a', 'b', 'n1', 'n2'])
            d.note('layer {} add {} below {}'.format(i, name, p))
            s.add_node(name, {}, p, layer, comp_layer=comp)
            known.add(p.rstrip('/') + '/' + name)
        else:
            d.note('layer {} delete {}'.format(i, p))
            s.delete_node(layer.lookup(p), layer, comp_layer=comp,
                          delete_descendants=d.boolean())
        edits += 1
    there()
    queries.ask_all(comp, there(), known)
    d.interesting(edits >= 1)


PARTS = [Part('open', check_open, 600, 15000,
              'hierarchy of a composite that is kept while layers are '
              'edited'),
         Part('dense', check_dense, 1000, 25000,
              'edits and queries interleaved, every ancestor exists'),
         Part('sparse', check_sparse, 1200, 30000,
              'edits and queries interleaved, with missing ancestors'),
         Part('composite', check_composite, 1200, 30000,
              'queries of composites, instances included')]
