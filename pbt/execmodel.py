"""Reference execution order, from the nodes of a composite model, the child
orders and the links."""
from pbt.nxtlib import need, parts, parent, is_below, to_path
from pbt.nxtlib import INTERNAL_ATTRS as IA
from pbt import compmodel as cm
from pbt.queries import with_implied


class Order(object):
    """m: compmodel.Comp; comp: the composite (its child orders, and its
    listing where a child order does not say)."""

    def __init__(self, m, comp):
        self.m = m
        self.comp = comp
        self.full = with_implied(m.paths)

    def off(self, p):
        return p in self.m.paths and self.m.internal(p, cm.ENABLED)[0] is False

    def kids(self, p, listing):
        kids = [q for q in self.full if parent(q) == p]
        node = self.comp.lookup(p)
        order = list(getattr(node, IA.CHILD_ORDER)) if node else []

        def place(q):
            if parts(q)[-1] in order:
                return 0, order.index(parts(q)[-1])
            here = [i for i, x in enumerate(listing)
                    if x == q or is_below(x, q)]
            return 1, min(here or [0])
        return sorted(kids, key=place)

    def tree(self, root):
        """Every node of the tree, depth first."""
        listing = self.comp.descendants(root, self.comp.RETURNS.Path,
                                        ordered=True)
        out = []

        def visit(p):
            out.append(p)
            for k in self.kids(p, listing):
                visit(k)
        visit(root)
        return out

    def chain(self, root):
        """The roots linked one after another. Where two are linked after
        the same one, either may follow."""
        got = self.comp.get_root_exec_order(root)
        out = [root]
        self.tie = False
        roots = sorted(p for p in self.m.paths if len(parts(p)) == 1)
        while True:
            nxt = [r for r in roots if r not in out and
                   self.m.own(r, cm.EXEC)[0] == out[-1]]
            if not nxt:
                break
            if len(nxt) > 1:
                self.tie = True
                here = got[len(out)] if len(got) > len(out) else None
                need(here in nxt, 'root order', got, 'after', out, 'one of',
                     nxt)
                out.append(here)
            else:
                out.append(nxt[0])
        need(got == out, 'root order', 'got', got, 'want', out)
        return out

    def order(self, start):
        root = to_path(parts(start)[:1])
        out = []
        for r in self.chain(root):
            nodes = self.tree(r)
            if r == root:
                nodes = nodes[nodes.index(start):]
            skip = [p for p in self.tree(r) if self.off(p)]
            for p in nodes:
                # a start node runs even below a disabled root
                if p in skip or p not in self.m.paths:
                    continue
                if any(is_below(p, q) and not
                       (q == root and is_below(start, root)) for q in skip):
                    continue
                out.append(p)
        return out
