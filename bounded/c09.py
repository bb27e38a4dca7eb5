from bounded.common import *
from bounded.c07 import observed, check_order

RULE = "several extended links of one role and kind whose arcs form a forest over distinct elements, split over links and files; relationships of the merged network compared with the union of the arcs"


def merged(env):
    R = report(env, networks=1, merge=1, kinds=["presentation", "calculation", "definition"], nels=env.rng.choice([8, 16]), nfacts=1)
    F = open_report(env, R)
    for kind in ("presentation", "calculation", "definition"):
        groups = {}
        for l in R.links:
            if l.kind == kind and getattr(l, "merged", False): groups.setdefault(l.role, []).append(l)
        nets = observed(F, kind, True)
        for role, ls in groups.items():
            mine = [n for n in nets if n.get_link_role() == role]
            expect(len(mine) == 1, "one", "%d networks for %d links of one role" % (len(mine), len(ls)), (kind, role))
            edges, nodes, kids, info = set(), set(), set(), {}
            for l in ls:
                el = {x.label: x.el.clark for x in l.nodes}
                for a in l.arcs:
                    edges.add((el[a.frm], el[a.to])); kids.add(el[a.to])
                    info[el[a.frm], el[a.to]] = (float(a.order) if a.order is not None else 1.0, (float(a.weight) if a.weight is not None else 0.0) if kind == "calculation" else None, a.arcrole)
                nodes |= set(el.values())
            oedges, onodes, bad = [], set(), []

            def walk(x, path):
                t = O.target(x)[1]
                onodes.add(t)
                for c in x.get_children():
                    u = O.target(c)[1]
                    oedges.append((t, u))
                    got = (float(c.get_order()), c.get_weight() if hasattr(c, "get_weight") else None, c.get_arc_role())
                    if info.get((t, u)) and got != info[t, u]: bad.append((t, u, got, info[t, u]))
                    expect(u not in path, "cycle", "a cycle appears", (path, u))
                    walk(c, path + [u])

            for x in mine[0].get_roots(): walk(x, [O.target(x)[1]])
            if any(getattr(l, "again", False) for l in ls): oedges = set(oedges)      # one edge declared twice: once or twice in the network
            miss, extra = O.diff_multiset(edges, oedges)
            expect(not miss, "lost", "%s relationships lost by merging" % kind, miss)
            expect(not extra, "new", "%s relationships introduced or doubled by merging" % kind, extra)
            expect(not bad, "attrs", "attributes of merged relationships", bad)
            expect(onodes == nodes, "nodes", "nodes of the merged network", nodes ^ onodes)
            roots = [O.target(x)[1] for x in mine[0].get_roots()]
            expect(sorted(roots) == sorted(nodes - kids), "roots", "roots of the merged network", "%s\nexpected %s" % (sorted(roots), sorted(nodes - kids)))
            check_order(mine[0], kind)


CASES = dict(merged=merged)
