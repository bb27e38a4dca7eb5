from bounded.common import *
from collections import Counter

RULE = "random extended links (locators, resources, shared labels, several parents, orders, weights, preferred labels, separate files); every network compared with the arcs written"
TYPES = dict(presentation="PresentationNetwork", calculation="CalculationNetwork", definition="DefinitionNetwork", label="LabelNetwork", reference="ReferenceNetwork", footnote="FootnoteNetwork")


def observed(F, kind, logical):
    import brel.networks as N
    import importlib
    out = []
    for n in context(F).get_network_repository().get_all():
        if type(n).__name__ != TYPES[kind]: continue
        if kind == "definition" and n.is_physical() == logical: continue
        out.append(n)
    return out


def check_order(n, what):
    for r in n.get_roots():
        expect(O.ordered(r), "order", "children not in ascending order (%s)" % what, O.canon(r))


def compare(env, R, F, kinds):
    for kind in kinds:
        for logical in ((False, True) if kind == "definition" else (kind in ("presentation", "calculation"),)):
            exp = []
            for l in R.links:
                if l.kind != kind or getattr(l, "merged", False): continue
                for role, roots in O.exp_networks(l, logical):
                    exp.append(repr((l.role, "{%s}%s" % (O.LINKNS, l.name), role if kind != "calculation" or True else None, roots)))
            obs = []
            for n in observed(F, kind, logical):
                roots = sorted((O.canon(r, True, kind) for r in n.get_roots()), key=repr)
                if logical: role = None
                else: role = arcrole(n)
                obs.append(repr((n.get_link_role(), O.qn(n.get_link_name()), role, roots)))
                check_order(n, kind)
            miss, extra = O.diff_multiset(exp, obs)
            expect(not miss and not extra, "networks", "%s networks (%s) differ from the arcs" % (kind, "logical" if logical else "physical"), "missing %s\nsurplus %s" % ("\n        ".join(miss[:3]), "\n        ".join(extra[:3])))


def arcrole(n):
    # a network of standalone nodes has no arcrole of its own
    if all(not r.get_children() for r in n.get_roots()): return "unknown"
    roles = set()
    def walk(x):
        for c in x.get_children():
            roles.add(c.get_arc_role()); walk(c)
    for r in n.get_roots(): walk(r)
    if len(roles) == 1: return roles.pop()
    return tuple(sorted(roles))


def case(kinds):
    def go(env):
        R = report(env, networks=1, kinds=kinds, footnotes=1 if "footnote" in kinds else 0, nels=env.rng.choice([6, 12, 20]), nfacts=6)
        F = open_report(env, R)
        compare(env, R, F, kinds)
    return go


CASES = dict(presentation=case(["presentation"]), calculation=case(["calculation"]), definition=case(["definition"]), label=case(["label"]), reference=case(["reference"]), footnote=case(["footnote"]), all=case(["presentation", "calculation", "definition", "label", "reference"]))


def cycles(env):
    """relationships that lead back: below a root, every relationship is still there, once per arc"""
    r = env.rng
    R = Report(r, nels=12, nfacts=2, networks=1, kinds=["reference"])
    from bounded.xmlgen import Obj, ARC
    kind = r.choice(["presentation", "definition"])
    pool = R.reals()
    r.shuffle(pool)
    n = r.choice([3, 4, 5])
    if len(pool) < n: return
    for x in pool[:n]:
        if not x.id: return
    l = Obj(kind=kind, role="http://acme.com/role/R0", nodes=[], arcs=[], name=kind + "Link", arcname=kind + "Arc")
    l.nodes = [Obj(label="n%d" % i, el=e, res=None) for i, e in enumerate(pool[:n])]
    pairs = [(0, 1)] + [(r.randrange(1, i), i) for i in range(2, n)]
    back = r.choice(pairs[1:])
    for a, b in pairs + [(back[1], back[0])]:
        o = {1: "2", 2: "1"}.get(b, str(b))
        l.arcs.append(Obj(frm="n%d" % a, to="n%d" % b, arcrole=ARC[kind][0], order=o, weight=None, pref=None))
    r.shuffle(l.arcs)
    l.nodeorder = l.nodes[:]
    r.shuffle(l.nodeorder)
    R.links = [l]
    d = os.path.join(env.dir, "r")
    os.makedirs(d)
    R.write(d)
    env.files, R.dir = R.files, d
    F = open_report(env, R)
    name = {x.label: x.el.clark for x in l.nodes}
    want = {(name[a.frm], name[a.to], float(a.order)) for a in l.arcs}
    for logical in (True, False) if kind == "definition" else (True,):
        nets = observed(F, kind, logical)
        expect(len(nets) == 1, "cyclenet", "%d networks" % len(nets), kind)
        expect([O.target(x)[1] for x in nets[0].get_roots()] == [name["n0"]], "cycleroot", "roots", [O.target(x) for x in nets[0].get_roots()])
        seen, got, todo = set(), set(), list(nets[0].get_roots())
        while todo:
            x = todo.pop()
            if id(x) in seen: continue
            seen.add(id(x))
            for c in x.get_children():
                got.add((O.target(x)[1], O.target(c)[1], float(c.get_order())))
                todo.append(c)
        expect(got == want, "cycle", "relationships of a network with a cycle", "missing %s surplus %s" % (want - got, got - want))


CASES["cycles"] = cycles
