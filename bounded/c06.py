"""C06 - aggregation consistency, on objects and on opened reports"""
from decimal import Decimal
from bounded.common import *

RULE = "random calculation networks (trees, shared nodes, repeated concepts) and fact sets in several contexts (periods, entities, units, dimensions), made consistent and then perturbed; compared with the definition computed in exact decimal arithmetic"


class Bad(Exception):
    pass


def key(f):
    """all aspects but the concept"""
    from brel.characteristics import Aspect
    return [(a, f.get_characteristic(a)) for a in f.get_aspects() if a != Aspect.CONCEPT]


def agree(a, b):
    x, y = dict(key(a)), dict(key(b))
    return x.keys() == y.keys() and all(x[k] == y[k] for k in x)


def node_ok(n, facts):
    ch = n.get_children()
    if not ch: return True
    for f in facts:
        if f.get_concept().get_name() != n.get_concept().get_name(): continue
        total = Decimal(0)
        for c in ch:
            m = [g for g in facts if g.get_concept().get_name() == c.get_concept().get_name() and agree(f, g)]
            if len(m) != 1: raise Bad("%d facts for %s" % (len(m), c.get_concept()))
            total += Decimal(str(m[0])) * Decimal(repr(c.get_weight()))
        if total != Decimal(str(f)): return False
    return all(node_ok(c, facts) for c in ch)


def all_verdicts(net, facts):
    """every verdict the definition allows: a network can be both inconsistent somewhere and ambiguous elsewhere"""
    out = set()

    def walk(n):
        ch = n.get_children()
        if not ch: return
        for f in facts:
            if f.get_concept().get_name() != n.get_concept().get_name(): continue
            total, bad = Decimal(0), False
            for c in ch:
                m = [g for g in facts if g.get_concept().get_name() == c.get_concept().get_name() and agree(f, g)]
                if len(m) != 1: bad = True
                else: total += Decimal(str(m[0])) * Decimal(repr(c.get_weight()))
            if bad: out.add("error")
            elif total != Decimal(str(f)): out.add("inconsistent")
        for c in ch: walk(c)
    for r in net.get_roots(): walk(r)
    return out or {"consistent"}


def build(env):
    from brel import QName, Context, Fact
    from brel.reportelements import Concept, Dimension, Member
    from brel.characteristics import (Aspect, ConceptCharacteristic as C, PeriodCharacteristic as P, EntityCharacteristic as E, UnitCharacteristic as U, ExplicitDimensionCharacteristic as X, TypedDimensionCharacteristic as T)
    from brel.networks import CalculationNetwork, CalculationNetworkNode as N
    r = env.rng
    qn = QName("http://l", "link", "l")
    concepts = [Concept(QName("http://t", "t", "C%d" % i), None, [], "instant", "debit", False, "xbrli:monetaryItemType") for i in range(r.randint(2, 8))]
    weights = [1.0, 1.0, -1.0, 0.5, 2.0, 0.1, 0.0]
    made = []
    free = list(concepts)

    def node(depth, c):
        n = N(c, [], "a", qn, "r", qn, r.choice(weights), float(r.randint(1, 5)))
        k = 0 if depth == 0 else r.choice([0, 1, 2, 3])
        for _ in range(k):
            if made and r.random() < .1 and made[-1] is not n: x = r.choice(made)
            elif free: x = node(depth - 1, free.pop(0))
            else: break
            n._add_child(x)
        made.append(n)
        return n
    roots = []
    for _ in range(r.choice([1, 1, 2])):
        if free: roots.append(node(r.choice([1, 2, 3]), free.pop(0)))
    if not roots: roots = [node(0, concepts[0])]
    net = CalculationNetwork(roots, "r", qn, False)
    dims = [Dimension(QName("http://t", "t", "D%d" % i), None, []) for i in range(2)]
    mems = [Member(QName("http://t", "t", "M%d" % i), None, []) for i in range(2)]
    asp = [Aspect("t:D%d" % i, []) for i in range(2)]
    settings = []
    for _ in range(r.choice([1, 1, 2, 3])):
        s = [P._instant(r.choice(["2020-12-31", "2021-12-31"])) if r.random() < .7 else P._duration("2020-01-01", r.choice(["2020-12-31", "2021-12-31"])),
             E(r.choice(["a", "b"]), r.choice(["http://s", "http://z"]))]
        if r.random() < .8: s.append(U(r.choice(["usd", "eur"]), [QName("http://i", "i", "USD")], []))
        for i in range(2):
            x = r.random()
            if x < .2: s.append(X(dims[i], r.choice(mems), asp[i]))
            elif x < .3: s.append(T(dims[i], r.choice(["1", "2"]), asp[i]))
        if not any(str(s) == str(t) and len(s) == len(t) for t in settings): settings.append(s)
    facts = []

    def add(c, s, v):
        x = Context("c%d" % len(facts))
        for y in r.sample(s + [C(c)], len(s) + 1): x._add_characteristic(y)
        facts.append(Fact(x, v, "f%d" % len(facts) if r.random() < .8 else None))

    big = r.random() < .15

    def num():
        x = r.random()
        if big: return Decimal(r.randint(10 ** 10, 10 ** 12)) / r.choice([1, 100])
        if x < .6: return Decimal(r.randint(-20, 20))
        if x < .9: return Decimal(r.randint(-999, 999)) / 100
        return Decimal(r.randint(1, 999999)) / 1000
    for s in settings:
        if r.random() < .1: continue
        vals = {}
        # post order: made lists children before parents; shared nodes are computed once
        for n in made:
            c = n.get_concept()
            ch = n.get_children()
            vals[str(c.get_name())] = sum((vals[str(x.get_concept().get_name())] * Decimal(repr(x.get_weight())) for x in ch), Decimal(0)) if ch else num()
        parentless = r.random() < .15
        for n in made:
            c = n.get_concept()
            if n.get_children() and parentless and r.random() < .5: continue
            if r.random() < .04: continue
            v = vals[str(c.get_name())]
            x = r.random()
            if x < (.2 if big else .05): v += r.choice([Decimal(1), Decimal("0.01"), Decimal("-0.1"), Decimal("1e-6") if abs(v) < 1000 else Decimal("0.01"), -v * 2])
            v = v.normalize()
            t = format(v, "f")
            if "." not in t and r.random() < .1: t += ".0"
            add(c, s, t)
            if r.random() < .02: add(c, s, t)
    r.shuffle(facts)
    return net, facts


def objects(env):
    net, facts = build(env)
    env.digest = (O.canon_roots(net) if hasattr(O, "canon_roots") else len(net.get_all_nodes()), [(str(f), str(f.get_concept()), len(f.get_aspects())) for f in facts])
    if any(len(str(f).replace("-", "").replace(".", "")) > 15 for f in facts): return
    want = all_verdicts(net, facts)
    before = [(str(f), f.get_id(), [str(a) for a in f.get_aspects()]) for f in facts], [id(f) for f in facts]
    for _ in range(2):
        try: got = "consistent" if net.is_aggregation_consistent(facts) else "inconsistent"
        except (ValueError, RecursionError) as e: got = "error"
        expect(got in want, "verdict", "reported %s, by definition %s" % (got, sorted(want)), show(net, facts))
    expect(([(str(f), f.get_id(), [str(a) for a in f.get_aspects()]) for f in facts], [id(f) for f in facts]) == before, "unchanged", "the check changed the facts", "")


def show(net, facts):
    def t(n, d=0): return "  " * d + "%s w=%s\n" % (n.get_concept(), n.get_weight()) + "".join(t(c, d + 1) for c in n.get_children())
    return "".join(t(r) for r in net.get_roots()) + "\n".join("%s = %s  %s" % (f.get_concept(), f, [(str(a), str(f.get_characteristic(a))) for a in f.get_aspects()][1:]) for f in facts)


def reports(env):
    R = report(env, networks=1, kinds=["calculation"], calcvals=True, nfacts=12)
    F = open_report(env, R)
    facts = F.get_all_facts()
    from brel.networks import CalculationNetwork
    for n in context(F).get_network_repository().get_all():
        if not isinstance(n, CalculationNetwork): continue
        def numeric(x):
            try: Decimal(str(x)); return len(str(x)) < 15
            except Exception: return False
        fs = [f for f in facts if numeric(f)]
        want = all_verdicts(n, fs)
        try: got = "consistent" if n.is_aggregation_consistent(fs) else "inconsistent"
        except ValueError: got = "error"
        expect(got in want, "verdict", "reported %s, by definition %s" % (got, sorted(want)), show(n, fs))


CASES = dict(objects=objects, reports=reports)
WEIGHTS = dict(objects=4)
