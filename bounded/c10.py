from bounded.common import *
import copy

RULE = "random opened reports with malformed parts, labels, networks and roles; every query compared with a filter over the stored lists"


def same(a, b): return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def state(F):
    c = context(F)
    return ([id(x) for x in F.get_all_facts()], [id(x) for x in F.get_all_report_elements()], [id(x) for x in F.get_all_components()], [id(x) for x in c.get_network_repository().get_all()], [id(x) for x in F.get_all_errors()],
            [O.obs_fact(x) for x in F.get_all_facts()], [len(e.get_labels()) for e in F.get_all_report_elements()])


def queries(env):
    r = env.rng
    R = report(env, networks=r.choice([0, 1]), labels=r.choice([0, 1]), roles=1, malformed=r.choice([0, 1]), baddecl=r.choice([0, 1]), nels=r.choice([8, 16]), nfacts=8)
    F = open_report(env, R)
    from brel import QName
    from brel.errors.severity import Severity
    from brel.errors.area import Area
    from brel.reportelements import Concept, Abstract, LineItems, Hypercube, Dimension, Member
    s0 = state(F)
    facts, els, comps, errs = F.get_all_facts(), F.get_all_report_elements(), F.get_all_components(), F.get_all_errors()
    for k, q in ((Concept, F.get_all_concepts), (Abstract, F.get_all_abstracts), (LineItems, F.get_all_line_items), (Hypercube, F.get_all_hypercubes), (Dimension, F.get_all_dimensions), (Member, F.get_all_members)):
        expect(same(q(), [x for x in els if type(x) is k]), "kinds", q.__name__, k.__name__)
    inuse = []
    for f in facts:
        if not any(x is f.get_concept() for x in inuse): inuse.append(f.get_concept())
    expect(same(F.get_all_reported_concepts(), inuse), "reported", "get_all_reported_concepts", [str(x) for x in F.get_all_reported_concepts()])
    core = [f for f in facts if not any(a[0] in ("explicit", "typed") for a in O.obs_aspects(f))]
    expect(same(F.get_all_core_facts(), core), "core", "get_all_core_facts", "")
    prefix = {n.uri: n.prefix for n in R.nss}
    for e in els:
        n = e.get_name()
        names = [n, "{%s}%s" % (n.get_URL(), n.get_local_name()), QName(n.get_URL(), "other", n.get_local_name())]
        p = [u for u in prefix if prefix[u] == n.prefix]
        if p == [n.get_URL()]: names.append(n.prefix + ":" + n.get_local_name())
        alone = sum(1 for x in els if x.get_name().get_local_name() == n.get_local_name()) == 1
        if alone: names.append(n.get_local_name())
        for q in names:
            expect(F.get_report_element_by_name(q) is e, "byname", "get_report_element_by_name", (q, type(q).__name__))
            if isinstance(e, Concept):
                expect(F.get_concept(q) is e and F.get_concept_by_name(q) is e, "byname", "get_concept", str(q))
                mine = [f for f in facts if f.get_concept() is e]
                expect(same(F.get_facts_by_concept_name(q), mine), "factsof", "get_facts_by_concept_name", str(q))
                expect(same(F.get_facts_by_concept(e), mine), "factsof", "get_facts_by_concept", str(q))
            else:
                for g in (F.get_concept, F.get_facts_by_concept_name):
                    try: x = g(q)
                    except Exception: x = None
                    expect(x is None or x == [], "nonconcept", "%s answers for an element that is no concept" % g.__name__, str(q))
    for q in ("NoSuchName", "{http://t0.com/a}Nope", QName("http://t0.com/a", "a", "Nope"), "nopfx:E0"):
        for g in (F.get_report_element_by_name, F.get_concept, F.get_facts_by_concept_name):
            try: x = g(q)
            except Exception: x = None
            expect(x is None or x == [], "absent", "%s answers for an unknown name" % g.__name__, (str(q), str(x)))
    for s in Severity:
        expect(same(F.get_errors_by_severity(s), [x for x in errs if x.get_severity() is s]), "severity", "get_errors_by_severity", s)
    expect(same(F.get_errors(), [x for x in errs if x.get_severity() is Severity.ERROR]) and same(F.get_warnings(), [x for x in errs if x.get_severity() is Severity.WARNING]) and same(F.get_infos(), [x for x in errs if x.get_severity() is Severity.INFO]), "severity", "get_errors/warnings/infos", "")
    for a in Area:
        expect(same(F.get_errors_by_area(a), [x for x in errs if x.get_area() is a]), "area", "get_errors_by_area", a)
    expect(F.has_any_errors() == bool(errs), "any", "has_any_errors", "")
    expect(F.get_all_component_uris() == [c.get_URI() for c in comps], "uris", "get_all_component_uris", "")
    for c in comps: expect(F.get_component(c.get_URI()) is c, "component", "get_component", c.get_URI())
    nets = context(F).get_network_repository()
    allnets = nets.get_all()
    expect(same(F.get_all_physical_networks(), [n for n in allnets if n.is_physical()]), "physical", "get_all_physical_networks", "")
    for role in {n.get_link_role() for n in allnets} | {"http://nowhere"}:
        expect(same(nets.get_by_linkrole(role), [n for n in allnets if n.get_link_role() == role]), "byrole", "get_by_linkrole", role)
    for t in {type(n) for n in allnets}:
        expect(same(nets.get_by_type(t), [n for n in allnets if type(n) is t]), "bytype", "get_by_type", t)
    expect(state(F) == s0, "unchanged", "a query altered the report", "")


CASES = dict(queries=queries)
