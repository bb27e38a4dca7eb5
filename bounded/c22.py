from bounded.common import *
from collections import Counter

RULE = "random role declarations and extended links (several documents, roles without links, links without roles, undeclared kinds)"


def components(env):
    R = report(env, networks=1, roles=1, merge=env.rng.random() < .3, labels=env.rng.choice([0, 1]), nels=env.rng.choice([6, 12]), nfacts=2)
    F = open_report(env, R)
    cs = F.get_all_components()
    e, o = Counter(x.uri for x in R.roles), Counter(c.get_URI() for c in cs)
    expect(e == o, "roles", "components differ from the declared roles", "%s\n%s" % (e, o))
    nets = context(F).get_network_repository().get_all()
    need = []
    for c in cs:
        r = next(x for x in R.roles if x.uri == c.get_URI())
        expect(c.get_info() == (r.info or ""), "info", "definition text", "%r %r" % (c.get_info(), r.info))
        got = []
        for kind, get, has, cls in (("presentation", c.get_presentation_network, c.has_presentation_network, "PresentationNetwork"), ("calculation", c.get_calculation_network, c.has_calculation_network, "CalculationNetwork"), ("definition", c.get_definition_network, c.has_definition_network, "DefinitionNetwork")):
            links = [l for l in R.links if l.kind == kind and l.role == r.uri]
            n = get()
            expect(has() == (n is not None), "has", "has_%s_network disagrees" % kind, (has(), n))
            expect((n is not None) == bool(links), "network", "%s network of %s" % (kind, r.uri), "links %s, network %s" % (len(links), n))
            if n is not None:
                expect(type(n).__name__ == cls and n.get_link_role() == r.uri and not (kind == "definition" and n.is_physical()), "kind", "wrong network for %s" % r.uri, (kind, type(n).__name__, n.get_link_role(), n.is_physical()))
                expect(any(n is x for x in nets), "own", "not one of the networks read", kind)
                cand = [x for x in nets if type(x).__name__ == cls and x.get_link_role() == r.uri and (kind != "definition" or not x.is_physical())]
                expect(len(cand) == 1 and cand[0] is n, "only", "several networks of one role and kind", (kind, len(cand)))
                got.append(n)
            if links and kind + "Link" not in r.used:
                need.append("%s_NETWORK_IN_COMPONENT_WITHOUT_USEDON_ELEMENT" % kind.upper())
        expect(len(c.get_networks()) == len(got) and all(a is b for a, b in zip(c.get_networks(), got)), "networks", "get_networks", c.get_URI())
        expect(F.get_component(c.get_URI()) is c, "byuri", "get_component", c.get_URI())
    miss, extra = O.diff_multiset(need + R.warned(), codes(F.get_all_errors()))
    expect(not miss and not extra, "diagnostics", "missing usedOn diagnostics", "missing %s surplus %s" % (miss, extra))
    try:
        F.get_component("http://acme.com/role/nowhere")
        expect(False, "absent", "a component for an undeclared role", "")
    except ValueError: pass


def ambiguous(env):
    """the rule for several networks, on the function that decides it"""
    import lxml.etree
    from brel.parsers.XML.xml_component_parser import parse_component_from_xml
    R = report(env, networks=1, roles=1, nels=8, nfacts=1, kinds=["presentation", "calculation", "definition"])
    F = open_report(env, R)
    ctx = context(F)
    repo = ctx.get_network_repository()
    before = len(F.get_all_errors())
    n = env.rng.choice([x for x in repo.get_all()] or [None])
    if n is None: return
    repo.upsert(n)
    role = n.get_link_role()
    x = lxml.etree.fromstring('<l:roleType xmlns:l="%s" roleURI="%s"><l:usedOn>l:presentationLink</l:usedOn><l:usedOn>l:calculationLink</l:usedOn><l:usedOn>l:definitionLink</l:usedOn></l:roleType>' % (O.LINKNS, role))
    c = parse_component_from_xml(ctx, x)
    kind = type(n).__name__.replace("Network", "").upper()
    mine = c.get_presentation_network() if kind == "PRESENTATION" else c.get_calculation_network() if kind == "CALCULATION" else c.get_definition_network()
    if not (kind == "DEFINITION" and n.is_physical()):
        expect(mine is n, "oneof", "with several networks the component has none of them", (kind, mine))
    want = [] if kind == "DEFINITION" and n.is_physical() else ["MULTIPLE_%s_NETWORKS_IN_COMPONENT" % kind]
    expect(codes(F.get_all_errors()[before:]) == want, "ambiguous", "several networks of one role and kind", "%s, expected %s" % (codes(F.get_all_errors()[before:]), want))


CASES = dict(components=components, ambiguous=ambiguous)
WEIGHTS = dict(components=4)
