"""C07 - the nodes of a network say what the arcs of the link say (one node, given its link, locator and arc)."""
from typing import Optional, cast
from lxml import etree
from lxml.etree import _Element
from contracts.dsl import law, assume, raises, outcome
from brel import QName
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.networks import (CalculationNetwork, CalculationNetworkNode, DefinitionNetwork, DefinitionNetworkNode, PresentationNetwork, PresentationNetworkNode, INetworkNode)
from brel.parsers.XML.networks import (CalculationNetworkFactory, LogicalDefinitionNetworkFactory, PhysicalDefinitionNetworkFactory, PresentationNetworkFactory)
from brel.qnames.qname_utils import qname_from_str
from brel.reportelements import Concept, IReportElement
from brel.resource import BrelLabel

XLINK = "{http://www.w3.org/1999/xlink}"
NS = {"link": "http://www.xbrl.org/2003/linkbase", "xlink": "http://www.w3.org/1999/xlink", None: "http://d"}


def link_element(g):
    e = etree.Element("{http://www.xbrl.org/2003/linkbase}calculationLink", nsmap=NS)
    if g.r.random() < .9:
        e.set(XLINK + "role", g.r.choice(["http://r/1", "http://r/2"]))
    return e


def locator_element(g):
    e = etree.Element("{http://www.xbrl.org/2003/linkbase}loc", nsmap=NS)
    if g.r.random() < .95:
        e.set(XLINK + "label", g.r.choice(["a", "b", "c"]))
    return e


def arc_element(g):
    r = g.r
    e = etree.Element(r.choice(["{http://www.xbrl.org/2003/linkbase}calculationArc", "{http://d}myArc"]), nsmap=NS)
    for k, vs, p in ((XLINK + "from", "abc", .95), (XLINK + "to", "abc", .95), (XLINK + "arcrole", ["http://ar/1", "http://ar/2"], .95),
                     ("order", ["1", "0", "2.5", "-1", "x", "", "1e1"], .6), ("weight", ["1", "-1.0", "0", "0.5", "x", ""], .6), ("preferredLabel", ["http://pl/1", ""], .4)):
        if r.random() < p:
            e.set(k, r.choice(list(vs)))
    return e


PURE = ["brel.qnames.qname_utils:qname_from_str"]
GENERATORS = {"link": link_element, "loc": locator_element, "arc": arc_element}


def points_from(loc: _Element, arc: _Element) -> bool:
    return loc.get(XLINK + "label") is not None and arc.get(XLINK + "from") == loc.get(XLINK + "label")


def points_to(loc: _Element, arc: _Element) -> bool:
    return loc.get(XLINK + "label") is not None and arc.get(XLINK + "from") != loc.get(XLINK + "label") and arc.get(XLINK + "to") == loc.get(XLINK + "label")


def complete(link: _Element, arc: _Element) -> bool:
    return link.get(XLINK + "role") is not None and arc.get(XLINK + "arcrole") is not None and arc.get(XLINK + "from") is not None


def number(t: Optional[str], default: float) -> float:
    return default if t is None or t == "" else float(t)


# ------------------------------------------------------------------ calculation
@law("C07")
def node_at_the_end_of_a_calculation_arc(link: _Element, loc: _Element, arc: _Element, k: Concept):
    assume(complete(link, arc))
    assume(points_to(loc, arc))
    assume(arc.get("order") != "")
    n = outcome(CalculationNetworkFactory().create_node, link, loc, arc, k, InMemoryErrorRepository())
    w = outcome(number, arc.get("weight"), 0.0)
    o = outcome(number, arc.get("order"), 1.0)
    if w[0] == "ok" and o[0] == "ok":
        assert n[0] == "ok"
        node = cast(CalculationNetworkNode, n[1])
        assert node.get_weight() == w[1]
        assert node.get_order() == o[1]
        assert node.get_concept() is k
        assert node.get_arc_role() == arc.get(XLINK + "arcrole")
        assert node.get_arc_name() == qname_from_str(arc.tag, arc)
        assert node.get_link_role() == link.get(XLINK + "role")
        assert node.get_link_name() == qname_from_str(link.tag, link)
        assert len(node.get_children()) == 0
    else:
        assert n[0] == "raise"


@law("C07")
def node_at_the_start_of_a_calculation_arc(link: _Element, loc: _Element, arc: _Element, k: Concept):
    assume(complete(link, arc))
    assume(points_from(loc, arc))
    node = cast(CalculationNetworkNode, CalculationNetworkFactory().create_node(link, loc, arc, k, InMemoryErrorRepository()))
    assert node.get_concept() is k
    assert node.get_arc_role() == arc.get(XLINK + "arcrole")
    assert node.get_arc_name() == qname_from_str(arc.tag, arc)
    assert node.get_link_role() == link.get(XLINK + "role")
    assert node.get_link_name() == qname_from_str(link.tag, link)
    assert len(node.get_children()) == 0


@law("C07")
def node_of_another_calculation_arc(link: _Element, loc: _Element, arc: _Element, k: Concept):
    assume(complete(link, arc) and loc.get(XLINK + "label") is not None)
    assume(arc.get(XLINK + "from") != loc.get(XLINK + "label"))
    assume(arc.get(XLINK + "to") != loc.get(XLINK + "label"))
    assert raises(CalculationNetworkFactory().create_node, link, loc, arc, k, InMemoryErrorRepository())


@law("C07")
def calculation_node_without_arc(link: _Element, loc: _Element, k: Concept):
    assume(link.get(XLINK + "role") is not None and loc.get(XLINK + "label") is not None)
    n = outcome(CalculationNetworkFactory().create_node, link, loc, None, k, InMemoryErrorRepository())
    assume(n[0] == "ok")
    node = cast(CalculationNetworkNode, n[1])
    assert node.get_concept() is k
    assert node.get_link_role() == link.get(XLINK + "role")
    assert node.get_link_name() == qname_from_str(link.tag, link)
    assert len(node.get_children()) == 0


# ------------------------------------------------------------------ presentation
@law("C07")
def node_at_the_end_of_a_presentation_arc(link: _Element, loc: _Element, arc: _Element, k: IReportElement):
    assume(complete(link, arc))
    assume(points_to(loc, arc))
    assume(arc.get("order") != "")
    n = outcome(PresentationNetworkFactory().create_node, link, loc, arc, k, InMemoryErrorRepository())
    o = outcome(number, arc.get("order"), 1.0)
    if o[0] == "ok":
        assert n[0] == "ok"
        node = cast(PresentationNetworkNode, n[1])
        assert node.get_order() == o[1]
        assert node.get_report_element() is k
        if arc.get("preferredLabel") is not None:
            assert node.get_preferred_label_role() == arc.get("preferredLabel")
        assert node.get_arc_role() == arc.get(XLINK + "arcrole")
        assert node.get_arc_name() == qname_from_str(arc.tag, arc)
        assert node.get_link_role() == link.get(XLINK + "role")
        assert node.get_link_name() == qname_from_str(link.tag, link)
        assert len(node.get_children()) == 0
    else:
        assert n[0] == "raise"


@law("C07")
def node_at_the_start_of_a_presentation_arc(link: _Element, loc: _Element, arc: _Element, k: IReportElement):
    assume(complete(link, arc))
    assume(points_from(loc, arc))
    node = cast(PresentationNetworkNode, PresentationNetworkFactory().create_node(link, loc, arc, k, InMemoryErrorRepository()))
    assert node.get_report_element() is k
    assert node.get_arc_role() == arc.get(XLINK + "arcrole")
    assert node.get_arc_name() == qname_from_str(arc.tag, arc)
    assert node.get_link_role() == link.get(XLINK + "role")
    assert node.get_link_name() == qname_from_str(link.tag, link)
    assert len(node.get_children()) == 0


@law("C07")
def node_of_another_presentation_arc(link: _Element, loc: _Element, arc: _Element, k: IReportElement):
    assume(complete(link, arc) and loc.get(XLINK + "label") is not None)
    assume(arc.get(XLINK + "from") != loc.get(XLINK + "label"))
    assume(arc.get(XLINK + "to") != loc.get(XLINK + "label"))
    assert raises(PresentationNetworkFactory().create_node, link, loc, arc, k, InMemoryErrorRepository())


# ------------------------------------------------------------------ definition
@law("C07")
def node_at_the_end_of_a_definition_arc(link: _Element, loc: _Element, arc: _Element, k: IReportElement, physical: bool):
    assume(complete(link, arc))
    assume(points_to(loc, arc))
    if physical:
        n = outcome(PhysicalDefinitionNetworkFactory().create_node, link, loc, arc, k, InMemoryErrorRepository())
    else:
        n = outcome(LogicalDefinitionNetworkFactory().create_node, link, loc, arc, k, InMemoryErrorRepository())
    o = outcome(number, arc.get("order"), 1.0)
    if o[0] == "ok":
        assert n[0] == "ok"
        node = cast(DefinitionNetworkNode, n[1])
        assert node.get_order() == o[1]
        assert node.get_report_element() is k
        assert node.get_arc_role() == arc.get(XLINK + "arcrole")
        assert node.get_arc_name() == qname_from_str(arc.tag, arc)
        assert node.get_link_role() == link.get(XLINK + "role")
        assert node.get_link_name() == qname_from_str(link.tag, link)
        assert len(node.get_children()) == 0
    else:
        assert n[0] == "raise"


@law("C07")
def node_at_the_start_of_a_definition_arc(link: _Element, loc: _Element, arc: _Element, k: IReportElement, physical: bool):
    assume(complete(link, arc))
    assume(points_from(loc, arc))
    if physical:
        n = PhysicalDefinitionNetworkFactory().create_node(link, loc, arc, k, InMemoryErrorRepository())
    else:
        n = LogicalDefinitionNetworkFactory().create_node(link, loc, arc, k, InMemoryErrorRepository())
    node = cast(DefinitionNetworkNode, n)
    assert node.get_report_element() is k
    assert node.get_arc_role() == arc.get(XLINK + "arcrole")
    assert node.get_arc_name() == qname_from_str(arc.tag, arc)
    assert node.get_link_role() == link.get(XLINK + "role")
    assert node.get_link_name() == qname_from_str(link.tag, link)
    assert len(node.get_children()) == 0


# ------------------------------------------------------------------ children
@law("C07", bounded=True)
def children_are_kept_in_order(n: CalculationNetworkNode, c: CalculationNetworkNode, d: CalculationNetworkNode):
    m = CalculationNetworkNode(n.get_concept(), [], "r", n.get_arc_name(), "l", n.get_link_name(), 1.0, 1)
    want: list[CalculationNetworkNode] = []
    for x in (c, d, n):
        m._add_child(x)
        want = [y for y in want if y.get_order() <= x.get_order()] + [x] + [y for y in want if y.get_order() > x.get_order()]
        assert len(m.get_children()) == len(want)
        assert all(a is b for a, b in zip(m.get_children(), want))


@law("C07")
def an_added_child_is_a_child(n: CalculationNetworkNode, c: CalculationNetworkNode, d: CalculationNetworkNode):
    m = CalculationNetworkNode(n.get_concept(), [], "r", n.get_arc_name(), "l", n.get_link_name(), 1.0, 1)
    m._add_child(c)
    m._add_child(d)
    assert len(m.get_children()) == 2
    assert any(x is c for x in m.get_children())
    assert any(x is d for x in m.get_children())
    assert m.get_children()[0].get_order() <= m.get_children()[1].get_order()


# ------------------------------------------------------------------ networks
@law("C07")
def network_of_a_calculation_link(link: _Element, roots: list[CalculationNetworkNode]):
    assume(link.get(XLINK + "role") is not None)
    if len(roots) == 0:
        assert raises(CalculationNetworkFactory().create_network, link, roots)
    else:
        n = CalculationNetworkFactory().create_network(link, roots)
        assert n.get_link_role() == link.get(XLINK + "role")
        assert n.get_roots() == roots
        assert not n.is_physical()


@law("C07")
def network_of_a_definition_link(link: _Element, roots: list[DefinitionNetworkNode]):
    assume(link.get(XLINK + "role") is not None and len(roots) > 0)
    n = LogicalDefinitionNetworkFactory().create_network(link, roots)
    assert n.get_link_role() == link.get(XLINK + "role")
    assert n.get_roots() == roots
    assert not n.is_physical()
    m = PhysicalDefinitionNetworkFactory().create_network(link, roots)
    assert m.get_link_role() == link.get(XLINK + "role")
    assert m.get_roots() == roots
    assert m.is_physical()


@law("C07")
def network_of_a_presentation_link(link: _Element, roots: list[PresentationNetworkNode]):
    assume(link.get(XLINK + "role") is not None)
    n = PresentationNetworkFactory().create_network(link, roots)
    assert n.get_link_role() == link.get(XLINK + "role")
    assert n.get_roots() == roots
