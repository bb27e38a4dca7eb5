"""C09 - merging the links of one role keeps every relationship (parts of it)."""
from typing import cast
from contracts.dsl import law, assume, raises, implies
from brel.networks import (CalculationNetwork, CalculationNetworkNode, DefinitionNetwork, DefinitionNetworkNode, FootnoteNetworkNode, INetwork, INetworkNode, LabelNetworkNode,
                           PresentationNetwork, PresentationNetworkNode, ReferenceNetworkNode)
from brel.parsers.utils.network_utils import combine_networks, nodes_equal


@law("C09")
def calculation_nodes_are_equal_when_their_elements_are(a: CalculationNetworkNode, b: CalculationNetworkNode):
    assert nodes_equal(a, b) == (a.get_report_element() == b.get_report_element())


@law("C09")
def presentation_nodes_are_equal_when_their_elements_are(a: PresentationNetworkNode, b: PresentationNetworkNode):
    assert nodes_equal(a, b) == (a.get_report_element() == b.get_report_element())


@law("C09")
def definition_nodes_are_equal_when_their_elements_are(a: DefinitionNetworkNode, b: DefinitionNetworkNode):
    assert nodes_equal(a, b) == (a.get_report_element() == b.get_report_element())


@law("C09")
def label_nodes_are_equal_when_what_they_show_is(a: LabelNetworkNode, b: LabelNetworkNode):
    if a.points_to() != b.points_to():
        assert not nodes_equal(a, b)
    elif a.points_to() == "resource":
        assert nodes_equal(a, b) == (a.get_resource() == b.get_resource())
    else:
        assert nodes_equal(a, b) == (a.get_report_element() == b.get_report_element())


@law("C09")
def footnote_nodes_are_equal_when_what_they_show_is(a: FootnoteNetworkNode, b: FootnoteNetworkNode):
    if a.points_to() != b.points_to():
        assert not nodes_equal(a, b)
    elif a.points_to() == "resource":
        assert nodes_equal(a, b) == (a.get_resource() == b.get_resource())
    elif a.points_to() == "fact":
        assert nodes_equal(a, b) == (a.get_fact() == b.get_fact())
    else:
        assert nodes_equal(a, b) == (a.get_report_element() == b.get_report_element())


@law("C09")
def nodes_of_different_kinds_are_different(a: CalculationNetworkNode, b: PresentationNetworkNode, c: DefinitionNetworkNode):
    assert not nodes_equal(a, b)
    assert not nodes_equal(b, c)
    assert not nodes_equal(c, a)


@law("C09")
def one_network_is_left_alone(n: CalculationNetwork):
    roots = n.get_roots()
    m = combine_networks([n])
    assert m is n
    assert m.get_roots() == roots


@law("C09")
def there_is_no_network_without_networks(n: CalculationNetwork):
    assert raises(combine_networks, [])


def leaf(n: CalculationNetworkNode, order: float) -> CalculationNetworkNode:
    return CalculationNetworkNode(n.get_report_element(), [], n.get_arc_role(), n.get_arc_name(), n.get_link_role(), n.get_link_name(), n.get_weight(), order)


def edges(n: INetworkNode) -> list:
    """the relationships below a node, as pairs of elements"""
    r = []
    for c in n.get_children():
        r.append((n.get_report_element(), c.get_report_element(), c.get_order(), cast(CalculationNetworkNode, c).get_weight(), c.get_arc_role()))
        r.extend(edges(c))
    return r


@law("C09", bounded=True)
def merging_keeps_every_relationship(pieces: list[CalculationNetworkNode]):
    # a tree over the distinct elements of the nodes, cut into networks at random places (given by the weights)
    els: list = []
    for p in pieces:
        if not any(p.get_report_element() == q.get_report_element() for q in els):
            els.append(p)
    assume(len(els) >= 2)
    nets: list[INetwork] = []
    want = []
    for i, p in enumerate(els):
        if i > 0:
            parent, child = leaf(els[(i * 7 + len(pieces)) % i], 1), leaf(p, float(i))
            parent._add_child(child)
            want += edges(parent)
            nets.append(CalculationNetwork([parent], "role", p.get_link_name(), False))
    got = []
    merged = combine_networks(nets)
    for r in merged.get_roots():
        got += edges(r)
    assert len(got) == len(want)
    assert all(any(x == y for y in want) for x in got) and all(any(x == y for y in got) for x in want)
    assert len(merged.get_roots()) == 1


@law("C09", bounded=True)
def two_relationships_of_one_parent(a: CalculationNetworkNode, b: CalculationNetworkNode, c: CalculationNetworkNode):
    assume(not (a.get_report_element() == b.get_report_element()) and not (a.get_report_element() == c.get_report_element()) and not (b.get_report_element() == c.get_report_element()))
    p, q, x, y = leaf(a, 1), leaf(a, 1), leaf(b, 1.0), leaf(c, 2.0)
    p._add_child(x)
    q._add_child(y)
    m = combine_networks([CalculationNetwork([p], "role", a.get_link_name(), False), CalculationNetwork([q], "role", a.get_link_name(), False)])
    assert len(m.get_roots()) == 1
    r = m.get_roots()[0]
    assert r.get_report_element() == a.get_report_element()
    assert len(r.get_children()) == 2
    assert r.get_children()[0] is x
    assert r.get_children()[1] is y


@law("C09", bounded=True)
def a_relationship_below_another(a: CalculationNetworkNode, b: CalculationNetworkNode, c: CalculationNetworkNode, swap: bool):
    assume(not (a.get_report_element() == b.get_report_element()) and not (a.get_report_element() == c.get_report_element()) and not (b.get_report_element() == c.get_report_element()))
    p, q, x, y = leaf(a, 1), leaf(b, 1), leaf(b, 1.0), leaf(c, 2.0)
    p._add_child(x)
    q._add_child(y)
    upper, lower = CalculationNetwork([p], "role", a.get_link_name(), False), CalculationNetwork([q], "role", a.get_link_name(), False)
    if swap:
        m = combine_networks([lower, upper])
    else:
        m = combine_networks([upper, lower])
    assert len(m.get_roots()) == 1
    r = m.get_roots()[0]
    assert r is p
    assert len(r.get_children()) == 1
    assert r.get_children()[0] is x
    assert len(x.get_children()) == 1
    assert x.get_children()[0] is y


@law("C09", bounded=True)
def unrelated_relationships(a: CalculationNetworkNode, b: CalculationNetworkNode, c: CalculationNetworkNode, d: CalculationNetworkNode):
    assume(not any(n.get_report_element() == m.get_report_element() for n, m in ((a, b), (a, c), (a, d), (b, c), (b, d), (c, d))))
    p, q, x, y = leaf(a, 1), leaf(b, 1), leaf(c, 1.0), leaf(d, 2.0)
    p._add_child(x)
    q._add_child(y)
    m = combine_networks([CalculationNetwork([p], "role", a.get_link_name(), False), CalculationNetwork([q], "role", a.get_link_name(), False)])
    assert len(m.get_roots()) == 2
    assert any(r is p for r in m.get_roots())
    assert any(r is q for r in m.get_roots())
    assert len(p.get_children()) == 1 and p.get_children()[0] is x
    assert len(q.get_children()) == 1 and q.get_children()[0] is y
