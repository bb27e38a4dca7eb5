"""C08 - traversal of a network reaches every node and nothing else."""
from contracts.dsl import law, raises, assume
from brel.networks import (INetwork, INetworkNode, CalculationNetwork, PresentationNetwork, DefinitionNetwork, FootnoteNetwork, LabelNetwork, ReferenceNetwork,
                           CalculationNetworkNode, PresentationNetworkNode, DefinitionNetworkNode, FootnoteNetworkNode, LabelNetworkNode, ReferenceNetworkNode)


def reachable(starts: list[INetworkNode]) -> list[INetworkNode]:
    """by identity, each once"""
    seen = []
    todo = list(starts)
    while todo:
        n = todo.pop()
        if not any(n is m for m in seen):
            seen.append(n)
            todo.extend(n.get_children())
    return seen


def exactly(got, want):
    return len(got) == len(want) and all(any(a is b for b in want) for a in got) and all(any(a is b for b in got) for a in want)


def snapshot(n: INetworkNode):
    return (id(n), [snapshot(c) for c in n.get_children()])


def check_network(net: INetwork):
    before = [snapshot(r) for r in net.get_roots()]
    want = reachable(net.get_roots())
    assert exactly(net.get_all_nodes(), want)
    assert exactly(net.get_all_nodes(), want)
    roles = net.get_arc_roles()
    assert sorted(roles) == sorted({n.get_arc_role() for n in want})
    if net.get_roots():
        assert net.get_arc_name() == net.get_roots()[0].get_arc_name()
    else:
        assert net.get_arc_name() is None
    if len(net.get_roots()) == 1:
        assert net.get_root() is net.get_roots()[0]
    elif len(net.get_roots()) > 1:
        assert raises(net.get_root)
    for n in want:
        assert n.is_leaf() == (len(n.get_children()) == 0)
        assert exactly(n.get_all_descendants(), reachable([n]))
    assert [snapshot(r) for r in net.get_roots()] == before


@law("C08", bounded=True)
def all_nodes_of_a_calculation_network(net: CalculationNetwork):
    check_network(net)


@law("C08", bounded=True)
def all_nodes_of_a_presentation_network(net: PresentationNetwork):
    check_network(net)


@law("C08", bounded=True)
def all_nodes_of_a_definition_network(net: DefinitionNetwork):
    check_network(net)


@law("C08", bounded=True)
def all_nodes_of_a_footnote_network(net: FootnoteNetwork):
    check_network(net)


@law("C08", bounded=True)
def all_nodes_of_a_label_network(net: LabelNetwork):
    check_network(net)


@law("C08", bounded=True)
def all_nodes_of_a_reference_network(net: ReferenceNetwork):
    check_network(net)


@law("C08")
def leaf_is_a_node_without_children(n: INetworkNode):
    assert n.is_leaf() == (len(n.get_children()) == 0)


@law("C08")
def root_and_arc_name(net: INetwork):
    roots = net.get_roots()
    if len(roots) == 0:
        assert net.get_arc_name() is None
    else:
        assert net.get_arc_name() == roots[0].get_arc_name()
    if len(roots) == 1:
        assert net.get_root() is roots[0]
    if len(roots) > 1:
        assert raises(net.get_root)


@law("C08")
def roots_are_among_the_nodes(net: CalculationNetwork):
    ns = net.get_all_nodes()
    for r in net.get_roots():
        if r not in ns:
            raise AssertionError


@law("C08")
def network_says_what_it_was_built_with(roots: list[CalculationNetworkNode], role: str, net: CalculationNetwork, physical: bool):
    n = CalculationNetwork(roots, role, net.get_link_name(), physical)
    assert n.get_roots() == roots
    assert n.get_link_role() == role
    assert n.get_link_name() == net.get_link_name()
    assert n.is_physical() == physical
