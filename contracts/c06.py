"""C06 - aggregation consistency is exactly its definition."""
from decimal import Decimal
from typing import Iterable, cast
from contracts.dsl import law, assume, outcome
from brel import Fact
from brel.characteristics import Aspect
from brel.networks import CalculationNetwork, CalculationNetworkNode
from brel.networks.calculation_network import exact

PURE = ["brel.networks.calculation_network:exact", "brel.brel_fact:Fact.__float__", "brel.brel_fact:Fact.get_concept", "brel.brel_fact:Fact.get_characteristic", "brel.brel_fact:Fact.get_aspects"]
OBSERVERS = ["ICharacteristic.__eq__", "ICharacteristic.__str__"]


def facts_like(fact: Fact, child: CalculationNetworkNode, facts: list[Fact]) -> list[Fact]:
    """the facts for the child's concept which agree with the fact in every other aspect and have no further aspects"""
    found: Iterable[Fact] = facts
    for a in fact.get_aspects():
        if a == Aspect.CONCEPT:
            found = [f for f in found if f.get_concept() == child.get_concept()]
        else:
            found = [f for f in found if f.get_characteristic(a) == fact.get_characteristic(a)]
    return [f for f in found if all(b in fact.get_aspects() for b in f.get_aspects())]


def adds_up(node: CalculationNetworkNode, facts: list[Fact]) -> bool:
    if len(node.get_children()) == 0:
        return True
    for fact in [f for f in facts if f.get_concept() == node.get_concept()]:
        value = exact(float(fact))
        total = Decimal(0)
        for child in node.get_children():
            child = cast(CalculationNetworkNode, child)
            found = facts_like(fact, child, facts)
            if len(found) != 1:
                raise ValueError
            total = total + exact(float(found[0])) * exact(child.get_weight())
        if value != total:
            return False
    for child in node.get_children():
        if not adds_up(cast(CalculationNetworkNode, child), facts):
            return False
    return True


def definition(net: CalculationNetwork, facts: list[Fact]) -> bool:
    for root in net.get_roots():
        if not adds_up(cast(CalculationNetworkNode, root), facts):
            return False
    return True


@law("C06", bounded=True)
def aggregation_consistency_is_its_definition(net: CalculationNetwork, facts: list[Fact]):
    assert outcome(net.is_aggregation_consistent, facts) == outcome(definition, net, facts)


@law("C06", bounded=True)
def a_network_of_leaves_is_consistent(net: CalculationNetwork, facts: list[Fact]):
    assume(all(len(r.get_children()) == 0 for r in net.get_roots()))
    assert net.is_aggregation_consistent(facts)


@law("C06")
def a_network_without_roots_is_consistent(net: CalculationNetwork, facts: list[Fact]):
    assume(len(net.get_roots()) == 0)
    assert net.is_aggregation_consistent(facts)
