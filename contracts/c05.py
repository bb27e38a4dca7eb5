"""C05 - balance consistency is exactly its definition."""
from typing import cast
from contracts.dsl import law
from brel.networks import CalculationNetwork, CalculationNetworkNode


def balance_ok(node: CalculationNetworkNode) -> bool:
    b = node.get_concept().get_balance_type()
    if b is None:
        return False
    for c in node.get_children():
        c = cast(CalculationNetworkNode, c)
        cb = c.get_concept().get_balance_type()
        if cb is None:
            return False
        if b == cb and c.get_weight() < 0:
            return False
        if b != cb and c.get_weight() > 0:
            return False
        if not balance_ok(c):
            return False
    return True


@law("C05")
def balance_consistency_is_its_definition(net: CalculationNetwork):
    want = True
    for r in net.get_roots():
        if not balance_ok(cast(CalculationNetworkNode, r)):
            want = False
            break
    assert net.is_balance_consistent() == want
