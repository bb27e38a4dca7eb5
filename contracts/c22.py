"""C22 - components tie each role to its own networks (the component itself, and how it is made from a role declaration)."""
from typing import Optional
from lxml import etree
from lxml.etree import _Element
from contracts.dsl import law, assume
from brel.brel_component import Component
from brel.contexts.filing_context import FilingContext
from brel.networks import INetwork, PresentationNetwork, CalculationNetwork, DefinitionNetwork
from brel.parsers.XML.xml_component_parser import parse_component_from_xml
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.errors.error_instance import ErrorInstance
from brel.data.network.in_memory_network_repository import InMemoryNetworkRepository

LINK = "http://www.xbrl.org/2003/linkbase"


def role_declaration(g):
    """a random role declaration (executing the contracts only)"""
    r = g.r
    e = etree.Element("{%s}roleType" % LINK, nsmap={"link": LINK, "l": LINK, "o": "http://other"})
    e.set("roleURI", r.choice(["http://role/1", "http://role/2", "http://role/3", "http://role/1/sub", "http://role/4"]))
    if r.random() < .7:
        etree.SubElement(e, "{%s}definition" % LINK).text = r.choice(["some text", "", "100 - Statement", None])
    for k in r.sample(["presentationLink", "calculationLink", "definitionLink", "footnoteLink"], r.randint(0, 4)):
        etree.SubElement(e, "{%s}usedOn" % LINK).text = r.choice(["link:", "l:", " link:", "o:"]) + k + r.choice(["", " "])
    return e


# callee under contract (C12 proves what it returns)
PURE = ["brel.qnames.qname_utils:qname_from_str", "brel.qnames.qname:QName.clark_notation"]

GENERATORS = {"declared": role_declaration}


@law("C22")
def a_component_has_exactly_the_networks_it_returns(u: str, info: str, p: Optional[PresentationNetwork], c: Optional[CalculationNetwork], d: Optional[DefinitionNetwork]):
    x = Component(u, info, p, c, d)
    assert x.get_URI() == u
    assert x.get_info() == info
    assert x.get_presentation_network() is p
    assert x.get_calculation_network() is c
    assert x.get_definition_network() is d
    assert x.has_presentation_network() == (x.get_presentation_network() is not None)
    assert x.has_calculation_network() == (x.get_calculation_network() is not None)
    assert x.has_definition_network() == (x.get_definition_network() is not None)


@law("C22")
def a_component_lists_its_networks(x: Component):
    want = []
    if x.has_presentation_network():
        want.append(x.get_presentation_network())
    if x.has_calculation_network():
        want.append(x.get_calculation_network())
    if x.has_definition_network():
        want.append(x.get_definition_network())
    assert x.get_networks() == want


def first(networks: list[INetwork]) -> Optional[INetwork]:
    return networks[0] if len(networks) > 0 else None


class Networks(InMemoryNetworkRepository):
    """a store that holds the given networks"""
    def __init__(self, ns: list[INetwork]) -> None:
        super().__init__()
        self.ns: list[INetwork] = ns

    def get_all(self) -> list[INetwork]:
        return self.ns

    def get_by_linkrole(self, linkrole: str) -> list[INetwork]:
        return [n for n in self.ns if n.get_link_role() == linkrole]


class NoDiagnostics(InMemoryErrorRepository):
    """diagnostics are not observed here (C24, C25)"""
    def insert_premade(self, error: ErrorInstance) -> None:
        pass


class ContextOfNetworks(FilingContext):
    def __init__(self, ns: list[INetwork]) -> None:
        super().__init__()
        self.networks: Networks = Networks(ns)
        self.diagnostics: NoDiagnostics = NoDiagnostics()

    def get_error_repository(self) -> InMemoryErrorRepository:
        return self.diagnostics

    def get_network_repository(self) -> InMemoryNetworkRepository:
        return self.networks


@law("C22")
def a_role_declaration_becomes_the_component_of_its_role(declared: _Element, ns: list[INetwork]):
    role = declared.get("roleURI")
    assume(role is not None)
    c = parse_component_from_xml(ContextOfNetworks(ns), declared)
    e = declared.find("{" + LINK + "}definition")
    assert c.get_URI() == role
    assert c.get_info() == ("" if e is None or e.text is None else e.text)


@law("C22")
def a_component_has_the_networks_of_its_role(declared: _Element, ns: list[INetwork]):
    role = declared.get("roleURI")
    assume(role is not None)
    c = parse_component_from_xml(ContextOfNetworks(ns), declared)
    mine = [n for n in ns if n.get_link_role() == role]
    assert c.get_presentation_network() is first([n for n in mine if isinstance(n, PresentationNetwork)])
    assert c.get_calculation_network() is first([n for n in mine if isinstance(n, CalculationNetwork)])
    assert c.get_definition_network() is first([n for n in mine if isinstance(n, DefinitionNetwork) and not n.is_physical()])
