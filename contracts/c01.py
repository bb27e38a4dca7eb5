"""C01 - every fact of an XML instance says what its element says (one element, given its context)."""
from typing import Optional
from lxml import etree
from lxml.etree import _Element
from contracts.dsl import law, assume
from brel import Context, Fact, QName
from brel.characteristics import ConceptCharacteristic, UnitCharacteristic
from brel.contexts.filing_context import FilingContext
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.data.fact.in_memory_fact_repository import InMemoryFactRepository
from brel.errors.error_instance import ErrorInstance
from brel.parsers.XML.xml_facts_parser import parse_fact_from_xml
from brel.parsers.XHMTL.elements.parse_non_fraction import parse_decimals_or_precision
from brel.reportelements import Concept


def fact_element(g):
    r = g.r
    e = etree.Element("{http://p}" + r.choice(["a", "b"]))
    for k, vs in (("id", ["f1", "f2", ""]), ("decimals", ["0", "2", "-3", "INF", "x", "", " 2", "1.5"]), ("precision", ["0", "2", "INF", "y", "+4"]), ("unitRef", ["u", "v", ""])):
        if r.random() < .5:
            e.set(k, r.choice(vs))
    e.text = r.choice(["1", "abc", " 1 ", "", None, "TRUE"])
    return e


GENERATORS = {"fact1": fact_element, "fact2": fact_element}


class NoDiagnostics(InMemoryErrorRepository):
    """diagnostics are not observed here (C27)"""
    def insert_premade(self, error: ErrorInstance) -> None:
        pass


class Filing(FilingContext):
    """a filing without facts"""
    def __init__(self) -> None:
        super().__init__()
        self.facts: InMemoryFactRepository = InMemoryFactRepository()
        self.diagnostics: NoDiagnostics = NoDiagnostics()

    def get_error_repository(self) -> InMemoryErrorRepository:
        return self.diagnostics

    def get_fact_repository(self) -> InMemoryFactRepository:
        return self.facts


def a_context(k: Concept, u: Optional[UnitCharacteristic]) -> Context:
    c = Context("c")
    c._add_characteristic(ConceptCharacteristic(k))
    if u is not None:
        c._add_characteristic(u)
    return c


@law("C01")
def a_fact_element_is_one_fact(fact1: _Element, k: Concept, u: Optional[UnitCharacteristic]):
    f = Filing()
    c = a_context(k, u)
    parse_fact_from_xml(f, fact1, c)
    facts = f.get_fact_repository().get_all()
    assert len(facts) == 1
    assert facts[0].get_context() is c
    assert facts[0].get_id() == fact1.get("id")


@law("C01")
def a_fact_has_the_text_of_its_element(fact1: _Element, k: Concept, u: Optional[UnitCharacteristic]):
    f = Filing()
    parse_fact_from_xml(f, fact1, a_context(k, u))
    x = f.get_fact_repository().get_all()[0]
    assert x.get_value_as_str() == ("" if fact1.text is None else fact1.text)


def number_or_none(text: Optional[str], decimals: bool) -> Optional[float]:
    try:
        return parse_decimals_or_precision(text, decimals)
    except ValueError:
        return None


@law("C01")
def a_fact_has_the_accuracy_of_its_element(fact1: _Element, k: Concept, u: Optional[UnitCharacteristic]):
    f = Filing()
    parse_fact_from_xml(f, fact1, a_context(k, u))
    x = f.get_fact_repository().get_all()[0]
    assert x.get_decimals() == number_or_none(fact1.get("decimals"), True)
    assert x.get_precision() == number_or_none(fact1.get("precision"), False)


@law("C01")
def an_accuracy_is_an_integer_or_infinite(n: int, b: bool):
    assume(-1000 < n and n < 1000)
    assert parse_decimals_or_precision(str(n), b) == n
    assert parse_decimals_or_precision(None, b) is None


def plain(e: _Element) -> bool:
    return e.get("decimals") is None and e.get("precision") is None


@law("C01")
def facts_without_id_are_all_kept(fact1: _Element, fact2: _Element, k: Concept):
    assume(fact1.get("id") is None and fact2.get("id") is None and plain(fact1) and plain(fact2))
    f = Filing()
    c, d = a_context(k, None), a_context(k, None)
    parse_fact_from_xml(f, fact1, c)
    parse_fact_from_xml(f, fact2, d)
    facts = f.get_fact_repository().get_all()
    assert len(facts) == 2
    assert facts[0].get_context() is c
    assert facts[1].get_context() is d


@law("C01")
def facts_with_different_ids_are_all_kept(fact1: _Element, fact2: _Element, k: Concept):
    i, j = fact1.get("id"), fact2.get("id")
    assume(i is not None and j is not None and i != j and plain(fact1) and plain(fact2))
    f = Filing()
    c, d = a_context(k, None), a_context(k, None)
    parse_fact_from_xml(f, fact1, c)
    parse_fact_from_xml(f, fact2, d)
    assert len(f.get_fact_repository().get_all()) == 2
    assert f.get_fact_repository().get_by_id(i).get_context() is c
    assert f.get_fact_repository().get_by_id(j).get_context() is d
