"""C02 - a context consists of what its elements say; its characteristics come from parsers under contract (contracts/c02.py)."""
from typing import Optional
from lxml import etree
from lxml.etree import _Element
from contracts.dsl import law, assume
from contracts.c02 import Filing, XBRLI, period_element, entity_element
from brel import Context
from brel.characteristics import ConceptCharacteristic, UnitCharacteristic
from brel.parsers.XML.xml_context_parser import parse_context_xml
from brel.parsers.XML.characteristics import parse_entity_from_xml, parse_period_from_xml, parse_explicit_dimension_from_xml, parse_typed_dimension_from_xml

PURE = ["brel.parsers.XML.characteristics.xml_parse_period:parse_period_from_xml", "brel.parsers.XML.characteristics.xml_parse_entity:parse_entity_from_xml",
        "brel.parsers.XML.characteristics.xml_parse_explicit_dimension:parse_explicit_dimension_from_xml",
        "brel.parsers.XML.characteristics.xml_parse_typed_dimension:parse_typed_dimension_from_xml"]


def context_element(g):
    r = g.r
    e = etree.Element("{%s}context" % XBRLI)
    e.set("id", r.choice(["c1", "c2"]))
    for make in r.choice([[period_element, entity_element], [entity_element, period_element], [period_element], [entity_element]]):
        e.append(make(g))
    return e


GENERATORS = {"context1": context_element}


@law("C02")
def a_context_has_the_values_of_its_parts(context1: _Element, k: ConceptCharacteristic):
    assume(context1.get("id") is not None)
    p, e = context1.find("{*}period"), context1.find("{*}entity")
    assume(p is not None and e is not None)
    assume(e.find("{*}segment") is None and context1.find("{*}scenario") is None)
    f = Filing()
    c = parse_context_xml(f, context1, [k])
    assert c._get_id() == context1.get("id")
    assert c.get_concept() is k
    assert c.get_unit() is None
    assert c.get_period() == parse_period_from_xml(f, p)
    assert c.get_entity() == parse_entity_from_xml(f, e)
    assert not c.has_noncore_dimensions()


@law("C02")
def a_context_has_its_unit(context1: _Element, k: ConceptCharacteristic, u: UnitCharacteristic):
    assume(context1.get("id") is not None)
    p, e = context1.find("{*}period"), context1.find("{*}entity")
    assume(p is not None and e is not None)
    assume(e.find("{*}segment") is None and context1.find("{*}scenario") is None)
    c = parse_context_xml(Filing(), context1, [k, u])
    assert c.get_concept() is k
    assert c.get_unit() is u


@law("C02")
def a_context_needs_period_and_entity(context1: _Element, k: ConceptCharacteristic):
    assume(context1.get("id") is not None)
    p, e = context1.find("{*}period"), context1.find("{*}entity")
    assume(e is None or (e.find("{*}segment") is None and context1.find("{*}scenario") is None))
    assert (parse_context_xml(Filing(), context1, [k]) is None) == (p is None or e is None)
