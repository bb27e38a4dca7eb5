"""C21 - a declaration becomes the right kind of report element (the classification and the attributes of a concept)."""
from typing import Optional
from lxml import etree
from lxml.etree import _Element
from contracts.dsl import law, assume
from brel import QName
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.errors.error_instance import ErrorInstance
from brel.parsers.XML.xml_report_element_factory import XMLReportElementFactory
from brel.reportelements import IReportElement, Concept, Abstract, LineItems, Hypercube, Dimension, Member
from brel.resource import BrelLabel

XBRLI = "{http://www.xbrl.org/2003/instance}"


def declaration(g):
    """a random element declaration (executing the contracts only)"""
    r = g.r
    e = etree.Element("{http://www.w3.org/2001/XMLSchema}element", nsmap={"xs": "http://www.w3.org/2001/XMLSchema", "xbrli": XBRLI[1:-1]})
    def put(n, p, vs):
        if r.random() < p:
            e.set(n, r.choice(vs))
    put("name", 1, ["A", "SomeLineItems", "LineItemsAxis", "lineItems", "LineItem", "B"])
    put("id", .7, ["id_A", "p_A", ""])
    put("abstract", .7, ["true", "1", "false", "0", "TRUE", ""])
    put("substitutionGroup", .9, ["xbrli:item", "item", "xbrldt:hypercubeItem", "xbrldt:dimensionItem", "xbrli:tuple", "xl:arc", "", "other:thing"])
    put("type", .9, ["xbrli:stringItemType", "nonnum:domainItemType", "dtr:domainItemType", "num:percentItemType", "xbrli:monetaryItemType", "", "domainItemTypes"])
    put(XBRLI + "periodType", .8, ["instant", "duration", "forever", "", "Instant"])
    put(XBRLI + "balance", .5, ["debit", "credit", "both", ""])
    put("nillable", .6, ["true", "false", "1", "0", "yes", ""])
    return e


GENERATORS = {"declared": declaration}


def says(v: Optional[str], a: str, b: str) -> bool:
    return v is not None and (v == a or v == b)


def has(v: Optional[str], part: str) -> bool:
    return v is not None and part in v


def create(e: _Element, q: QName, ls: list[BrelLabel]) -> Optional[IReportElement]:
    return XMLReportElementFactory.create(e, q, ls, InMemoryErrorRepository())


@law("C21")
def domain_items_are_members(declared: _Element, q: QName, ls: list[BrelLabel]):
    assume(has(declared.get("type"), "domainItemType"))
    assert isinstance(create(declared, q, ls), Member)


@law("C21")
def only_domain_items_are_members(declared: _Element, q: QName, ls: list[BrelLabel]):
    assume(not has(declared.get("type"), "domainItemType"))
    assert not isinstance(create(declared, q, ls), Member)


@law("C21")
def items_are_concepts(declared: _Element, q: QName, ls: list[BrelLabel]):
    assume(not has(declared.get("type"), "domainItemType"))
    assume(not says(declared.get("abstract"), "true", "1"))
    x = create(declared, q, ls)
    if has(declared.get("substitutionGroup"), "item"):
        assert x is None or isinstance(x, Concept)
    else:
        assert x is None


@law("C21")
def abstract_declarations(declared: _Element, q: QName, ls: list[BrelLabel]):
    assume(not has(declared.get("type"), "domainItemType"))
    assume(says(declared.get("abstract"), "true", "1"))
    x = create(declared, q, ls)
    group = declared.get("substitutionGroup")
    if has(group, "hypercubeItem"):
        assert isinstance(x, Hypercube)
    elif has(group, "dimensionItem"):
        assert isinstance(x, Dimension)
    elif has(declared.get("name"), "LineItems"):
        assert isinstance(x, LineItems)
    else:
        assert isinstance(x, Abstract)


@law("C21")
def declared_under_its_name_and_identifier(declared: _Element, q: QName, ls: list[BrelLabel]):
    x = XMLReportElementFactory.create(declared, q, ls, InMemoryErrorRepository())
    if x is not None:
        assert x.get_name() == q
        assert x.get_id() == declared.get("id")
        assert x.get_labels() == ls


@law("C21")
def concepts_say_what_was_declared(declared: _Element, q: QName, ls: list[BrelLabel]):
    repo = InMemoryErrorRepository()
    x = Concept._from_xml(declared, declared.get("id"), q, ls, repo)
    p = declared.get(XBRLI + "periodType")
    b = declared.get(XBRLI + "balance")
    n = declared.get("nillable")
    t = declared.get("type")
    good_p = says(p, "instant", "duration")
    good_b = b is None or says(b, "debit", "credit")
    good_n = n is None or says(n, "true", "1") or says(n, "false", "0")
    if good_p and good_b and good_n and t is not None:
        assert x is not None
        assert x.get_period_type() == p
        assert x.get_balance_type() == b
        assert x.is_nillable() == says(n, "true", "1")
        assert x.get_data_type() == t
        assert len(repo.get_all()) == 0
    else:
        assert x is None
        assert len(repo.get_all()) >= 1
