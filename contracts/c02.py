"""C02 - every context says what its elements say (the characteristics parsed from a document, whatever was parsed before)."""
import datetime
from typing import Optional
from lxml import etree
from lxml.etree import _Element
from contracts.dsl import law, assume
from brel import QName
from brel.contexts.filing_context import FilingContext
from brel.data.aspect.in_memory_aspect_repository import InMemoryAspectRepository
from brel.data.characteristic.in_memory_characteristic_repository import InMemoryCharacteristicRepository
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.data.report_element.in_memory_report_element_repository import InMemoryReportElementRepository
from brel.errors.error_instance import ErrorInstance
from brel.parsers.XML.characteristics import (parse_entity_from_xml, parse_period_from_xml, parse_unit_from_xml, parse_explicit_dimension_from_xml,
                                              parse_typed_dimension_from_xml)
from brel.qnames.qname_utils import qname_from_str
from brel.characteristics import PeriodCharacteristic
from brel.reportelements import Dimension, IReportElement, Member

XBRLI = "http://www.xbrl.org/2003/instance"
PURE = ["brel.qnames.qname_utils:qname_from_str"]


# ------------------------------------------------------------------ elements (executing the contracts only)
def entity_element(g):
    r = g.r
    e = etree.Element("{%s}entity" % XBRLI)
    if r.random() < .9:
        i = etree.SubElement(e, "{%s}identifier" % XBRLI)
        if r.random() < .9:
            i.set("scheme", r.choice(["http://s", "http://s/1", "1", ""]))
        i.text = r.choice(["1", "0001", "/1x", "a", None, ""])
    return e


def period_element(g):
    r = g.r
    e = etree.Element("{%s}period" % XBRLI)
    for k in r.choice([["instant"], ["startDate", "endDate"], ["startDate", "endDate"], ["instant"], ["startDate", "endDate"], ["startDate"], ["endDate"], [], ["instant", "startDate", "endDate"]]):
        etree.SubElement(e, "{%s}%s" % (XBRLI, k)).text = r.choice(["2020-01-01", "2020-01-01", "2020-01-02", "2020-01-03"] if r.random() < .9 else ["abc", None])
    return e


def unit_element(g):
    r = g.r
    e = etree.Element("{%s}unit" % XBRLI, nsmap={"i": "http://i", "x": "http://x"})
    e.set("id", r.choice(["u1", "u2"]))

    def measures(p, n):
        for _ in range(n):
            etree.SubElement(p, "{%s}measure" % XBRLI).text = r.choice(["i:USD", "i:EUR", "x:shares", "x:USD", "i:EUR", None if r.random() < .2 else "i:JPY"])
    if r.random() < .5:
        measures(e, 1)
    else:
        d = etree.SubElement(e, "{%s}divide" % XBRLI)
        for k in r.choice([["unitNumerator", "unitDenominator"]] * 3 + [["unitDenominator", "unitNumerator"]]):
            measures(etree.SubElement(d, "{%s}%s" % (XBRLI, k)), r.randint(1, 3))
    return e


def some_date(g):
    return datetime.date(2020, 1, g.r.choice([1, 1, 2, 3]))


def dimension_element(kind):
    def make(g):
        r = g.r
        e = etree.Element("{http://xbrl.org/2006/xbrldi}%sMember" % kind, nsmap={"p": "http://p", "q": "http://q", "p1": "http://p1"})
        e.set("dimension", r.choice(["p:D", "q:D", "p:E", "p:M", "p1:D"]))
        if kind == "explicit":
            e.text = r.choice(["p:M", "q:M", "p:N", "p:D", None])
        else:
            for _ in range(r.choice([1, 1, 1, 0, 2])):
                etree.SubElement(e, "{http://p}v").text = r.choice(["1", "2", "01", "", None])
        return e
    return make


def declared_elements(g):
    out = []
    for p, l in (("p", "D"), ("q", "D"), ("p", "E"), ("p1", "D")):
        if g.r.random() < .8:
            out.append(Dimension(QName("http://" + p, p, l), None, []))
    for p, l in (("p", "M"), ("q", "M"), ("p", "N")):
        if g.r.random() < .8:
            out.append(Member(QName("http://" + p, p, l), None, []))
    g.r.shuffle(out)
    return out


GENERATORS = {"explicit1": dimension_element("explicit"), "explicit2": dimension_element("explicit"), "typed1": dimension_element("typed"), "typed2": dimension_element("typed"),
              "declared": declared_elements, "a": some_date, "b": some_date, "c": some_date, "d": some_date, "entity1": entity_element, "entity2": entity_element, "period1": period_element, "period2": period_element, "unit1": unit_element, "unit2": unit_element}


# ------------------------------------------------------------------ the filing they belong to
class NoDiagnostics(InMemoryErrorRepository):
    """diagnostics are not observed here (C27)"""
    def insert_premade(self, error: ErrorInstance) -> None:
        pass


class Filing(FilingContext):
    """a filing of which nothing has been parsed yet"""
    def __init__(self) -> None:
        super().__init__()
        self.characteristics: InMemoryCharacteristicRepository = InMemoryCharacteristicRepository()
        self.aspects: InMemoryAspectRepository = InMemoryAspectRepository()
        self.diagnostics: NoDiagnostics = NoDiagnostics()

    def get_error_repository(self) -> InMemoryErrorRepository:
        return self.diagnostics

    def get_characteristic_repository(self) -> InMemoryCharacteristicRepository:
        return self.characteristics

    def get_aspect_repository(self) -> InMemoryAspectRepository:
        return self.aspects


# ------------------------------------------------------------------ entities
def has_identifier(e: _Element) -> bool:
    i = e.find("{*}identifier")
    return i is not None and i.get("scheme") is not None and i.text is not None


@law("C02")
def an_entity_is_the_one_its_element_names(entity1: _Element, entity2: _Element):
    f = Filing()
    parse_entity_from_xml(f, entity1)
    e = parse_entity_from_xml(f, entity2)
    i = entity2.find("{*}identifier")
    assume(i is not None)
    scheme, text = i.get("scheme"), i.text
    assume(scheme is not None)
    assume(text is not None)
    assert e.get_value() == "{" + scheme + "}" + text
    assert str(e) == "{" + scheme + "}" + text


@law("C02")
def an_entity_has_the_scheme_of_its_element(entity1: _Element, entity2: _Element):
    assume(has_identifier(entity1) and has_identifier(entity2))
    scheme = entity2.find("{*}identifier").get("scheme")
    assume("}" not in scheme)
    assume("}" not in entity1.find("{*}identifier").get("scheme"))
    f = Filing()
    parse_entity_from_xml(f, entity1)
    e = parse_entity_from_xml(f, entity2)
    assert e.get_schema() == scheme


@law("C02")
def an_entity_without_identifier_is_none(entity1: _Element, entity2: _Element):
    f = Filing()
    parse_entity_from_xml(f, entity1)
    assert (parse_entity_from_xml(f, entity2) is None) == (not has_identifier(entity2))


# ------------------------------------------------------------------ periods
def says(e: Optional[_Element], d: datetime.date) -> bool:
    """the text of an element is a date"""
    return e is not None and e.text == d.isoformat()


@law("C02")
def an_instant_is_the_one_its_element_says(period1: _Element, period2: _Element, a: datetime.date, b: datetime.date, c: datetime.date):
    f = Filing()
    assume(says(period2.find("{*}instant"), c))
    assume(says(period1.find("{*}instant"), a))
    parse_period_from_xml(f, period1)
    p = parse_period_from_xml(f, period2)
    assert p.is_instant()
    assert p.get_instant_period() == c


@law("C02")
def a_duration_is_the_one_its_element_says(period1: _Element, period2: _Element, a: datetime.date, b: datetime.date, c: datetime.date, d: datetime.date):
    f = Filing()
    assume(period2.find("{*}instant") is None and says(period2.find("{*}startDate"), c) and says(period2.find("{*}endDate"), d) and c <= d)
    assume(period1.find("{*}instant") is None and says(period1.find("{*}startDate"), a) and says(period1.find("{*}endDate"), b))
    parse_period_from_xml(f, period1)
    p = parse_period_from_xml(f, period2)
    assert not p.is_instant()
    assert p.get_start_period() == c
    assert p.get_end_period() == d


@law("C02")
def an_instant_after_a_duration(period1: _Element, period2: _Element, a: datetime.date, b: datetime.date, c: datetime.date):
    f = Filing()
    assume(says(period2.find("{*}instant"), c))
    assume(period1.find("{*}instant") is None and says(period1.find("{*}startDate"), a) and says(period1.find("{*}endDate"), b))
    parse_period_from_xml(f, period1)
    p = parse_period_from_xml(f, period2)
    assert p.is_instant()
    assert p.get_instant_period() == c


@law("C02")
def a_duration_after_an_instant(period1: _Element, period2: _Element, a: datetime.date, c: datetime.date, d: datetime.date):
    f = Filing()
    assume(period2.find("{*}instant") is None and says(period2.find("{*}startDate"), c) and says(period2.find("{*}endDate"), d) and c <= d)
    assume(says(period1.find("{*}instant"), a))
    parse_period_from_xml(f, period1)
    p = parse_period_from_xml(f, period2)
    assert not p.is_instant()
    assert p.get_start_period() == c
    assert p.get_end_period() == d


# ------------------------------------------------------------------ units
@law("C02")
def a_unit_of_one_measure(unit2: _Element):
    f = Filing()
    assume(unit2.get("id") is not None and len(unit2) == 1)
    m = unit2[0]
    assume("measure" in m.tag and m.text is not None)
    u = parse_unit_from_xml(f, unit2)
    assert u.get_value() == unit2.get("id")
    assert u.get_numerators() == [qname_from_str(m.text, m)]
    assert u.get_denominators() == []
    assert u.is_simple()


def name_of(m: _Element) -> Optional[QName]:
    return None if m.text is None else qname_from_str(m.text, m)


@law("C02")
def a_unit_of_a_ratio_has_its_measures(unit2: _Element):
    f = Filing()
    assume(unit2.get("id") is not None and len(unit2) == 1)
    d = unit2[0]
    assume("measure" not in d.tag and "divide" in d.tag)
    u = parse_unit_from_xml(f, unit2)
    assume(u is not None)
    assert u.get_value() == unit2.get("id")
    over, under = [], []
    for part in d:
        for m in part:
            if "unitNumerator" in part.tag:
                over.append(name_of(m))
            elif "unitDenominator" in part.tag:
                under.append(name_of(m))
    assert u.get_numerators() == over
    assert u.get_denominators() == under


@law("C02")
def a_ratio_is_a_unit_when_every_part_has_a_measure(unit2: _Element):
    f = Filing()
    assume(unit2.get("id") is not None and len(unit2) == 1)
    d = unit2[0]
    assume("measure" not in d.tag and "divide" in d.tag)
    missing = any(len(part) == 0 or any(m.text is None for m in part) for part in d)
    assert (parse_unit_from_xml(f, unit2) is None) == missing


# ------------------------------------------------------------------ dimensions
class Elements(InMemoryReportElementRepository):
    """a taxonomy that declares the given elements"""
    def __init__(self, es: list[IReportElement]) -> None:
        super().__init__()
        self.es: list[IReportElement] = es

    def get_by_qname(self, qname: QName) -> IReportElement:
        for e in self.es:
            if e.get_name() == qname:
                return e
        raise KeyError("no such element")


class FilingOf(Filing):
    """a filing with the given taxonomy"""
    def __init__(self, es: list[IReportElement]) -> None:
        super().__init__()
        self.elements: Elements = Elements(es)

    def get_report_element_repository(self) -> InMemoryReportElementRepository:
        return self.elements


@law("C02", witness=True)
def an_explicit_dimension_is_the_one_its_element_says(declared: list[IReportElement], explicit1: _Element):
    f = FilingOf(declared)
    assume(explicit1.get("dimension") is not None)
    x = parse_explicit_dimension_from_xml(f, explicit1)
    assume(x is not None)
    assert x.get_dimension().get_name() == qname_from_str(explicit1.get("dimension"), explicit1)
    assert x.get_member().get_name() == qname_from_str(explicit1.text, explicit1)
    assert x.get_aspect().get_name() == explicit1.get("dimension")


@law("C02", witness=True)
def a_typed_dimension_is_the_one_its_element_says(declared: list[IReportElement], typed1: _Element):
    f = FilingOf(declared)
    assume(typed1.get("dimension") is not None)
    x = parse_typed_dimension_from_xml(f, typed1)
    assume(x is not None)
    assert x.get_dimension().get_name() == qname_from_str(typed1.get("dimension"), typed1)
    assert x.get_value() == typed1[0].text
    assert x.get_aspect().get_name() == typed1.get("dimension")


def is_plain(n: QName) -> bool:
    """as every name of a well-formed document: no blank or brace in its parts"""
    return "}" not in n.get_URL() and " " not in n.get_URL() and "{" not in n.get_local_name() and " " not in n.get_local_name()


@law("C02", bounded=True)
def an_explicit_dimension_after_another(declared: list[IReportElement], explicit1: _Element, explicit2: _Element):
    f = FilingOf(declared)
    assume(explicit1.get("dimension") is not None and explicit2.get("dimension") is not None)
    dim, other = qname_from_str(explicit2.get("dimension"), explicit2), qname_from_str(explicit1.get("dimension"), explicit1)
    assume(is_plain(dim) and is_plain(other))
    assume(explicit1.text is not None and explicit2.text is not None)
    mem = qname_from_str(explicit2.text, explicit2)
    assume(is_plain(mem) and is_plain(qname_from_str(explicit1.text, explicit1)))
    parse_explicit_dimension_from_xml(f, explicit1)
    x = parse_explicit_dimension_from_xml(f, explicit2)
    assume(x is not None)
    assert x.get_dimension().get_name() == dim
    assert x.get_member().get_name() == mem


@law("C02", bounded=True)
def a_typed_dimension_after_another(declared: list[IReportElement], typed1: _Element, typed2: _Element):
    f = FilingOf(declared)
    assume(typed1.get("dimension") is not None and typed2.get("dimension") is not None)
    dim, other = qname_from_str(typed2.get("dimension"), typed2), qname_from_str(typed1.get("dimension"), typed1)
    assume(is_plain(dim) and is_plain(other))
    parse_typed_dimension_from_xml(f, typed1)
    x = parse_typed_dimension_from_xml(f, typed2)
    assume(x is not None)
    assert x.get_dimension().get_name() == dim
    assert x.get_value() == typed2[0].text
