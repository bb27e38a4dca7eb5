"""C27 - malformed parts of the instance are diagnosed: exactly one diagnostic, which names the problem, and no object; well-formed ones cause none."""
import datetime
from typing import Optional
from lxml import etree
from lxml.etree import _Element
from contracts.dsl import law, assume
from contracts.c02 import Elements, XBRLI, some_date, period_element, entity_element, unit_element, dimension_element, declared_elements
from brel import QName
from brel.characteristics import PeriodCharacteristic
from brel.contexts.filing_context import FilingContext
from brel.data.aspect.in_memory_aspect_repository import InMemoryAspectRepository
from brel.data.characteristic.in_memory_characteristic_repository import InMemoryCharacteristicRepository
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.data.report_element.in_memory_report_element_repository import InMemoryReportElementRepository
from brel.errors.error_code import ErrorCode
from brel.errors.error_instance import ErrorInstance
from brel.parsers.XML.characteristics import (parse_entity_from_xml, parse_period_from_xml, parse_unit_from_xml, parse_explicit_dimension_from_xml, parse_typed_dimension_from_xml)
from brel.qnames.qname_utils import qname_from_str
from brel.reportelements import Dimension, IReportElement, Member

PURE = ["brel.qnames.qname_utils:qname_from_str"]


def any_unit(g):
    r = g.r
    e = unit_element(g)
    if r.random() < .3:
        for m in list(e)[:r.choice([0, 1])]:
            e.remove(m)
        for _ in range(r.choice([1, 1, 2])):
            etree.SubElement(e, "{%s}%s" % (XBRLI, r.choice(["measure", "other", "part"]))).text = r.choice(["i:USD", None])
    elif r.random() < .1:
        for m in list(e):
            e.remove(m)
    return e


GENERATORS = {"a": some_date, "b": some_date, "entity1": entity_element, "period1": period_element, "unit1": any_unit, "explicit1": dimension_element("explicit"), "typed1": dimension_element("typed"),
              "declared": declared_elements}


class Filing(FilingContext):
    """a filing of which nothing has been parsed yet"""
    def __init__(self, es: list[IReportElement]) -> None:
        super().__init__()
        self.characteristics: InMemoryCharacteristicRepository = InMemoryCharacteristicRepository()
        self.aspects: InMemoryAspectRepository = InMemoryAspectRepository()
        self.diagnostics: InMemoryErrorRepository = InMemoryErrorRepository()
        self.elements: Elements = Elements(es)

    def get_error_repository(self) -> InMemoryErrorRepository:
        return self.diagnostics

    def get_characteristic_repository(self) -> InMemoryCharacteristicRepository:
        return self.characteristics

    def get_aspect_repository(self) -> InMemoryAspectRepository:
        return self.aspects

    def get_report_element_repository(self) -> InMemoryReportElementRepository:
        return self.elements


def one(f: Filing, code: ErrorCode, where: _Element) -> bool:
    """the only diagnostic is this one, and it says where"""
    es = f.diagnostics.get_all()
    if len(es) != 1:
        return False
    want = f.diagnostics.create(code, None, date="", start_date="", end_date="", id="", child_count="", child_tag="", tag="", dimension="", member="", concept="", decimals="", precision="")
    return es[0].get_numeric_code() == want.get_numeric_code() and es[0].get_area() is want.get_area() and es[0].get_severity() is want.get_severity() and es[0].get_context() is where


def none(f: Filing) -> bool:
    return len(f.diagnostics.get_all()) == 0


# ------------------------------------------------------------------ entities
@law("C27")
def entity_without_identifier(entity1: _Element):
    f = Filing([])
    assume(entity1.find("{*}identifier") is None)
    assert parse_entity_from_xml(f, entity1) is None
    assert one(f, ErrorCode.ENTITY_MISSING_IDENTIFIER_ELEMENT, entity1)


@law("C27")
def entity_without_scheme(entity1: _Element):
    f = Filing([])
    i = entity1.find("{*}identifier")
    assume(i is not None)
    assume(i.get("scheme") is None)
    assert parse_entity_from_xml(f, entity1) is None
    assert one(f, ErrorCode.ENTITY_IDENTIFIER_MISSING_SCHEME, entity1)


@law("C27")
def entity_without_value(entity1: _Element):
    f = Filing([])
    i = entity1.find("{*}identifier")
    assume(i is not None)
    assume(i.get("scheme") is not None and i.text is None)
    assert parse_entity_from_xml(f, entity1) is None
    assert one(f, ErrorCode.ENTITY_IDENTIFIER_MISSING_VALUE, entity1)


@law("C27")
def complete_entity(entity1: _Element):
    f = Filing([])
    i = entity1.find("{*}identifier")
    assume(i is not None)
    assume(i.get("scheme") is not None and i.text is not None)
    assert parse_entity_from_xml(f, entity1) is not None
    assert none(f)


# ------------------------------------------------------------------ periods
def no_date(e: _Element) -> bool:
    return e.text is None or not PeriodCharacteristic._is_date(e.text)


@law("C27")
def instant_that_is_no_date(period1: _Element):
    f = Filing([])
    i = period1.find("{*}instant")
    assume(i is not None)
    assume(no_date(i))
    assert parse_period_from_xml(f, period1) is None
    assert one(f, ErrorCode.INVALID_CONTEXT_PERIOD_DATE, i)


@law("C27")
def instant_that_is_a_date(period1: _Element, a: datetime.date):
    f = Filing([])
    i = period1.find("{*}instant")
    assume(i is not None)
    assume(i.text == a.isoformat())
    assert parse_period_from_xml(f, period1) is not None
    assert none(f)


@law("C27")
def duration_without_start(period1: _Element):
    f = Filing([])
    assume(period1.find("{*}instant") is None and period1.find("{*}startDate") is None)
    assert parse_period_from_xml(f, period1) is None
    assert one(f, ErrorCode.DURATION_PERIOD_MISSING_START_DATE, period1)


@law("C27")
def duration_without_end(period1: _Element):
    f = Filing([])
    assume(period1.find("{*}instant") is None and period1.find("{*}startDate") is not None and period1.find("{*}endDate") is None)
    assert parse_period_from_xml(f, period1) is None
    assert one(f, ErrorCode.DURATION_PERIOD_MISSING_END_DATE, period1)


@law("C27")
def duration_whose_start_is_no_date(period1: _Element):
    f = Filing([])
    s, e = period1.find("{*}startDate"), period1.find("{*}endDate")
    assume(period1.find("{*}instant") is None and s is not None and e is not None)
    assume(no_date(s) and not no_date(e))
    assert parse_period_from_xml(f, period1) is None
    assert one(f, ErrorCode.INVALID_CONTEXT_PERIOD_DATE, s)


@law("C27")
def duration_whose_end_is_no_date(period1: _Element):
    f = Filing([])
    s, e = period1.find("{*}startDate"), period1.find("{*}endDate")
    assume(period1.find("{*}instant") is None and s is not None and e is not None)
    assume(no_date(e) and not no_date(s))
    assert parse_period_from_xml(f, period1) is None
    assert one(f, ErrorCode.INVALID_CONTEXT_PERIOD_DATE, e)


@law("C27")
def duration_whose_start_is_after_its_end(period1: _Element, a: datetime.date, b: datetime.date):
    f = Filing([])
    s, e = period1.find("{*}startDate"), period1.find("{*}endDate")
    assume(period1.find("{*}instant") is None and s is not None and e is not None)
    assume(s.text == a.isoformat() and e.text == b.isoformat())
    assume(b < a)
    assert parse_period_from_xml(f, period1) is None
    es = f.diagnostics.get_all()
    assert len(es) == 1
    assert one(f, ErrorCode.DURATION_PERIOD_START_AFTER_END, s) or one(f, ErrorCode.DURATION_PERIOD_START_AFTER_END, period1)


@law("C27")
def complete_duration(period1: _Element, a: datetime.date, b: datetime.date):
    f = Filing([])
    s, e = period1.find("{*}startDate"), period1.find("{*}endDate")
    assume(period1.find("{*}instant") is None and s is not None and e is not None)
    assume(s.text == a.isoformat() and e.text == b.isoformat())
    assume(a <= b)
    assert parse_period_from_xml(f, period1) is not None
    assert none(f)


# ------------------------------------------------------------------ units
@law("C27")
def unit_of_several_or_no_parts(unit1: _Element):
    f = Filing([])
    assume(unit1.get("id") is not None and len(unit1) != 1)
    parse_unit_from_xml(f, unit1)
    assert one(f, ErrorCode.XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD, unit1)


@law("C27")
def unit_of_an_empty_measure(unit1: _Element):
    f = Filing([])
    assume(unit1.get("id") is not None and len(unit1) == 1)
    m = unit1[0]
    assume("measure" in m.tag and m.text is None)
    assert parse_unit_from_xml(f, unit1) is None
    assert one(f, ErrorCode.XML_MISSING_UNIT_MEASURE, m)


@law("C27")
def unit_of_a_measure(unit1: _Element):
    f = Filing([])
    assume(unit1.get("id") is not None and len(unit1) == 1)
    m = unit1[0]
    assume("measure" in m.tag and m.text is not None)
    assert parse_unit_from_xml(f, unit1) is not None
    assert none(f)


@law("C27")
def unit_of_something_else(unit1: _Element):
    f = Filing([])
    assume(unit1.get("id") is not None and len(unit1) == 1)
    m = unit1[0]
    assume("measure" not in m.tag and "divide" not in m.tag)
    parse_unit_from_xml(f, unit1)
    assert one(f, ErrorCode.XML_INVALID_UNIT_ELEMENT_CHILDREN, unit1)


# ------------------------------------------------------------------ dimensions
def declares(f: Filing, n: QName, member: bool) -> bool:
    """the first element of that name is of that kind"""
    return f.elements.has_typed_qname(n, Member if member else Dimension)


@law("C27")
def explicit_dimension_that_is_not_declared(declared: list[IReportElement], explicit1: _Element):
    f = Filing(declared)
    assume(explicit1.get("dimension") is not None)
    assume(not declares(f, qname_from_str(explicit1.get("dimension"), explicit1), False))
    assert parse_explicit_dimension_from_xml(f, explicit1) is None
    assert one(f, ErrorCode.INVALID_EXPLICIT_DIMENSION_VALUE, explicit1)


@law("C27")
def explicit_dimension_without_member(declared: list[IReportElement], explicit1: _Element):
    f = Filing(declared)
    assume(explicit1.get("dimension") is not None)
    assume(declares(f, qname_from_str(explicit1.get("dimension"), explicit1), False))
    assume(explicit1.text is None or explicit1.text == "")
    assert parse_explicit_dimension_from_xml(f, explicit1) is None
    assert one(f, ErrorCode.MISSING_EXPLICIT_DIMENSION_MEMBER, explicit1)


@law("C27")
def explicit_dimension_whose_member_is_not_declared(declared: list[IReportElement], explicit1: _Element):
    f = Filing(declared)
    assume(explicit1.get("dimension") is not None and explicit1.text is not None and explicit1.text != "")
    assume(declares(f, qname_from_str(explicit1.get("dimension"), explicit1), False))
    assume(not declares(f, qname_from_str(explicit1.text, explicit1), True))
    assert parse_explicit_dimension_from_xml(f, explicit1) is None
    assert one(f, ErrorCode.INVALID_EXPLICIT_DIMENSION_MEMBER, explicit1)


@law("C27")
def complete_explicit_dimension(declared: list[IReportElement], explicit1: _Element):
    f = Filing(declared)
    assume(explicit1.get("dimension") is not None and explicit1.text is not None and explicit1.text != "")
    assume(declares(f, qname_from_str(explicit1.get("dimension"), explicit1), False))
    assume(declares(f, qname_from_str(explicit1.text, explicit1), True))
    assert parse_explicit_dimension_from_xml(f, explicit1) is not None
    assert none(f)


@law("C27")
def typed_dimension_that_is_not_declared(declared: list[IReportElement], typed1: _Element):
    f = Filing(declared)
    assume(typed1.get("dimension") is not None)
    assume(not declares(f, qname_from_str(typed1.get("dimension"), typed1), False))
    assert parse_typed_dimension_from_xml(f, typed1) is None
    assert one(f, ErrorCode.INVALID_TYPED_DIMENSION_VALUE, typed1)


@law("C27")
def typed_dimension_without_value(declared: list[IReportElement], typed1: _Element):
    f = Filing(declared)
    assume(typed1.get("dimension") is not None)
    assume(declares(f, qname_from_str(typed1.get("dimension"), typed1), False))
    assume(len(typed1) <= 1)
    assume(len(typed1) == 0 or typed1[0].text is None)
    assert parse_typed_dimension_from_xml(f, typed1) is None
    if len(typed1) == 0:
        assert one(f, ErrorCode.NO_TYPED_DIMENSION_ELEMENT_CHILDREN, typed1)
    else:
        assert one(f, ErrorCode.MISSING_TYPED_DIMENSION_VALUE, typed1)


@law("C27")
def complete_typed_dimension(declared: list[IReportElement], typed1: _Element):
    f = Filing(declared)
    assume(typed1.get("dimension") is not None)
    assume(declares(f, qname_from_str(typed1.get("dimension"), typed1), False))
    assume(len(typed1) == 1)
    assume(typed1[0].text is not None)
    assert parse_typed_dimension_from_xml(f, typed1) is not None
    assert none(f)
