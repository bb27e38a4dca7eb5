"""C18 - an inline number is one fact with what its element says; elements whose references do not resolve are diagnosed and yield no fact (reports as a whole: bounded/c18.py)."""
from typing import Optional
from lxml import etree
from lxml.etree import _Element
from contracts.dsl import law, assume
from contracts.c01 import number_or_none
from brel import Context, Fact, QName
from brel.characteristics import UnitCharacteristic
from brel.contexts.filing_context import FilingContext
from brel.data.characteristic.in_memory_characteristic_repository import InMemoryCharacteristicRepository
from brel.data.context.in_memory_context_repository import InMemoryContextRepository
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.data.fact.in_memory_fact_repository import InMemoryFactRepository
from brel.data.report_element.in_memory_report_element_repository import InMemoryReportElementRepository
from brel.errors.error_code import ErrorCode
from brel.errors.error_instance import ErrorInstance
from brel.parsers.XHMTL.elements.parse_non_fraction import is_nil, parse_non_fraction_fact_element, process_non_fraction_value
from brel.parsers.XHMTL.xhtml_parse_facts import parse_facts
from brel.qnames.qname_utils import qname_from_str
from brel.reportelements import Concept

PURE = ["brel.qnames.qname_utils:qname_from_str", "brel.parsers.XHMTL.elements.parse_non_fraction:process_non_fraction_value"]
IX = "http://www.xbrl.org/2013/inlineXBRL"
XSI_NIL = "{http://www.w3.org/2001/XMLSchema-instance}nil"


def number_element(g):
    r = g.r
    e = etree.Element("{%s}nonFraction" % IX, nsmap={"ix": IX, "p": "http://p"})
    for k, vs in (("id", ["f1", "f2"]), ("decimals", ["0", "2", "-3", "INF", "x", "", " 2", "1.5"]), ("precision", ["0", "2", "INF", "y", "+4"]), ("name", ["p:a", "p:b"]), ("unitRef", ["u1", "u2", ""]), ("contextRef", ["c1", "c2", ""]),
                  (XSI_NIL, ["true", "1", " true ", "false", "0", "x"]), ("scale", ["0", "3"]), ("format", ["ixt:num-dot-decimal"]), ("sign", ["-"])):
        if r.random() < (.2 if k == XSI_NIL else .6):
            e.set(k, r.choice(vs))
    e.text = r.choice(["1", "12.5", " 1 ", "", None, "x", "  "])
    if r.random() < .3:
        for _ in range(r.choice([1, 1, 2])):
            c = etree.SubElement(e, "{%s}nonFraction" % IX)
            c.text = r.choice(["1", "2", None])
            c.tail = r.choice([None, " ", "3"])
    return e


def a_concept(g):
    r = g.r
    return Concept(QName("http://p", "p", r.choice(["a", "b"])), "i", [], "instant", None, True, "xbrli:monetaryItemType")


def some_concepts(g):
    return [a_concept(g) for _ in range(g.r.choice([0, 1, 2]))]


GENERATORS = {"number1": number_element, "k": a_concept, "es": some_concepts}


class NoDiagnostics(InMemoryErrorRepository):
    """diagnostics are not observed here (C27)"""
    def insert_premade(self, error: ErrorInstance) -> None:
        pass


class Silent(FilingContext):
    """a filing without facts, whose diagnostics are not observed"""
    def __init__(self) -> None:
        super().__init__()
        self.diagnostics: NoDiagnostics = NoDiagnostics()

    def get_error_repository(self) -> InMemoryErrorRepository:
        return self.diagnostics


class Concepts(InMemoryReportElementRepository):
    """the concepts of a taxonomy, looked up by name"""
    def __init__(self, es: list[Concept]) -> None:
        super().__init__()
        self.es: list[Concept] = es

    def get_typed_by_qname(self, qname: QName, report_element_type: type) -> Concept:
        for e in self.es:
            if e.get_name() == qname:
                return e
        raise ValueError("no such concept")


class Filing(FilingContext):
    """a filing without facts: concepts, one unit and one context"""
    def __init__(self, es: list[Concept], units: dict[str, UnitCharacteristic], contexts: list[str]) -> None:
        super().__init__()
        self.facts: InMemoryFactRepository = InMemoryFactRepository()
        self.diagnostics: InMemoryErrorRepository = InMemoryErrorRepository()
        self.elements: Concepts = Concepts(es)
        self.characteristics: InMemoryCharacteristicRepository = InMemoryCharacteristicRepository()
        self.contexts: InMemoryContextRepository = InMemoryContextRepository()
        for k in units:
            self.characteristics.upsert(k, units[k])
        for c in contexts:
            self.contexts.insert_context(Context(c))

    def get_error_repository(self) -> InMemoryErrorRepository:
        return self.diagnostics

    def get_fact_repository(self) -> InMemoryFactRepository:
        return self.facts

    def get_report_element_repository(self) -> InMemoryReportElementRepository:
        return self.elements

    def get_characteristic_repository(self) -> InMemoryCharacteristicRepository:
        return self.characteristics

    def get_context_repository(self) -> InMemoryContextRepository:
        return self.contexts


def numbers(f: Filing) -> list[int]:
    return [e.get_numeric_code() for e in f.diagnostics.get_all()]


def code(f: Filing, c: ErrorCode) -> int:
    return f.diagnostics.create(c, None, fact_id="", concept_name="", unit_id="", context_id="").get_numeric_code()


# ------------------------------------------------------------------ what the element says
@law("C18")
def a_number_has_the_identifier_and_context_of_its_element(number1: _Element):
    assume(number1.getparent() is None and len(list(number1.iterchildren("*"))) == 0)
    assume(number1.get("precision") is None)
    c = Context("c")
    fact = parse_non_fraction_fact_element(number1, c, Silent(), set())
    assert fact.get_id() == number1.get("id")
    assert fact.get_context() is c


@law("C18")
def a_number_has_the_accuracy_of_its_element(number1: _Element):
    assume(number1.getparent() is None and len(list(number1.iterchildren("*"))) == 0)
    assume(number1.get(XSI_NIL) is None)
    fact = parse_non_fraction_fact_element(number1, Context("c"), Silent(), set())
    assert fact.get_decimals() == number_or_none(number1.get("decimals"), True)
    assert fact.get_precision() == number_or_none(number1.get("precision"), False)


@law("C18")
def a_nil_number_has_no_value(number1: _Element):
    assume(number1.getparent() is None and len(list(number1.iterchildren("*"))) == 0)
    assume(number1.get("precision") is None)
    assume((number1.get(XSI_NIL) or "").strip() == "true" or (number1.get(XSI_NIL) or "").strip() == "1")
    assert is_nil(number1)
    assert parse_non_fraction_fact_element(number1, Context("c"), Silent(), set()).get_value_as_str() == ""


@law("C18")
def a_number_is_read_from_its_text(number1: _Element):
    assume(number1.get(XSI_NIL) is None)
    assume(number1.getparent() is None and len(list(number1.iterchildren("*"))) == 0)
    assume(number1.get("precision") is None and number1.get("decimals") is None)
    text = "".join(number1.xpath("text()"))
    f = Silent()
    want = "" if text == "" else process_non_fraction_value(number1, text, f.diagnostics)
    assert parse_non_fraction_fact_element(number1, Context("c"), f, set()).get_value_as_str() == want


# ------------------------------------------------------------------ references that do not resolve
@law("C18")
def a_fact_without_name_is_none(number1: _Element):
    assume(number1.get("name") is None)
    f = Filing([], {}, [])
    parse_facts([number1], {}, f, set())
    assert len(f.facts.get_all()) == 0
    assert numbers(f) == [code(f, ErrorCode.IXBRL_FACT_WITHOUT_CONCEPT_NAME)]


@law("C18")
def a_fact_of_no_concept_is_none(number1: _Element, es: list[Concept]):
    assume(number1.get("name") is not None)
    name = qname_from_str(number1.get("name"), number1)
    assume(not any(e.get_name() == name for e in es))
    f = Filing(es, {}, [])
    parse_facts([number1], {}, f, set())
    assert len(f.facts.get_all()) == 0
    assert numbers(f) == [code(f, ErrorCode.IXBRL_FACT_INVALID_CONCEPT)]


@law("C18")
def a_fact_of_no_unit_is_none(number1: _Element, k: Concept):
    assume(number1.get("name") is not None and number1.get("unitRef"))
    assume(k.get_name() == qname_from_str(number1.get("name"), number1))
    f = Filing([k], {}, [])
    parse_facts([number1], {}, f, set())
    assert len(f.facts.get_all()) == 0
    assert numbers(f) == [code(f, ErrorCode.IXBRL_INVALID_FACT_UNIT_ID)]


@law("C18")
def a_fact_of_no_context_is_none(number1: _Element, k: Concept, u: UnitCharacteristic):
    assume(number1.get("name") is not None and number1.get("unitRef"))
    assume(k.get_name() == qname_from_str(number1.get("name"), number1))
    f = Filing([k], {number1.get("unitRef"): u}, [])
    parse_facts([number1], {}, f, set())
    assert len(f.facts.get_all()) == 0
    assert numbers(f) == [code(f, ErrorCode.IXBRL_FACT_WITHOUT_CONTEXT if number1.get("contextRef") is None else ErrorCode.IXBRL_INVALID_FACT_CONTEXT_ID)]
