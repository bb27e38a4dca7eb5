"""C15 - the sign and the default format of an inline number; its digits are under contract in contracts/c15.py."""
from lxml.etree import _Element
from contracts.dsl import law, assume
from contracts.c15 import some_number, some_text, one
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.errors.error_code import ErrorCode
from brel.parsers.XHMTL.elements.parse_non_fraction import process_non_fraction_value
from brel.parsers.XHMTL.xhtml_parse_transformation_registry import parse_numerical_fact_value

PURE = ["brel.parsers.XHMTL.xhtml_parse_transformation_registry:parse_numerical_fact_value"]
GENERATORS = {"number": some_number, "text": some_text}


@law("C15")
def a_number_has_the_sign_scale_and_format_of_its_element(text: str, number: _Element):
    format, scale, sign = number.get("format"), number.get("scale"), number.get("sign")
    assume(format is not None and format != "")
    assume(sign is None or sign == "" or sign == "-")
    f = InMemoryErrorRepository()
    v = process_non_fraction_value(number, text, f)
    plain = parse_numerical_fact_value(text, format, scale if scale else "0", number, f)
    assert v == ("-" + plain if sign == "-" else plain)


@law("C15")
def other_signs_are_diagnosed(text: str, number: _Element):
    format, scale, sign = number.get("format"), number.get("scale"), number.get("sign")
    assume(format is not None and format != "")
    assume(sign is not None and sign != "" and sign != "-")
    f = InMemoryErrorRepository()
    v = process_non_fraction_value(number, text, f)
    assert f.get_all()[0].get_numeric_code() == f.create(ErrorCode.IXBRL_INVALID_SIGN_ATTRIBUTE_VALUE, None, sign="").get_numeric_code()
    assert v == parse_numerical_fact_value(text, format, scale if scale else "0", number, f)


@law("C15")
def without_format_a_decimal_point_is_a_point(text: str, number: _Element):
    assume(number.get("format") is None and (number.get("sign") is None or number.get("sign") == "-"))
    f = InMemoryErrorRepository()
    v = process_non_fraction_value(number, text, f)
    assume(len(f.get_all()) == 0)
    plain = parse_numerical_fact_value(text, "ixt:num-dot-decimal", number.get("scale") if number.get("scale") else "0", number, f)
    assert v == ("-" + plain if number.get("sign") == "-" else plain)
