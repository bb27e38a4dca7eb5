"""C15 - inline numbers: moving the decimal point, the sign, and texts that are no numbers (the formats themselves: bounded/c15.py)."""
import re
from decimal import Decimal
from typing import Literal
from lxml import etree
from lxml.etree import _Element
from contracts.dsl import law, assume
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.errors.error_code import ErrorCode
from brel.parsers.XHMTL.elements.parse_non_fraction import process_non_fraction_value
from brel.parsers.XHMTL.xhtml_parse_transformation_registry import apply_scale, normalize_numerical_fact_value, parse_numerical_fact_value, process_number_part

IX = "http://www.xbrl.org/2013/inlineXBRL"


def some_number(g):
    r = g.r
    e = etree.Element("{%s}nonFraction" % IX)
    for k, vs in (("format", ["ixt:num-dot-decimal", "ixt:num-comma-decimal", "ixt:other", ""]), ("scale", ["0", "3", "-2", "x"]), ("sign", ["-", "-", "+", ""])):
        if r.random() < .6:
            e.set(k, r.choice(vs))
    return e


def some_digits(g):
    return "".join(g.r.choice("0123456789") for _ in range(g.r.choice([0, 0, 1, 1, 2, 3, 5])))


def some_text(g):
    r = g.r
    return "".join(r.choice("0123456789") if r.random() < .7 else r.choice(" .,'\u00a0-x") for _ in range(r.choice([0, 1, 2, 3, 5, 8])))


def some_count(g):
    return g.r.choice([-3, -2, -1, 0, 0, 1, 2, 3, 6])


GENERATORS = {"number": some_number, "whole": some_digits, "part": some_digits, "text": some_text, "k": some_count, "n": some_count}


def one(f: InMemoryErrorRepository, code: ErrorCode, where: _Element) -> bool:
    """the only diagnostic is this one, and it says where"""
    es = f.get_all()
    if len(es) != 1:
        return False
    want = f.create(code, None, sign="", value="", number="", format="", scale="")
    return es[0].get_numeric_code() == want.get_numeric_code() and es[0].get_area() is want.get_area() and es[0].get_severity() is want.get_severity() and es[0].get_context() is where


# ------------------------------------------------------------------ scale
@law("C15")
def scaling_up_moves_the_point_to_the_right(whole: str, part: str, n: int):
    assume(n >= 0)
    a, b = apply_scale(whole, part, n)
    assert len(a) == len(whole) + n
    if n <= len(part):
        assert a + b == whole + part
    else:
        assert a + b == whole + part + "0" * (n - len(part))


@law("C15")
def scaling_down_moves_the_point_to_the_left(whole: str, part: str, n: int):
    assume(n < 0)
    a, b = apply_scale(whole, part, n)
    assert len(b) == len(part) - n
    if -n <= len(whole):
        assert a + b == whole + part
    else:
        assert a + b == "0" * (-n - len(whole)) + whole + part


# ------------------------------------------------------------------ grouping
@law("C15")
def digits_without_separators_are_kept(text: str):
    assume(re.fullmatch("[0-9]+", text))
    assert process_number_part(text) == text


@law("C15", bounded=True)
def only_separators_are_removed(text: str):
    assume(text != "")
    assert process_number_part(text) == "".join(c for c in text if c not in " \u00a0.,，'`´’′＇")


# ------------------------------------------------------------------ whole numbers
def is_refused(text: str, format: str, number: _Element) -> bool:
    f = InMemoryErrorRepository()
    return parse_numerical_fact_value(text, format, "0", number, f) == text and one(f, ErrorCode.NUMBER_DOES_NOT_MATCH_EXPECTED_FORMAT, number)


@law("C15")
def text_with_a_letter_is_no_number(text: str, number: _Element):
    assume(re.fullmatch("[0-9.,]*[A-Za-z][0-9A-Za-z]*", text))
    assert is_refused(text, "ixt:num-dot-decimal", number)
    assert is_refused(text, "ixt:num-comma-decimal", number)
    assert is_refused(text, "ixt:num-dot-decimal-apos", number)
    assert is_refused(text, "ixt:num-comma-decimal-apos", number)


@law("C15")
def text_without_digits_is_no_number(text: str, number: _Element):
    assume(re.fullmatch("[!-/:-~]*", text))
    assert is_refused(text, "ixt:num-dot-decimal", number)
    assert is_refused(text, "ixt:num-comma-decimal", number)
    assert is_refused(text, "ixt:num-dot-decimal-apos", number)
    assert is_refused(text, "ixt:num-comma-decimal-apos", number)


@law("C15")
def text_without_digits_is_no_number_of_units(text: str, number: _Element):
    assume(re.fullmatch("[!-/:-~]*", text))
    assert is_refused(text, "ixt:num-unit-decimal", number)
    assert is_refused(text, "ixt:num-unit-decimal-apos", number)


@law("C15")
def a_second_decimal_point_is_no_number(text: str, number: _Element):
    assume(re.fullmatch("[0-9]*[.][0-9]*[.][0-9]*", text))
    assert is_refused(text, "ixt:num-dot-decimal", number)
    assert is_refused(text, "ixt:num-dot-decimal-apos", number)


@law("C15")
def a_second_decimal_comma_is_no_number(text: str, number: _Element):
    assume(re.fullmatch("[0-9]*[,][0-9]*[,][0-9]*", text))
    assert is_refused(text, "ixt:num-comma-decimal", number)
    assert is_refused(text, "ixt:num-comma-decimal-apos", number)


@law("C15")
def numbers_of_other_formats_are_diagnosed(text: str, number: _Element):
    f = InMemoryErrorRepository()
    parse_numerical_fact_value(text, "ixt:no-such-format", "0", number, f)
    assert one(f, ErrorCode.UNSUPPORTED_NON_FRACTION_FACT_FORMAT, number)


@law("C15")
def zero_is_zero(text: str, scale: str, format: Literal["ixt:fixed-zero", "ixt:zerodash", "ixt:numdash", "ixt:nocontent"], number: _Element):
    f = InMemoryErrorRepository()
    assume(format == "ixt:fixed-zero" or format == "ixt:zerodash" or format == "ixt:numdash")
    assert parse_numerical_fact_value(text, format, scale, number, f) == "0"
    assert len(f.get_all()) == 0


@law("C15", bounded=True)
def a_number_has_the_value_it_displays(whole: str, part: str, n: int, number: _Element):
    f = InMemoryErrorRepository()
    assume(whole != "" and -12 <= n <= 12)
    v = parse_numerical_fact_value(whole + ("." + part if part else ""), "ixt:num-dot-decimal", str(n), number, f)
    assert Decimal(v) == Decimal(whole + "." + (part or "0")).scaleb(n)
    assert len(f.get_all()) == 0


def value(text: str, format: str, scale: str, number: _Element) -> str:
    f = InMemoryErrorRepository()
    v = parse_numerical_fact_value(text, format, scale, number, f)
    assume(len(f.get_all()) == 0)
    return v


@law("C15", bounded=True)
def a_plain_decimal_is_its_own_value(text: str, number: _Element):
    assume(re.fullmatch("[1-9][0-9]*([.][0-9]*[1-9])?", text))
    assert value(text, "ixt:num-dot-decimal", "0", number) == text


@law("C15", bounded=True)
def thousands(text: str, number: _Element):
    assume(re.fullmatch("[1-9][0-9]*", text))
    assert value(text, "ixt:num-dot-decimal", "3", number) == text + "000"


@law("C15", bounded=True)
def percent(text: str, number: _Element):
    assume(re.fullmatch("[1-9][0-9]*[1-9]", text))
    assume(len(text) > 2)
    assert value(text, "ixt:num-dot-decimal", "-2", number) == text[:-2] + "." + text[-2:]


# ------------------------------------------------------------------ zeros that say nothing, and those that do
@law("C15")
def a_normal_decimal_stays(text: str):
    assume(re.fullmatch("[1-9][0-9]*[.][0-9]*[1-9]", text))
    assert normalize_numerical_fact_value(text) == text


@law("C15")
def zeros_around_a_decimal_are_dropped(text: str, k: int, n: int):
    assume(re.fullmatch("[1-9][0-9]*[.][0-9]*[1-9]", text))
    assert normalize_numerical_fact_value("0" * k + text + "0" * n) == text


@law("C15")
def zeros_of_whole_numbers_are_kept(text: str, k: int, n: int):
    assume(re.fullmatch("[1-9][0-9]*", text))
    assert normalize_numerical_fact_value("0" * k + text + "." + "0" * n) == text


@law("C15")
def zero_before_the_point_is_kept(text: str, k: int, n: int):
    assume(re.fullmatch("[0-9]*[1-9]", text))
    assert normalize_numerical_fact_value("0" * k + "." + text + "0" * n) == "0." + text


@law("C15")
def nothing_but_zeros_is_zero(k: int, n: int):
    assert normalize_numerical_fact_value("0" * k + "." + "0" * n) == "0"


@law("C15")
def one_separator_is_removed(whole: str, part: str):
    assume(re.fullmatch("[0-9]+", whole) and re.fullmatch("[0-9]+", part))
    assert process_number_part(whole + " " + part) == whole + part
    assert process_number_part(whole + "\u00a0" + part) == whole + part
    assert process_number_part(whole + "." + part) == whole + part
    assert process_number_part(whole + "," + part) == whole + part
    assert process_number_part(whole + "'" + part) == whole + part
    assert process_number_part(whole + "´" + part) == whole + part
    assert process_number_part(whole + "`" + part) == whole + part
    assert process_number_part(whole + "’" + part) == whole + part
    assert process_number_part(whole + "′" + part) == whole + part
