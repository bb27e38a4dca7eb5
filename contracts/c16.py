"""C16 - fixed values, texts without format, and texts that do not match (the dates themselves: bounded/c16.py)."""
import re
from lxml import etree
from lxml.etree import _Element
from contracts.dsl import law, assume
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.errors.error_code import ErrorCode
from brel.parsers.XHMTL.xhtml_parse_transformation_registry import check_japanese_imperial_date_valid, convert_japanese_imperial_date_to_gregorian, normalize_digits_in_string, parse_literal_fact_value, parse_non_numerical_fact_value

IX = "http://www.xbrl.org/2013/inlineXBRL"


def some_text(g):
    r = g.r
    return "".join(r.choice("0123456789") if r.random() < .5 else r.choice(" .,-/xMay") for _ in range(r.choice([0, 1, 2, 3, 5, 8])))


GENERATORS = {"n": lambda g: g.r.randint(1, 99), "y": lambda g: g.r.choice([1912, 1926, 1989, 2019, g.r.randint(1860, 2030)]), "m": lambda g: g.r.randint(1, 12), "d": lambda g: g.r.randint(1, 31), "element": lambda g: etree.Element("{%s}nonNumeric" % IX), "text": some_text}


def one(f: InMemoryErrorRepository, code: ErrorCode, where: _Element) -> bool:
    """the only diagnostic is this one, and it says where"""
    es = f.get_all()
    if len(es) != 1:
        return False
    want = f.create(code, None, date="", format="")
    return es[0].get_numeric_code() == want.get_numeric_code() and es[0].get_area() is want.get_area() and es[0].get_severity() is want.get_severity() and es[0].get_context() is where


def becomes(text: str, format: str, value: str, element: _Element) -> bool:
    f = InMemoryErrorRepository()
    return parse_non_numerical_fact_value(text, format, element, f) == value and len(f.get_all()) == 0


def is_refused(text: str, format: str, code: ErrorCode, element: _Element) -> bool:
    f = InMemoryErrorRepository()
    parse_non_numerical_fact_value(text, format, element, f)
    return one(f, code, element)


# ------------------------------------------------------------------ fixed values
@law("C16")
def booleans(text: str, element: _Element):
    assert becomes(text, "ixt:fixed-true", "true", element)
    assert becomes(text, "ixt:fixed-false", "false", element)
    assert becomes(text, "ixt:booleantrue", "true", element)
    assert becomes(text, "ixt:booleanfalse", "false", element)


@law("C16")
def empty_values(text: str, element: _Element):
    assert becomes(text, "ixt:fixed-empty", "", element)
    assert becomes(text, "ixt:nocontent", "", element)


@law("C16")
def text_without_format_is_kept(text: str, element: _Element):
    f = InMemoryErrorRepository()
    assert parse_non_numerical_fact_value(text, None, element, f) == text
    assert len(f.get_all()) == 0


# ------------------------------------------------------------------ formats that are none
@law("C16")
def unknown_formats_are_diagnosed(text: str, element: _Element):
    assert is_refused(text, "ixt:no-such-format", ErrorCode.UNSUPPORTED_LITERAL_FACT_FORMAT, element)
    assert is_refused(text, "ixt:date-no-such-format", ErrorCode.UNSUPPORTED_DATE_FORMAT, element)


@law("C16")
def formats_of_numbers_are_diagnosed(text: str, element: _Element):
    assert is_refused(text, "ixt:num-dot-decimal", ErrorCode.UNSUPPORTED_NON_NUMERIC_FACT_FORMAT, element)
    assert is_refused(text, "ixt:num-comma-decimal", ErrorCode.UNSUPPORTED_NON_NUMERIC_FACT_FORMAT, element)
    assert is_refused(text, "ixt:num-unit-decimal", ErrorCode.UNSUPPORTED_NON_NUMERIC_FACT_FORMAT, element)
    assert is_refused(text, "ixt:numdotdecimal", ErrorCode.UNSUPPORTED_NON_NUMERIC_FACT_FORMAT, element)
    assert is_refused(text, "ixt:fixed-zero", ErrorCode.UNSUPPORTED_NON_NUMERIC_FACT_FORMAT, element)


# ------------------------------------------------------------------ dates that are none
NO_DATE = ErrorCode.DATE_DOES_NOT_MATCH_EXPECTED_FORMAT


@law("C16")
def words_are_no_dates(text: str, element: _Element):
    assume(re.fullmatch("[A-Za-z]*", text))
    assert is_refused(text, "ixt:date-day-month", NO_DATE, element)
    assert is_refused(text, "ixt:date-month-day", NO_DATE, element)
    assert is_refused(text, "ixt:date-day-month-year", NO_DATE, element)
    assert is_refused(text, "ixt:date-month-day-year", NO_DATE, element)
    assert is_refused(text, "ixt:date-year-month-day", NO_DATE, element)
    assert is_refused(text, "ixt:date-year-month", NO_DATE, element)
    assert is_refused(text, "ixt:date-month-year", NO_DATE, element)


@law("C16")
def numbers_are_no_dates(text: str, element: _Element):
    assume(re.fullmatch("[0-9]*", text))
    assert is_refused(text, "ixt:date-day-month", NO_DATE, element)
    assert is_refused(text, "ixt:date-month-day", NO_DATE, element)
    assert is_refused(text, "ixt:date-day-month-year", NO_DATE, element)
    assert is_refused(text, "ixt:date-month-day-year", NO_DATE, element)
    assert is_refused(text, "ixt:date-year-month-day", NO_DATE, element)
    assert is_refused(text, "ixt:date-year-month", NO_DATE, element)
    assert is_refused(text, "ixt:date-month-year", NO_DATE, element)


@law("C16", bounded=True)
def one_separator_is_no_full_date(text: str, element: _Element):
    assume(re.fullmatch("[0-9]*[./-][0-9]*", text))
    assert is_refused(text, "ixt:date-day-month-year", NO_DATE, element)
    assert is_refused(text, "ixt:date-month-day-year", NO_DATE, element)
    assert is_refused(text, "ixt:date-year-month-day", NO_DATE, element)


@law("C16")
def text_that_is_no_date_is_kept(text: str, element: _Element):
    assume(re.fullmatch("[A-Za-z]*", text))
    f = InMemoryErrorRepository()
    assert parse_non_numerical_fact_value(text, "ixt:date-day-month-year", element, f) == text


@law("C16")
def ascii_text_has_its_own_digits(text: str):
    assume(re.fullmatch("[!-~]*", text))
    assert normalize_digits_in_string(text) == text


# ------------------------------------------------------------------ Japanese eras
def year_of(era: str, year: str) -> str:
    return convert_japanese_imperial_date_to_gregorian({"era": era, "year": year}, "ixt:date-jpn-era-year-month")["year"]


@law("C16")
def years_of_an_era_count_from_its_first(n: int):
    assume(1 <= n <= 99)
    assert year_of("令和", str(n)) == str(2018 + n)
    assert year_of("平成", str(n)) == str(1988 + n)
    assert year_of("昭和", str(n)) == str(1925 + n)
    assert year_of("大正", str(n)) == str(1911 + n)
    assert year_of("明治", str(n)) == str(1867 + n)


@law("C16")
def the_first_year_of_an_era_has_a_name():
    assert year_of("令和", "元") == "2019"
    assert year_of("平成", "元") == "1989"
    assert year_of("昭和", "元") == "1926"
    assert year_of("大正", "元") == "1912"
    assert year_of("明治", "元") == "1868"


@law("C16")
def a_month_is_of_an_era_when_it_is_not_before_or_after_it(y: int, m: int):
    assume(1 <= m <= 12 and 1800 <= y <= 2100)
    month = 12 * y + m
    assert check_japanese_imperial_date_valid({"era": "令和", "year": str(y), "month": str(m)}) == (month >= 12 * 2019 + 5)
    assert check_japanese_imperial_date_valid({"era": "平成", "year": str(y), "month": str(m)}) == (12 * 1989 + 1 <= month <= 12 * 2019 + 4)
    assert check_japanese_imperial_date_valid({"era": "昭和", "year": str(y), "month": str(m)}) == (12 * 1926 + 12 <= month <= 12 * 1989 + 1)
    assert check_japanese_imperial_date_valid({"era": "大正", "year": str(y), "month": str(m)}) == (12 * 1912 + 7 <= month <= 12 * 1926 + 12)


@law("C16")
def a_day_is_of_an_era_when_it_is_not_before_or_after_it(y: int, m: int, d: int):
    assume(1 <= m <= 12 and 1800 <= y <= 2100 and 1 <= d <= 31)
    day = 10000 * y + 100 * m + d
    assert check_japanese_imperial_date_valid({"era": "令和", "year": str(y), "month": str(m), "day": str(d)}) == (day >= 20190501)
    assert check_japanese_imperial_date_valid({"era": "平成", "year": str(y), "month": str(m), "day": str(d)}) == (19890108 <= day <= 20190430)
    assert check_japanese_imperial_date_valid({"era": "大正", "year": str(y), "month": str(m), "day": str(d)}) == (19120730 <= day <= 19261224)
