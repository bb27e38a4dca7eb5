"""C20 - every problem found is reported as a complete diagnostic (the store and the diagnostic itself)."""
from typing import Optional
from contracts.dsl import law, raises, outcome, assume
from brel import QName
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.errors.error_instance import ErrorInstance
from brel.errors.severity import Severity
from brel.errors.area import Area


@law("C20")
def diagnostics_are_kept_in_the_order_found(es: list[ErrorInstance], e: ErrorInstance, c: bool):
    repo = InMemoryErrorRepository()
    for x in es:
        repo.insert_premade(x)
    assert repo.get_all() == es
    repo.upsert_if(c, e)
    if c:
        assert repo.get_all() == es + [e]
    else:
        assert repo.get_all() == es


@law("C20")
def a_diagnostic_has_exactly_one_severity(e: ErrorInstance):
    n = 0
    if e.get_severity() is Severity.ERROR:
        n = n + 1
    if e.get_severity() is Severity.WARNING:
        n = n + 1
    if e.get_severity() is Severity.INFO:
        n = n + 1
    assert n == 1


@law("C20", bounded=True)
def the_severity_query_partitions(es: list[ErrorInstance]):
    repo = InMemoryErrorRepository()
    for x in es:
        repo.insert_premade(x)
    a = repo.get_by_severity(Severity.ERROR)
    b = repo.get_by_severity(Severity.WARNING)
    c = repo.get_by_severity(Severity.INFO)
    assert len(a) + len(b) + len(c) == len(es)
    assert repo.get_all() == es


@law("C20")
def the_severity_query_selects(es: list[ErrorInstance], s: Severity):
    repo = InMemoryErrorRepository()
    for x in es:
        repo.insert_premade(x)
    assert repo.get_by_severity(s) == [x for x in es if x.get_severity() is s]


@law("C20")
def a_diagnostic_says_what_it_was_given(s: Severity, a: Area, n: str, m: str, h: Optional[str], q: Optional[QName]):
    e = ErrorInstance(s, a, n, m, h, q)
    assert e.get_severity() is s
    assert e.get_area() is a
    assert e.get_numeric_code() == n
    assert e.get_message() == m
    assert e.get_hint() == h
    assert e.get_xbrl_error_code() is q
    assert e.get_context() is None
    code = s.value + "-" + a.value + "-" + n
    if q is not None:
        code = code + " [" + q.clark_notation() + "]"
    assert e.get_full_error_code() == code
    assert str(e) == code + ": " + m
