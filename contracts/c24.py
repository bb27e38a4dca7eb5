"""C24 - periods, units, entities and dimensions behave as values."""
import datetime
from typing import Literal
from contracts.dsl import law, raises, outcome, assume
from brel import QName
from brel.reportelements import Concept, Dimension, Member
from brel.characteristics import (Aspect, ICharacteristic, PeriodCharacteristic, EntityCharacteristic, UnitCharacteristic, ConceptCharacteristic,
                                  ExplicitDimensionCharacteristic, TypedDimensionCharacteristic)


# ------------------------------------------------------------------ periods
@law("C24")
def instant_has_its_date(d: datetime.date):
    p = PeriodCharacteristic._instant(d.isoformat())
    assert p.is_instant()
    assert p.get_instant_period() == d
    assert raises(p.get_start_period)
    assert raises(p.get_end_period)
    assert str(p) == d.isoformat()
    assert p.get_value() is p
    assert p.get_aspect() is Aspect.PERIOD


@law("C24")
def duration_has_its_dates(a: datetime.date, b: datetime.date):
    if b < a:
        assert raises(PeriodCharacteristic._duration, a.isoformat(), b.isoformat())
    else:
        p = PeriodCharacteristic._duration(a.isoformat(), b.isoformat())
        assert not p.is_instant()
        assert p.get_start_period() == a
        assert p.get_end_period() == b
        assert raises(p.get_instant_period)
        assert str(p) == a.isoformat() + "/" + b.isoformat()
        assert p.get_value() is p


@law("C24", bounded=True)
def text_that_is_no_date_is_refused(t: Literal["", "abc", "2020", "2020-13-01", "2020-02-30", "2021-02-29", "2020-00-10", "2020-01-32", "31", "2020-04-31", "--", "99999999999999999999", "2020-01-00"], d: datetime.date):
    assert raises(PeriodCharacteristic._instant, t)
    assert raises(PeriodCharacteristic._duration, t, d.isoformat())
    assert raises(PeriodCharacteristic._duration, d.isoformat(), t)
    assert not PeriodCharacteristic._is_date(t)


@law("C24", bounded=True)
def every_calendar_day_is_a_date(y: Literal[tuple(range(1900, 2101))], m: Literal[tuple(range(0, 14))], d: Literal[tuple(range(0, 33))]):
    t = "%04d-%02d-%02d" % (y, m, d)
    days = [31, 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    ok = 1 <= m <= 12 and 1 <= d <= days[m - 1 if 1 <= m <= 12 else 0]
    if ok:
        x = PeriodCharacteristic._instant(t).get_instant_period()
        assert (x.year, x.month, x.day) == (y, m, d)
        assert str(PeriodCharacteristic._instant(t)) == t
    elif not (1 <= d <= 12 and 12 < m <= 31):
        assert raises(PeriodCharacteristic._instant, t)


@law("C24")
def instants_are_equal_when_their_dates_are(a: datetime.date, b: datetime.date):
    x, y = PeriodCharacteristic._instant(a.isoformat()), PeriodCharacteristic._instant(b.isoformat())
    assert (x == y) == (a == b)
    assert (y == x) == (a == b)


@law("C24")
def durations_are_equal_when_their_dates_are(a: datetime.date, b: datetime.date, c: datetime.date, d: datetime.date):
    assume(a <= b and c <= d)
    x, y = PeriodCharacteristic._duration(a.isoformat(), b.isoformat()), PeriodCharacteristic._duration(c.isoformat(), d.isoformat())
    assert (x == y) == (a == c and b == d)
    assert (y == x) == (a == c and b == d)


@law("C24")
def an_instant_is_no_duration(a: datetime.date, b: datetime.date, c: datetime.date):
    assume(b <= c)
    x, y = PeriodCharacteristic._instant(a.isoformat()), PeriodCharacteristic._duration(b.isoformat(), c.isoformat())
    assert not (x == y)
    assert not (y == x)


@law("C24", bounded=True)
def periods_are_equal_when_their_dates_are(a: PeriodCharacteristic, b: PeriodCharacteristic):
    if a.is_instant() and b.is_instant():
        want = a.get_instant_period() == b.get_instant_period()
    elif not a.is_instant() and not b.is_instant():
        want = a.get_start_period() == b.get_start_period() and a.get_end_period() == b.get_end_period()
    else:
        want = False
    assert (a == b) == want
    assert (b == a) == want
    assert a == a


@law("C24")
def a_period_whose_text_is_no_date_is_refused(t: str, d: datetime.date):
    assume(not PeriodCharacteristic._is_date(t))
    assert raises(PeriodCharacteristic._instant, t)
    assert raises(PeriodCharacteristic._duration, t, d.isoformat())
    assert raises(PeriodCharacteristic._duration, d.isoformat(), t)


# ------------------------------------------------------------------ units
@law("C24")
def unit_has_its_measures(name: str, num: list[QName], den: list[QName]):
    u = UnitCharacteristic(name, num, den)
    assert u.get_numerators() == num
    assert u.get_denominators() == den
    assert u.is_simple() == (len(num) == 1 and len(den) == 0)
    assert u.get_value() == name
    assert str(u) == name


@law("C24")
def units_are_equal_by_name(a: UnitCharacteristic, b: UnitCharacteristic):
    assert (a == b) == (a.get_value() == b.get_value())
    assert (a == b) == (b == a)


# ------------------------------------------------------------------ entities
@law("C24")
def entity_has_its_parts(i: str, s: str):
    e = EntityCharacteristic(i, s)
    assert e.get_schema() == s
    assert e.get_value() == "{" + s + "}" + i
    assert str(e) == "{" + s + "}" + i


@law("C24")
def entities_are_equal_when_their_parts_are(i: str, s: str, j: str, t: str):
    assume("}" not in s and "}" not in t)
    assert (EntityCharacteristic(i, s) == EntityCharacteristic(j, t)) == (i == j and s == t)


# ------------------------------------------------------------------ dimensions
@law("C24")
def explicit_dimension_has_its_parts(d: Dimension, m: Member, a: Aspect):
    x = ExplicitDimensionCharacteristic(d, m, a)
    assert x.get_dimension() is d
    assert x.get_member() is m
    assert x.get_value() is m
    assert x.get_aspect() is a
    assert str(x) == str(m)


@law("C24")
def typed_dimension_has_its_parts(d: Dimension, v: str, a: Aspect):
    x = TypedDimensionCharacteristic(d, v, a)
    assert x.get_dimension() is d
    assert x.get_value() == v
    assert x.get_aspect() is a
    assert str(x) == v


@law("C24")
def explicit_dimensions_are_equal_when_their_parts_are(x: ExplicitDimensionCharacteristic, y: ExplicitDimensionCharacteristic):
    assert (x == y) == (x.get_member() == y.get_member() and x.get_aspect() == y.get_aspect())
    assert (x == y) == (y == x)


@law("C24")
def typed_dimensions_are_equal_when_their_parts_are(x: TypedDimensionCharacteristic, y: TypedDimensionCharacteristic):
    assert (x == y) == (x.get_dimension() == y.get_dimension() and x.get_value() == y.get_value() and x.get_aspect() == y.get_aspect())
    assert (x == y) == (y == x)


@law("C24")
def different_kinds_are_different(p: PeriodCharacteristic, e: EntityCharacteristic, u: UnitCharacteristic, x: ExplicitDimensionCharacteristic, t: TypedDimensionCharacteristic):
    assert not (p == e)
    assert not (e == u)
    assert not (u == p)
    assert not (x == t)
    assert not (t == x)
    assert not (e == x)


@law("C24", bounded=True)
def equal_values_hash_alike(a: ICharacteristic, b: ICharacteristic):
    if a == b:
        h, k = outcome(hash, a), outcome(hash, b)
        assert h[0] == k[0] and (h[0] != "ok" or h[1] == k[1])
    assert (a == b) == (b == a)
    assert a == a


@law("C24")
def concept_value(k: Concept):
    c = ConceptCharacteristic(k)
    assert c.get_value() is k
    assert c.get_aspect() is Aspect.CONCEPT
    assert str(c) == str(k.get_name())


@law("C24")
def concepts_are_equal_by_name(a: Concept, b: Concept):
    assert (a == b) == (a.get_name() == b.get_name())
    assert (a == b) == (b == a)
