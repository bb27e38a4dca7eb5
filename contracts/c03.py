"""C03 - a context binds each aspect at most once and answers lookups accordingly."""
from contracts.dsl import law, assume
from brel import Context, Fact
from brel.characteristics import (Aspect, ICharacteristic, ConceptCharacteristic, PeriodCharacteristic, EntityCharacteristic, UnitCharacteristic,
                                  ExplicitDimensionCharacteristic, TypedDimensionCharacteristic)


@law("C03", bounded=True)
def first_value_of_an_aspect_wins(cs: list[ICharacteristic], a: Aspect):
    c = Context("c")
    model = {}
    for x in cs:
        c._add_characteristic(x)
        if x.get_aspect() not in model:
            model[x.get_aspect()] = x
    assert c.has_characteristic(a) == (a in model)
    if a in model:
        assert c.get_characteristic(a) is model[a]
    else:
        assert c.get_characteristic(a) is None


@law("C03", bounded=True)
def listed_aspects_are_those_with_a_value(cs: list[ICharacteristic], a: Aspect):
    c = Context("c")
    for x in cs:
        c._add_characteristic(x)
    assert (a in c.get_aspects()) == (c.get_characteristic(a) is not None)
    assert c.has_characteristic(a) == (a in c.get_aspects())


@law("C03", bounded=True)
def aspects_are_listed_once_in_order_of_name(cs: list[ICharacteristic]):
    c = Context("c")
    names = []
    for x in cs:
        c._add_characteristic(x)
        n = x.get_aspect().get_name()
        if n not in names:
            names.append(n)
    assert [a.get_name() for a in c.get_aspects()] == sorted(names)


# contract of the interface: the aspect of a value never changes
OBSERVERS = ["ICharacteristic.get_aspect"]


def in_order(c: Context, a: Aspect) -> bool:
    """the class invariant, at one aspect: it is listed exactly when it has a value, which belongs to it"""
    v = c.get_characteristic(a)
    return c.has_characteristic(a) == (v is not None) and (v is None or v.get_aspect() == a)


@law("C03")
def a_new_context_is_empty(i: str, a: Aspect):
    c = Context(i)
    assert in_order(c, a)
    assert c.get_characteristic(a) is None
    assert not c.has_characteristic(a)


@law("C03", bounded=True)
def the_first_value_stays(c: Context, x: ICharacteristic, a: Aspect):
    """induction step: adding a value to a context in which the aspects at hand are in order"""
    assume(in_order(c, a))
    assume(in_order(c, x.get_aspect()))
    had = c.has_characteristic(x.get_aspect())
    before = c.get_characteristic(a)
    c._add_characteristic(x)
    assert in_order(c, a)
    assert in_order(c, x.get_aspect())
    if had or a != x.get_aspect():
        assert c.get_characteristic(a) is before
    else:
        assert c.get_characteristic(a) is x


@law("C03")
def a_value_of_a_known_aspect_is_not_listed_again(c: Context, x: ICharacteristic):
    had = c.has_characteristic(x.get_aspect())
    n = len(c.get_aspects())
    c._add_characteristic(x)
    assert len(c.get_aspects()) == (n if had else n + 1)


@law("C03")
def the_concept_is_the_value_of_its_aspect(c: Context):
    assert c.get_concept() is c.get_characteristic(Aspect.CONCEPT)


@law("C03")
def the_period_is_the_value_of_its_aspect(c: Context):
    assert c.get_period() is c.get_characteristic(Aspect.PERIOD)


@law("C03")
def the_entity_is_the_value_of_its_aspect(c: Context):
    assert c.get_entity() is c.get_characteristic(Aspect.ENTITY)


@law("C03")
def the_unit_is_the_value_of_its_aspect(c: Context):
    assert c.get_unit() is c.get_characteristic(Aspect.UNIT)


@law("C03")
def fact_answers_as_its_context(f: Fact, a: Aspect):
    c = f.get_context()
    assert f.get_aspects() is c.get_aspects() or f.get_aspects() == c.get_aspects()
    assert f.get_characteristic(a) is c.get_characteristic(a)


@law("C03")
def fact_has_the_period_and_entity_of_its_context(f: Fact):
    c = f.get_context()
    assert f.get_period() is c.get_period()
    assert f.get_entity() is c.get_entity()


@law("C03")
def fact_has_the_unit_of_its_context(f: Fact):
    c = f.get_context()
    assert f.get_unit() is c.get_unit()
    assert f.is_core() == (not c.has_noncore_dimensions())


@law("C03")
def fact_of_a_concept(f: Fact):
    assume(f.get_context().get_concept() is not None)
    assert f.get_concept() is f.get_context().get_concept().get_value()


@law("C03")
def dimensions_are_the_other_aspects(c: Context):
    want = False
    for a in c.get_aspects():
        if not a.is_core():
            want = True
    assert c.has_noncore_dimensions() == want


@law("C03")
def each_kind_of_value_belongs_to_its_aspect(p: PeriodCharacteristic, e: EntityCharacteristic, u: UnitCharacteristic, k: ConceptCharacteristic):
    assert p.get_aspect() is Aspect.PERIOD
    assert e.get_aspect() is Aspect.ENTITY
    assert u.get_aspect() is Aspect.UNIT
    assert k.get_aspect() is Aspect.CONCEPT


@law("C03")
def aspects_are_equal_by_name(a: Aspect, b: Aspect):
    assert (a == b) == (a.get_name() == b.get_name())
    if a == b:
        assert hash(a) == hash(b)


@law("C03", bounded=True)
def lookup_returns_a_value_of_that_aspect(cs: list[ICharacteristic], a: Aspect):
    c = Context("c")
    for x in cs:
        c._add_characteristic(x)
    v = c.get_characteristic(a)
    if v is not None:
        assert v.get_aspect() == a
        assert v in cs


@law("C03", bounded=True)
def text_of_a_value(c: Context, a: Aspect):
    v = c.get_characteristic(a)
    assert c.get_characteristic_as_str(a) == ("" if v is None else str(v.get_value()))
