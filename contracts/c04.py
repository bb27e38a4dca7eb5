"""C04 - values convert according to their text and the concept's type."""
import re
from typing import Literal
from decimal import Decimal
from contracts.dsl import law, outcome, assume
from brel import Context, Fact, QName
from brel.characteristics import ConceptCharacteristic
from brel.reportelements import Concept


@law("C04")
def text_is_unchanged(c: Context, v: str, i: str):
    f = Fact(c, v, i)
    assert str(f) == v
    assert f.get_value_as_str() == v


@law("C04")
def integer_conversion(f: Fact):
    a = outcome(int, f)
    b = outcome(int, str(f))
    assert a[0] == b[0]
    if a[0] == "ok":
        assert a[1] == b[1]
    assert outcome(f.get_value_as_int) == a


@law("C04")
def float_conversion(f: Fact):
    a = outcome(float, f)
    b = outcome(float, str(f))
    assert a[0] == b[0]
    if a[0] == "ok":
        assert a[1] == b[1] or (a[1] != a[1] and b[1] != b[1])


@law("C04")
def bool_conversion(f: Fact):
    t = str(f).upper()
    a = outcome(bool, f)
    if t == "TRUE":
        assert a == ("ok", True)
    elif t == "FALSE":
        assert a == ("ok", False)
    else:
        assert a[0] == "raise"
    assert outcome(f.get_value_as_bool) == a


@law("C04", bounded=True)
def conversions_of_plain_numerals(f: Fact):
    v = str(f)
    if re.fullmatch("[+-]?[0-9]+", v):
        n = 0
        for ch in v:
            if ch.isdigit():
                n = n * 10 + ord(ch) - 48
        assert int(f) == (-n if v[0] == "-" else n)
    elif re.fullmatch("[+-]?[0-9]*[.][0-9]*", v) or not re.search("[0-9]", v):
        assert outcome(int, f)[0] == "raise"
    if re.fullmatch("[+-]?([0-9]+([.][0-9]*)?|[.][0-9]+)([eE][+-]?[0-9]{1,2})?", v):
        assert float(f) == float(Decimal(v))
    elif not re.search("[0-9]", v) and v.lower().strip() not in ("nan", "inf", "-inf", "+inf", "infinity"):
        assert outcome(float, f)[0] == "raise"


@law("C04")
def typed_value(f: Fact):
    assume(f.get_context().get_concept() is not None)
    k = f.get_context().get_concept().get_value()
    a = outcome(f.get_value)
    if k.is_integer():
        assert a == outcome(int, f)
    elif k.is_numeric():
        b = outcome(float, f)
        assert a[0] == b[0]
        assert a[0] != "ok" or a[1] == b[1] or a[1] != a[1]
    elif k.is_boolean():
        assert a == outcome(bool, f)
    else:
        assert a == ("ok", str(f))


INT = ("integerItemType nonPositiveIntegerItemType negativeIntegerItemType longItemType intItemType shortItemType byteItemType nonNegativeIntegerItemType "
       "unsignedLongItemType unsignedIntItemType unsignedShortItemType unsignedByteItemType positiveIntegerItemType noDecimalsMonetaryItemType nonNegativeNoDecimalsMonetaryItemType").split()
NUM = ("decimalItemType floatItemType doubleItemType monetaryItemType sharesItemType pureItemType percentItemType perShareItemType areaItemType volumeItemType massItemType "
       "energyItemType powerItemType lengthItemType memoryItemType nonNegativeMonetaryItemType weightItemType insolationItemType temperatureItemType pressureItemType frequencyItemType "
       "irradianceItemType speedItemType planeAngleItemType voltageItemType electricCurrentItemType forceItemType electricChargeItemType flowItemType massFlowItemType monetaryPerLengthItemType "
       "monetaryPerAreaItemType monetaryPerVolumeItemType monetaryPerDurationItemType monetaryPerEnergyItemType monetaryPerMassItemType ghgEmissionsItemType energyPerMonetaryItemType "
       "ghgEmissionsPerMonetaryItemType volumePerMonetaryItemType perUnitItemType").split()
TXT = ("stringItemType normalizedStringItemType tokenItemType languageItemType NameItemType NCNameItemType dateItemType dateTimeItemType timeItemType gYearItemType anyURIItemType "
       "QNameItemType textBlockItemType domainItemType enumerationItemType durationItemType base64BinaryItemType ownItemType escapedItemType xmlNodesItemType xmlItemType guidanceItemType noLangTokenItemType noLangStringItemType prefixedContentItemType SQNameItemType gYearListItemType fractionItemType hexBinaryItemType gYearMonthItemType gMonthDayItemType gDayItemType gMonthItemType IntegerItemType myintegerItemType integerItemTypeX").split()


@law("C04", bounded=True)
def typed_value_by_data_type(n: QName, t: Literal[tuple(INT + NUM + TXT + ["booleanItemType"] * 6)], p: Literal["xbrli:", "dtr:", "x:", ""],
                             v: Literal["1", "-7", "+3", "007", "123456789012345678901234567890", "1.5", "-0.25", "1e3", "true", "TRUE", "False", "yes", "", " ", "abc", "2020-01-01", "1,000", "0x10"]):
    c = Context("c")
    c._add_characteristic(ConceptCharacteristic(Concept(n, None, [], "instant", None, False, p + t)))
    f = Fact(c, v, "f")
    a = outcome(f.get_value)
    isint = re.fullmatch("[+-]?[0-9]+", v) is not None
    isnum = re.fullmatch("[+-]?([0-9]+([.][0-9]*)?|[.][0-9]+)(e[0-9]+)?", v) is not None
    if t in INT:
        assert a[0] == ("ok" if isint else "raise")
        if isint:
            assert type(a[1]) is int and a[1] == int(Decimal(v))
    elif t in NUM:
        assert a[0] == ("ok" if isnum else "raise")
        if isnum:
            assert type(a[1]) is float and a[1] == float(Decimal(v))
    elif t == "booleanItemType":
        if v.lower() in ("true", "false"):
            assert a == ("ok", v.lower() == "true")
        else:
            assert a[0] == "raise"
    else:
        assert a == ("ok", v)
