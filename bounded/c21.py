from bounded.common import *

RULE = "random schemas (several namespaces, prefixes, default namespaces, all kinds, typed domains in other schemas, invalid declarations); every declaration compared with the report element found"
KIND = dict(Concept="concept", Abstract="abstract", LineItems="lineitems", Hypercube="hypercube", Dimension="dimension", Member="member")
BAD = dict(period="INVALID_CONCEPT_PERIOD_TYPE", period0="INVALID_CONCEPT_PERIOD_TYPE", balance="INVALID_CONCEPT_BALANCE_TYPE", nillable="INVALID_CONCEPT_NILLABLE_VALUE", type="MISSING_CONCEPT_DATA_TYPE")
XSNS = "http://www.w3.org/2001/XMLSchema"


def exp(e):
    d = dict(kind=e.kind, name=e.clark, id=e.id)
    if e.kind == "concept":
        d.update(type=e.decltype, period=e.period, balance=e.balance, nillable=e.nillable in ("true", "1"))
    if e.kind == "dimension":
        d["typed"] = None
        if e.typed: d["typed"] = "{%s}%s" % ((e.typed.tns, e.typed.tname) if e.typed.form == "type" else (XSNS, "anyType"))
    return repr(sorted(d.items()))


def obs(x):
    k = KIND.get(type(x).__name__, "?")
    d = dict(kind=k, name=O.qn(x.get_name()), id=x.get_id())
    if k == "concept":
        d.update(type=x.get_data_type(), period=x.get_period_type(), balance=x.get_balance_type(), nillable=x.is_nillable())
    if k == "dimension":
        d["typed"] = None if x.is_explicit() else O.qn(x.get_type())
        if x.is_explicit():
            try: x.get_type(); expect(False, "gettype", "an explicit dimension has a type", d)
            except Fail: raise
            except Exception: pass
    return repr(sorted(d.items()))


def elements(env, **f):
    R = report(env, nels=env.rng.choice([6, 15, 30]), nfacts=2, **f)
    F = open_report(env, R)
    e = [exp(x) for x in R.els if x.kind != "none"]
    o = [obs(x) for x in F.get_all_report_elements()]
    miss, extra = O.diff_multiset(e, o)
    expect(not miss and not extra, "elements", "report elements differ from the declarations", "missing %s\nsurplus %s" % (miss[:4], extra[:4]))
    return R, F


def plain(env):
    R, F = elements(env)
    expect(codes(F.get_all_errors()) == R.warned(), "spurious", "a diagnostic although everything is valid", [str(x) for x in F.get_all_errors()])


def invalid(env):
    R, F = elements(env, baddecl=1)
    miss, extra = O.diff_multiset([BAD[x.bad] for x in R.badels] + R.warned(), codes(F.get_all_errors()))
    expect(not miss and not extra, "diagnostics", "invalid declarations and diagnostics differ", "missing %s surplus %s" % (miss, extra))
    for x in R.badels:
        expect(any(x.name in y.get_message() for y in F.get_all_errors()), "names", "no diagnostic names %s" % x.name, [str(y) for y in F.get_all_errors()])


CASES = dict(plain=plain, invalid=invalid)
