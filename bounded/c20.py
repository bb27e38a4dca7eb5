"""diagnostics: the registry, every call site, the repository, and one small filing for each kind of problem"""
import ast, os, string
from xml.sax.saxutils import escape, quoteattr
from bounded.common import *
from bounded import mini as M

RULE = "the whole registry; every call site in the source; random histories of the repository; for each kind of diagnostic random small filings that contain the problem one to three times with random offending values"

NS = "http://ex.com/t"
CLARK = lambda n: "{%s}%s" % (NS, n)


# ------------------------------------------------------------------- registry
def fields(t):
    return [f for _, f, _, _ in string.Formatter().parse(t) if f is not None]


def registry(env):
    from brel.errors.error_factory_registry import error_factory_registry as reg
    from brel.errors.error_code import ErrorCode
    from brel.errors.error_instance import ErrorInstance
    from brel.errors.severity import Severity
    from brel.errors.area import Area
    seen = {}
    for c in reg:      # a kind that some call site reports and that is not registered fails there
        a, b = reg[c](), reg[c]()
        expect(a is not b and isinstance(a, ErrorInstance), "fresh", "the same diagnostic object is handed out twice", c)
        expect(isinstance(a.get_severity(), Severity) and isinstance(a.get_area(), Area) and isinstance(a.get_numeric_code(), str) and a.get_numeric_code(), "complete", "a diagnostic without severity, area or code", c)
        expect(isinstance(a.get_message(), str) and a.get_message().strip(), "complete", "a diagnostic without a message", c)
        k = full(a)
        expect(k not in seen, "unique", "two kinds of diagnostics share severity, area and code", (c, seen.get(k), k))
        seen[k] = c
        try: names = fields(a.get_message())
        except ValueError as e: raise Fail("template", "the message is not a template", "%s %r %s" % (c, a.get_message(), e))
        expect(all(n.isidentifier() for n in names), "template", "a placeholder without a name", (c, names))
        expect(not a.get_hint() or not [f for f in fields_or(a.get_hint()) if f], "hint", "the hint contains a placeholder, which nothing fills in", (c, a.get_hint()))
        # filled in: no placeholder is left, and every value is in the message
        vals = {n: "<%s {0} %%s {x}>" % n for n in names}
        x = InMemory().create(c, None, **vals)
        expect(all(v in x.get_message() for v in vals.values()), "filled", "the message does not contain the data", (c, x.get_message()))
        expect(x.get_message() == reg[c]().get_message().format(**vals), "filled", "the message is not its template filled in", (c, x.get_message()))
        expect(b.get_message() == reg[c]().get_message(), "fresh", "filling one diagnostic changed another", c)
        expect(k == full(x), "kept", "creating a diagnostic changes its code", c)
        expect(str(x).startswith(x.get_full_error_code()) and str(x).endswith(x.get_message()), "text", "the text of a diagnostic", str(x))


def fields_or(t):
    try: return fields(t)
    except ValueError: return []


def InMemory():
    from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
    return InMemoryErrorRepository()


# ------------------------------------------------------------------- call sites
def site_calls():
    import brel
    root = os.path.dirname(brel.__file__)
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith(".py"): continue
            p = os.path.join(d, f)
            for n in ast.walk(ast.parse(open(p, encoding="utf-8").read())):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("insert", "create") and n.args:
                    a = n.args[0]
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "ErrorCode":
                        yield "%s:%d" % (os.path.relpath(p, root), n.lineno), a.attr, [k.arg for k in n.keywords], len(n.args), any(isinstance(x, ast.Starred) for x in n.args)


def sites(env):
    from brel.errors.error_code import ErrorCode
    n = 0
    for where, code, names, args, star in site_calls():
        if None in names or star: continue       # not decided by the text of the call
        expect(hasattr(ErrorCode, code), "site:" + where.split(":")[0], "a call site reports a kind that does not exist", (where, code))
        kw = {k: "<%s>" % k for k in names if k not in ("error_context", "error_code")}
        r = InMemory()
        try: r.insert(ErrorCode[code], None, **kw)
        except Exception as e: raise Fail("site:%s" % code, "reporting the problem fails at its call site", "%s insert(%s, %s): %r" % (where, code, sorted(kw), e))
        x = r.get_all()
        expect(len(x) == 1, "site:" + code, "the diagnostic of a call site is not filled in", (where, [str(y) for y in x]))
        n += 1
    env.digest = "sites %d" % n


# ------------------------------------------------------------------- repository
def history(env):
    from brel.errors.error_code import ErrorCode
    from brel.errors.error_factory_registry import error_factory_registry as reg
    from brel.errors.severity import Severity
    r, repo, want = env.rng, InMemory(), []
    codes_ = list(reg)
    made = []
    for _ in range(r.choice([0, 1, 3, 10, 40])):
        c = r.choice(codes_)
        vals = {f: word(r) for f in fields(reg[c]().get_message())}
        k = r.random()
        if k < .5: repo.insert(c, None, **vals); want.append((c.name, reg[c]().get_message().format(**vals)))
        elif k < .65:
            e = repo.create(c, None, **vals); made.append((c, vals, e))
        elif k < .8 and made:
            c, vals, e = r.choice(made)
            repo.insert_premade(e); want.append((c.name, reg[c]().get_message().format(**vals)))
        elif k < .95 and made:
            c, vals, e = r.choice(made)
            b = r.random() < .5
            repo.upsert_if(b, e)
            if b: want.append((c.name, reg[c]().get_message().format(**vals)))
        elif k > .98: repo.clear(); want = []
    got = repo.get_all()
    expect(list(zip(codes(got), [e.get_message() for e in got])) == want, "history", "the diagnostics are not those reported, in their order", "%s\n%s" % (want, [str(e) for e in got]))
    parts = [repo.get_by_severity(s) for s in Severity]
    expect(all(all(e.get_severity() is s for e in p) for s, p in zip(Severity, parts)) and sum(map(len, parts)) == len(got) and all([e for e in got if e.get_severity() is s] == p for s, p in zip(Severity, parts)), "partition", "the severity query does not partition the diagnostics", "")
    env.digest = str(want)


# ------------------------------------------------------------------- small filings
WORDS = ["{x}", "{0}", "{", "}}", "%s", "a'b", "é ü", "nowhere", "x y", "\\n", "{id}", "--", "{uri}", "INF2", "ABC", "ee", "qx", "\"q\"", "&amp;", "<t>", "末", "{!r}", "$1"]


def word(r, *, bad=()):
    while True:
        w = r.choice(WORDS) + r.choice(["", "", str(r.randint(0, 99)), "z"])
        if w not in bad: return w


def name(r): return r.choice(["Foo", "bar", "x-y", "É", "Rev.2", "_z"]) + str(r.randint(0, 999))


A = quoteattr
T = escape

DIMS = M.abstract("Axis", group="xbrldt:dimensionItem") + M.abstract("Axis2", group="xbrldt:dimensionItem") + M.member("Mem")
NONNIL = '<xs:element name="NN" id="ex_NN" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/>'


class X:
    """one XML filing being put together"""
    def __init__(s, r):
        s.r, s.ctx, s.unit, s.fact, s.decl, s.links, s.roles, s.n = r, [], [], [], [], [], [], 0
        s.want = []
        s.files = {}

    def add(s, code, **v): s.want.append((code, v))

    def uid(s, p):
        s.n += 1
        return "%s%d" % (p, s.n)

    def out(s):
        r = s.r
        body = s.ctx + s.unit + s.fact
        links = "".join(s.links)
        decls = M.concept("A") + M.concept("B") + DIMS + NONNIL + "".join(s.decl)
        f = {"t.xsd": M.schema(decls, "".join(s.roles), lb=["lb/l.xml"] if links else []), "i.xml": '<xbrli:xbrl %s><link:schemaRef xlink:type="simple" xlink:href="t.xsd"/>%s%s</xbrli:xbrl>' % (M.XB, M.ctx("c0") + M.unit("u0"), "".join(body))}
        if links: f["lb/l.xml"] = '<link:linkbase %s>%s</link:linkbase>' % (M.XB, links)
        f.update(s.files)
        return f, "i.xml"


def bad_ctx(x, inner=None, period="<xbrli:instant>2020-12-31</xbrli:instant>", seg="", ident='<xbrli:identifier scheme="http://s">e</xbrli:identifier>', entity=True, hasperiod=True):
    c = x.uid("c")
    t = '<xbrli:context id="%s">' % c
    if entity: t += "<xbrli:entity>%s%s</xbrli:entity>" % (ident, "<xbrli:segment>%s</xbrli:segment>" % seg if seg else "")
    if hasperiod: t += "<xbrli:period>%s</xbrli:period>" % period
    x.ctx.append(t + "</xbrli:context>")
    x.fact.append(M.fact("A", "1", c=c, u="u0"))


def bad_unit(x, body, **k):
    u = x.uid("u")
    x.unit.append('<xbrli:unit id="%s">%s</xbrli:unit>' % (u, body))
    x.fact.append(M.fact("A", "1", c="c0", u=u))
    return u


XK = {}


def xk(f): XK[f.__name__.upper()] = f; return f


@xk
def missing_context_period(x): bad_ctx(x, hasperiod=False); x.add("MISSING_CONTEXT_PERIOD")
@xk
def missing_context_entity(x): bad_ctx(x, entity=False); x.add("MISSING_CONTEXT_ENTITY")
@xk
def invalid_dimension_type(x):
    n = name(x.r); bad_ctx(x, seg="<ex:%s/>" % n); x.add("INVALID_DIMENSION_TYPE", dimension_type="ex:" + n)
@xk
def invalid_context_period_date(x):
    w = word(x.r); k = x.r.choice([0, 1, 2])
    bad_ctx(x, period=["<xbrli:instant>%s</xbrli:instant>" % T(w), "<xbrli:startDate>%s</xbrli:startDate><xbrli:endDate>2020-01-01</xbrli:endDate>" % T(w), "<xbrli:startDate>2020-01-01</xbrli:startDate><xbrli:endDate>%s</xbrli:endDate>" % T(w)][k])
    x.add("INVALID_CONTEXT_PERIOD_DATE", date=w)
@xk
def duration_period_missing_start_date(x): bad_ctx(x, period="<xbrli:endDate>2020-01-01</xbrli:endDate>"); x.add("DURATION_PERIOD_MISSING_START_DATE")
@xk
def duration_period_missing_end_date(x): bad_ctx(x, period="<xbrli:startDate>2020-01-01</xbrli:startDate>"); x.add("DURATION_PERIOD_MISSING_END_DATE")
@xk
def duration_period_start_after_end(x):
    a, b = "20%02d-0%d-11" % (x.r.randint(30, 60), x.r.randint(1, 9)), "20%02d-0%d-12" % (x.r.randint(1, 29), x.r.randint(1, 9))
    bad_ctx(x, period="<xbrli:startDate>%s</xbrli:startDate><xbrli:endDate>%s</xbrli:endDate>" % (a, b)); x.add("DURATION_PERIOD_START_AFTER_END", start_date=a, end_date=b)
@xk
def entity_missing_identifier_element(x): bad_ctx(x, ident=""); x.add("ENTITY_MISSING_IDENTIFIER_ELEMENT")
@xk
def entity_identifier_missing_scheme(x): bad_ctx(x, ident="<xbrli:identifier>e</xbrli:identifier>"); x.add("ENTITY_IDENTIFIER_MISSING_SCHEME")
@xk
def entity_identifier_missing_value(x): bad_ctx(x, ident='<xbrli:identifier scheme="http://s"/>'); x.add("ENTITY_IDENTIFIER_MISSING_VALUE")
@xk
def invalid_explicit_dimension_value(x):
    n = x.r.choice(["A", "Mem", name(x.r)]); bad_ctx(x, seg='<xbrldi:explicitMember dimension="ex:%s">ex:Mem</xbrldi:explicitMember>' % n); x.add("INVALID_EXPLICIT_DIMENSION_VALUE", dimension=n)
@xk
def missing_explicit_dimension_member(x):
    n = x.r.choice(["Axis", "Axis2"]); bad_ctx(x, seg='<xbrldi:explicitMember dimension="ex:%s"/>' % n); x.add("MISSING_EXPLICIT_DIMENSION_MEMBER", dimension=n)
@xk
def invalid_explicit_dimension_member(x):
    n, m = x.r.choice(["Axis", "Axis2"]), "ex:" + x.r.choice(["A", "Axis", name(x.r)]); bad_ctx(x, seg='<xbrldi:explicitMember dimension="ex:%s">%s</xbrldi:explicitMember>' % (n, m)); x.add("INVALID_EXPLICIT_DIMENSION_MEMBER", dimension="ex:" + n, member=m)
@xk
def invalid_typed_dimension_value(x):
    n = "ex:" + x.r.choice(["A", "Mem", name(x.r)]); bad_ctx(x, seg='<xbrldi:typedMember dimension="%s"><ex:v>1</ex:v></xbrldi:typedMember>' % n); x.add("INVALID_TYPED_DIMENSION_VALUE", dimension=n)
@xk
def multiple_typed_dimension_element_children(x):
    n = "ex:" + x.r.choice(["Axis", "Axis2"]); bad_ctx(x, seg='<xbrldi:typedMember dimension="%s">%s</xbrldi:typedMember>' % (n, "<ex:v>1</ex:v>" * x.r.choice([2, 3]))); x.add("MULTIPLE_TYPED_DIMENSION_ELEMENT_CHILDREN", dimension=n)
@xk
def no_typed_dimension_element_children(x):
    n = "ex:" + x.r.choice(["Axis", "Axis2"]); bad_ctx(x, seg='<xbrldi:typedMember dimension="%s"/>' % n); x.add("NO_TYPED_DIMENSION_ELEMENT_CHILDREN", dimension=n)
@xk
def missing_typed_dimension_value(x):
    n = "ex:" + x.r.choice(["Axis", "Axis2"]); bad_ctx(x, seg='<xbrldi:typedMember dimension="%s"><ex:v/></xbrldi:typedMember>' % n); x.add("MISSING_TYPED_DIMENSION_VALUE", dimension=n)
@xk
def xml_missing_unit_measure(x):
    bad_unit(x, x.r.choice(["<xbrli:measure/>", "<xbrli:divide><xbrli:unitNumerator><xbrli:measure/></xbrli:unitNumerator><xbrli:unitDenominator><xbrli:measure>xbrli:pure</xbrli:measure></xbrli:unitDenominator></xbrli:divide>", "<xbrli:divide><xbrli:unitNumerator/><xbrli:unitDenominator><xbrli:measure>xbrli:pure</xbrli:measure></xbrli:unitDenominator></xbrli:divide>"])); x.add("XML_MISSING_UNIT_MEASURE")
@xk
def xml_unit_element_without_one_child(x):
    n = x.r.choice([0, 2, 3]); u = bad_unit(x, "<xbrli:measure>xbrli:pure</xbrli:measure>" * n); x.add("XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD", id=u, child_count=str(n))
@xk
def xml_invalid_unit_element_children(x):
    n = name(x.r); u = bad_unit(x, "<ex:%s/>" % n); x.add("XML_INVALID_UNIT_ELEMENT_CHILDREN", id=u, child_tag=CLARK(n))
@xk
def xml_divide_element_without_two_children(x):
    n = x.r.choice([0, 1, 3]); u = bad_unit(x, "<xbrli:divide>%s</xbrli:divide>" % ("<xbrli:unitNumerator><xbrli:measure>xbrli:pure</xbrli:measure></xbrli:unitNumerator>" * n)); x.add("XML_DIVIDE_ELEMENT_WITHOUT_TWO_CHILDREN", id=u, child_count=str(n))
@xk
def xml_duplicate_divide_element_children(x):
    t = x.r.choice(["unitNumerator", "unitDenominator"]); u = bad_unit(x, "<xbrli:divide>%s</xbrli:divide>" % ("<xbrli:%s><xbrli:measure>xbrli:pure</xbrli:measure></xbrli:%s>" % (t, t) * 2)); x.add("XML_DUPLICATE_DIVIDE_ELEMENT_CHILDREN", id=u, tag="{http://www.xbrl.org/2003/instance}" + t)
@xk
def xml_invalid_divide_element_children(x):
    n = name(x.r); u = bad_unit(x, "<xbrli:divide><xbrli:unitNumerator><xbrli:measure>xbrli:pure</xbrli:measure></xbrli:unitNumerator><ex:%s><xbrli:measure>xbrli:pure</xbrli:measure></ex:%s></xbrli:divide>" % (n, n)); x.add("XML_INVALID_DIVIDE_ELEMENT_CHILDREN", id=u, child_tag=CLARK(n))
@xk
def xml_fact_invalid_concept(x):
    n = x.r.choice(["Axis", "Mem", name(x.r)]); x.fact.append(M.fact(n, "1", c="c0", u="u0")); x.add("XML_FACT_INVALID_CONCEPT", concept_name=CLARK(n))
@xk
def xml_invalid_fact_unit_id(x):
    w = word(x.r); x.fact.append('<ex:A contextRef="c0" unitRef=%s>1</ex:A>' % A(w)); x.add("XML_INVALID_FACT_UNIT_ID", unit_id=w)
@xk
def xml_invalid_fact_context_id(x):
    w = word(x.r); x.fact.append('<ex:A contextRef=%s unitRef="u0">1</ex:A>' % A(w)); x.add("XML_INVALID_FACT_CONTEXT_ID", context_id=w)
@xk
def missing_fact_value(x): x.fact.append(M.fact("NN", "", c="c0", u=None)); x.add("MISSING_FACT_VALUE", concept=CLARK("NN"))
@xk
def invalid_decimals_attribute_value(x):
    w = word(x.r, bad=("-",)); x.fact.append('<ex:A contextRef="c0" unitRef="u0" decimals=%s>1</ex:A>' % A(w)); x.add("INVALID_DECIMALS_ATTRIBUTE_VALUE", decimals=w)
@xk
def invalid_precision_attribute_value(x):
    w = word(x.r, bad=("-",)); x.fact.append('<ex:A contextRef="c0" unitRef="u0" precision=%s>1</ex:A>' % A(w)); x.add("INVALID_PRECISION_ATTRIBUTE_VALUE", precision=w)


def bad_decl(x, n, **k):
    a = {"type": "xbrli:stringItemType", "substitutionGroup": "xbrli:item", "xbrli:periodType": "instant", **k}
    x.decl.append('<xs:element name="%s" id="ex_%s"%s/>' % (n, n, "".join(" %s=%s" % (p, A(v)) for p, v in a.items() if v is not None)))
def dname(x): return name(x.r) + "_" + x.uid("d")
@xk
def invalid_concept_period_type(x):
    n, w = dname(x), word(x.r); bad_decl(x, n, **{"xbrli:periodType": w}); x.add("INVALID_CONCEPT_PERIOD_TYPE", concept_name=n, period_type=w)
@xk
def invalid_concept_balance_type(x):
    n, w = dname(x), word(x.r); bad_decl(x, n, **{"xbrli:balance": w}); x.add("INVALID_CONCEPT_BALANCE_TYPE", concept_name=n, balance_type=w)
@xk
def invalid_concept_nillable_value(x):
    n, w = dname(x), word(x.r); bad_decl(x, n, nillable=w); x.add("INVALID_CONCEPT_NILLABLE_VALUE", concept_name=n, nillable_value=w)
@xk
def missing_concept_data_type(x):
    n = dname(x); bad_decl(x, n, type=None); x.add("MISSING_CONCEPT_DATA_TYPE", concept_name=n)
@xk
def referenced_schema_element_not_found(x):
    n, w = dname(x), name(x.r); s = x.r.choice(["t.xsd", "missing.xsd"]); bad_decl(x, n, substitutionGroup="xbrldt:dimensionItem", abstract="true", **{"xbrldt:typedDomainRef": s + "#" + w}); x.add("REFERENCED_SCHEMA_ELEMENT_NOT_FOUND", ref_id=w, ref_schema_name=s)


ROLE = "http://ex.com/role/"
@xk
def xml_referenced_locator_element_not_found(x):
    n = name(x.r); k = x.r.choice(["presentation", "calculation", "label", "reference", "footnote"])
    x.links.append(M.link(k, ROLE + x.uid("r"), '<link:loc xlink:type="locator" xlink:href="../t.xsd#%s" xlink:label="l"/>' % n + M.loc("A"))); x.add("XML_REFERENCED_LOCATOR_ELEMENT_NOT_FOUND", elem_id=n)
@xk
def duplicate_linkbase_arc(x):
    k = x.r.choice(["presentation", "calculation"])
    a, b = x.uid("from"), x.uid("to")
    x.links.append(M.link(k, ROLE + x.uid("r"), M.loc("A", a) + M.loc("B", b) + M.arc(k, a, b, more='order="1" weight="1"') * 2)); x.add("DUPLICATE_LINKBASE_ARC", arc_from=a, arc_to=b)
@xk
def unsupported_link_type(x):
    n = x.r.choice(["other", "foo", "generic"]) + "Link"
    x.links.append('<link:%s xlink:type="extended" xlink:role="%s"/>' % (n, ROLE + x.uid("r"))); x.add("UNSUPPORTED_LINK_TYPE", type="{http://www.xbrl.org/2003/linkbase}" + n)
@xk
def missing_link_role(x): x.links.append('<link:%sLink xlink:type="extended"/>' % x.r.choice(["presentation", "label", "definition"])); x.add("MISSING_LINK_ROLE")
@xk
def missing_label_language(x): x.links.append(M.link("label", ROLE + x.uid("r"), M.loc("A") + '<link:label xlink:type="resource" xlink:label="l">t</link:label>' + M.arc("label", "A", "l"))); x.add("MISSING_LABEL_LANGUAGE")
@xk
def xml_missing_footnote_language(x): x.links.append(M.link("footnote", ROLE + x.uid("r"), M.loc("A") + '<link:footnote xlink:type="resource" xlink:label="l">t</link:footnote>' + M.arc("footnote", "A", "l"))); x.add("XML_MISSING_FOOTNOTE_LANGUAGE")
@xk
def xml_unsupported_resource_tag(x):
    n = name(x.r); x.links.append(M.link(x.r.choice(["reference", "footnote"]), ROLE + x.uid("r"), '<ex:%s xlink:type="resource" xlink:label="l">t</ex:%s>' % (n, n))); x.add("XML_UNSUPPORTED_RESOURCE_TAG", tag=CLARK(n))


def unused_on(kind, code):
    def f(x):
        u = ROLE + x.uid("r") + x.r.choice(["", "{x}", "#a"])
        others = [k for k in ("presentation", "calculation", "definition") if k != kind]
        x.roles.append('<link:roleType id="%s" roleURI="%s"><link:definition>d</link:definition>%s</link:roleType>' % (x.uid("i"), u, "".join("<link:usedOn>link:%sLink</link:usedOn>" % k for k in x.r.sample(others, x.r.randint(0, 2)))))
        x.links.append(M.link(kind, u, M.loc("A") + M.loc("B") + M.arc(kind, "A", "B", more='order="1" weight="1"')))
        x.add(code, linkrole_uri=u)
    XK[code] = f
for k in ("presentation", "calculation", "definition"): unused_on(k, k.upper() + "_NETWORK_IN_COMPONENT_WITHOUT_USEDON_ELEMENT")


def xml_kind(k):
    def go(env):
        x = X(env.rng)
        n = env.rng.choice([1, 1, 2, 3])
        for _ in range(n): XK[k](x)
        # and some others, before or after
        for o in env.rng.sample([o for o in XK if o != k], env.rng.choice([0, 0, 1, 3])): XK[o](x)
        check(env, x)
    return go


def check(env, x):
    files, entry = x.out()
    d = os.path.join(env.dir, "r")
    for p, t in files.items():
        f = os.path.join(d, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        open(f, "w", encoding="utf-8").write(t)
    env.files = files
    F = env.open(os.path.join(d, entry))
    judge(F.get_all_errors(), x.want, F)


def judge(errs, want, F=None):
    from brel.errors.error_factory_registry import error_factory_registry as reg
    from brel.errors.error_code import ErrorCode
    exp = [(c, reg[ErrorCode[c]]().get_message().format(**v)) for c, v in want]
    got = list(zip(codes(errs), [e.get_message() for e in errs]))
    for c, v in want:
        have = [m for k, m in got if k == c]
        expect(have, "lost:" + c, "a problem is not reported", "%s %s\nreported %s" % (c, v, got))
    miss, extra = O.diff_multiset(exp, got)
    expect(not miss and not extra, "diag:" + (miss + extra + [("?",)])[0][0], "the diagnostics differ from the problems", "missing %s\nsurplus %s" % (miss, extra))
    for c in {c for c, _ in exp} - {"IXBRL_DUPLICATE_ELEMENT_ID"}:      # looked for in one pass over the documents
        expect([m for k, m in exp if k == c] == [m for k, m in got if k == c], "order:" + c, "the diagnostics are not in the order found", "%s\n%s" % (exp, got))
    for c, v in want:
        expect(any(k == c and all(str(w) in m for w in v.values()) for k, m in got), "filled:" + c, "a message without the offending data", (c, v, got))


CASES = dict(registry=registry, sites=sites, history=history)
ONCE = ("registry", "sites")
for k in XK: CASES["xml:" + k] = xml_kind(k)


# ------------------------------------------------------------------- inline filings
IXNS = "http://www.xbrl.org/2013/inlineXBRL"


class I(X):
    def __init__(s, r):
        super().__init__(r)
        s.head, s.header, s.hid, s.res, s.refs, s.body, s.top = [], [], [], [], [], [], ""
        s.reftag = r.choice(["roleRef", "arcroleRef"])
        s.nohidden, s.norefs, s.nores, s.nohdr = False, False, False, False

    def out(s):
        hdr = "".join(s.header)
        if s.hid and not s.nohidden: hdr += "<ix:hidden>%s</ix:hidden>" % "".join(s.hid)
        if not s.norefs: hdr += '<ix:references><link:schemaRef xlink:type="simple" xlink:href="t.xsd"/>%s</ix:references>' % "".join(s.refs)
        if not s.nores: hdr += "<ix:resources>%s%s</ix:resources>" % (M.ctx("c0") + M.unit("u0"), "".join(s.res))
        doc = '<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="%s" xmlns:ixt="http://www.xbrl.org/inlineXBRL/transformation/2022-02-16" %s><head><title>t</title>%s</head><body>%s%s</body></html>' % (IXNS, M.XB, "".join(s.head), "" if s.nohdr else "<ix:header>%s</ix:header>" % hdr, "".join(s.body))
        return {"t.xsd": M.schema(M.concept("A") + M.concept("B") + DIMS + '<xs:element name="S" id="ex_S" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant" nillable="true"/>' + "".join(s.decl)), "r.html": doc}, "r.html"

    def num(s, text, id=None, **a):
        a = {"name": "ex:A", "contextRef": "c0", "unitRef": "u0", "id": id or s.uid("f"), **a}
        s.body.append("<p>%s</p>" % ix("nonFraction", text, a))
        return a["id"]

    def txt(s, text, id=None, **a):
        a = {"name": "ex:S", "contextRef": "c0", "id": id or s.uid("f"), **a}
        s.body.append("<p>%s</p>" % ix("nonNumeric", text, a))
        return a["id"]

    def foot(s, **a):
        a = {"id": s.uid("n"), "xml:lang": "en", **a}
        s.body.append(ix("footnote", "note", a))
        return a["id"]

    def rel(s, fr, to, **a):
        s.res.append("<ix:relationship%s/>" % attrs({"fromRefs": fr, "toRefs": to, **a}))


def attrs(a): return "".join(" %s=%s" % (k.replace("__", ":"), A(str(v))) for k, v in a.items() if v is not None)
def ix(tag, text, a): return "<ix:%s%s>%s</ix:%s>" % (tag, attrs(a), text, tag)


IK = {}
def ik(f): IK[f.__name__.upper()] = f; return f


SOLO = set()        # kinds that concern the whole document
def solo(f): SOLO.add(f.__name__.upper()); return ik(f)


@solo
def ixbrl_no_header_elements(x): x.nohdr = True; x.add("IXBRL_NO_HEADER_ELEMENTS"); x.add("IXBRL_NO_RESOURCES_ELEMENTS")
@solo
def ixbrl_no_resources_elements(x): x.nores = True; x.add("IXBRL_NO_RESOURCES_ELEMENTS")
@solo
def ixbrl_more_than_one_hidden_header_child(x):
    n = x.r.choice([2, 3, 5]); x.header += ["<ix:hidden/>"] * n; x.add("IXBRL_MORE_THAN_ONE_HIDDEN_HEADER_CHILD", count=str(n))
@solo
def ixbrl_more_than_one_resources_header_child(x):
    n = x.r.choice([1, 2, 4]); x.header += ["<ix:resources/>"] * n; x.add("IXBRL_MORE_THAN_ONE_RESOURCES_HEADER_CHILD", count=str(n + 1))
@solo
def ixbrl_header_element_in_head(x): x.head.append(x.r.choice(["<ix:header><ix:references/></ix:header>", "<ix:header/>"])); x.add("IXBRL_HEADER_ELEMENT_IN_HEAD"); "references" in x.head[0] and x.add("IXBRL_REFERENCES_ELEMENT_WITHOUT_CHILDREN")
@ik
def ixbrl_invalid_header_child(x):
    n = name(x.r); x.header.append("<ex:%s/>" % n); x.add("IXBRL_INVALID_HEADER_CHILD", child_tag="ex:" + n)
@ik
def ixbrl_context_without_id(x): x.res.append(M.ctx("X").replace(' id="X"', "")); x.add("IXBRL_CONTEXT_WITHOUT_ID")
@ik
def ixbrl_unit_without_id(x): x.res.append(M.unit("X").replace(' id="X"', "")); x.add("IXBRL_UNIT_WITHOUT_ID")
@ik
def ixbrl_fact_without_concept_name(x): i = x.uid("f"); x.body.append(ix("nonNumeric", "x", dict(id=i, contextRef="c0"))); x.add("IXBRL_FACT_WITHOUT_CONCEPT_NAME", fact_id=i)
@ik
def ixbrl_fact_without_context(x): i = x.uid("f"); x.body.append(ix("nonNumeric", "x", dict(id=i, name="ex:S"))); x.add("IXBRL_FACT_WITHOUT_CONTEXT", fact_id=i)
@ik
def ixbrl_invalid_fact_context_id(x): w = word(x.r); x.txt("x", contextRef=w); x.add("IXBRL_INVALID_FACT_CONTEXT_ID", context_id=w)
@ik
def ixbrl_fact_invalid_concept(x): n = "ex:" + x.r.choice(["Axis", "Mem", name(x.r)]); x.add("IXBRL_FACT_INVALID_CONCEPT", concept_name=n, fact_id=x.txt("x", name=n))
@ik
def ixbrl_non_fraction_without_unit(x): x.add("IXBRL_NON_FRACTION_WITHOUT_UNIT", fact_id=x.num("1", unitRef=None))
@ik
def ixbrl_invalid_fact_unit_id(x): w = word(x.r); x.add("IXBRL_INVALID_FACT_UNIT_ID", unit_id=w, fact_id=x.num("1", unitRef=w))
@ik
def ixbrl_duplicate_element_id(x):
    i, k = x.uid("dup"), x.r.choice(["f", "s", "n", "k"])
    x.txt("x", id=i)
    if k == "f": x.num("1", id=i)
    elif k == "s": x.txt("y", id=i)
    elif k == "n": x.foot(id=i)
    else: x.body.insert(0, ix("continuation", "z", dict(id=i))); x.txt("q", continuedAt=i)
    x.add("IXBRL_DUPLICATE_ELEMENT_ID", id=i)


def dated(x, code, fmt, text, **k): x.txt(T(text), format=fmt); x.add(code, **k)
@ik
def unsupported_date_format(x):
    f = "ixt:date" + x.r.choice(["-x", "foo", "{x}", "-year-day"]); x.txt("1.1.2020", format=f); x.add("UNSUPPORTED_DATE_FORMAT", format=f)
@ik
def date_does_not_match_expected_format(x):
    f, w = x.r.choice(["ixt:date-day-month-year", "ixt:date-year-month-day", "ixt:date-day-monthname-year-en", "ixt:date-month-day"]), word(x.r).strip(); dated(x, "DATE_DOES_NOT_MATCH_EXPECTED_FORMAT", f, w, date=w, format=f)
@ik
def invalid_gregorian_date(x):
    w = "%d.%d.%d" % (x.r.choice([30, 31]), 2, x.r.randint(1990, 2030)); dated(x, "INVALID_GREGORIAN_DATE", "ixt:date-day-month-year", w, date=w)
@ik
def invalid_japanese_imperial_date(x):
    w = x.r.choice(["令和1年4月", "平成31年5月", "昭和64年2月", "平成1年1月"][:3]) + "%d日" % x.r.randint(1, 28); dated(x, "INVALID_JAPANESE_IMPERIAL_DATE", "ixt:date-jpn-era-year-month-day", w, date=w)
@ik
def unsupported_literal_fact_format(x):
    f = "ixt:" + x.r.choice(["fixed-one", "foo", "{x}", "bool"]); x.txt("x", format=f); x.add("UNSUPPORTED_LITERAL_FACT_FORMAT", format=f)
@ik
def unsupported_non_numeric_fact_format(x):
    f = x.r.choice(["ixt:num-dot-decimal", "ixt:num-comma-decimal", "ixt:fixed-zero"]); x.txt("12", format=f); x.add("UNSUPPORTED_NON_NUMERIC_FACT_FORMAT", format=f)
@ik
def unsupported_non_fraction_fact_format(x):
    f = "ixt:" + x.r.choice(["num", "foo", "{x}", "date-day-month"]); x.num("12", format=f); x.add("UNSUPPORTED_NON_FRACTION_FACT_FORMAT", format=f)
@ik
def number_does_not_match_expected_format(x):
    f, w = x.r.choice(["ixt:num-dot-decimal", "ixt:num-comma-decimal"]), x.r.choice(["abc", "{x}", "--", "1;2", "(3)"]); x.num(w, format=f); x.add("NUMBER_DOES_NOT_MATCH_EXPECTED_FORMAT", number=w, format=f)
@ik
def invalid_scale_attribute_value(x):
    w = word(x.r, bad=("--",)); x.num("12", format=x.r.choice([None, "ixt:num-dot-decimal"]), scale=w); x.add("INVALID_SCALE_ATTRIBUTE_VALUE", scale=w)
@ik
def ixbrl_continuation_without_id(x): x.body.append("<ix:continuation>z</ix:continuation>"); x.add("IXBRL_CONTINUATION_WITHOUT_ID")
@solo
def ixbrl_unused_continuation_elements(x):
    i = x.uid("k"); x.body.append(ix("continuation", "z", dict(id=i))); x.add("IXBRL_UNUSED_CONTINUATION_ELEMENTS", element_ids=str([i]))
@ik
def ixbrl_reused_continuation(x):
    k, a, b = x.uid("k"), x.uid("f"), x.uid("f"); x.txt("x", id=a, continuedAt=k); x.txt("x", id=b, continuedAt=k); x.body.append(ix("continuation", "z", dict(id=k))); x.add("IXBRL_REUSED_CONTINUATION", id=k, element_id=b)
@ik
def ixbrl_invalid_continuation_id(x): w = word(x.r); x.add("IXBRL_INVALID_CONTINUATION_ID", id=w, element_id=x.txt("x", continuedAt=w))
@ik
def ixbrl_invalid_descendant_in_continuation_chain(x):
    f, k, m = x.uid("f"), x.uid("k"), x.uid("k")
    if x.r.random() < .5:
        x.body.append(ix("nonNumeric", "a" + ix("continuation", "b", dict(id=k)), dict(id=f, name="ex:S", contextRef="c0", continuedAt=k))); x.add("IXBRL_INVALID_DESCENDANT_IN_CONTINUATION_CHAIN", descendant_id=k, parent_id=f)
    else:
        x.txt("x", id=f, continuedAt=k); x.body.append(ix("continuation", "a" + ix("continuation", "b", dict(id=m)), dict(id=k, continuedAt=m))); x.add("IXBRL_INVALID_DESCENDANT_IN_CONTINUATION_CHAIN", descendant_id=m, parent_id=k)
@ik
def ixbrl_element_not_supported(x): t = x.r.choice(["fraction", "tuple"]); x.hid.append("<ix:%s/>" % t); x.add("IXBRL_ELEMENT_NOT_SUPPORTED", tag="ix:" + t)
@ik
def ixbrl_invalid_hidden_element(x): n = name(x.r); x.hid.append("<ex:%s/>" % n); x.add("IXBRL_INVALID_HIDDEN_ELEMENT", child_tag="ex:" + n)
@ik
def ixbrl_nil_attribute_in_non_fraction_child(x): x.num(ix("nonFraction", "", dict(name="ex:A", contextRef="c0", unitRef="u0", xsi__nil="true"))); x.add("IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD"); x.add("IXBRL_NON_NUMERICAL_NON_FRACTION_FACT_VALUE", value="")
@ik
def ixbrl_differing_format_scale_or_unit_for_non_fraction_child(x):
    s, f, u = x.r.choice([("2", None, "u0"), (None, "ixt:num-dot-decimal", "u0"), ("0", "ixt:num-comma-decimal", "u0")]); x.num(ix("nonFraction", "12", dict(name="ex:A", contextRef="c0", unitRef=u, scale=s, format=f))); x.add("IXBRL_DIFFERING_FORMAT_SCALE_OR_UNIT_FOR_NON_FRACTION_CHILD", this_format=f, this_scale=s, this_unit=u, parent_format=None, parent_scale=None, parent_unit="u0")
@ik
def ixbrl_invalid_sign_attribute_value(x): w = word(x.r, bad=("-",)); x.num("12", sign=w); x.add("IXBRL_INVALID_SIGN_ATTRIBUTE_VALUE", sign=w)
@ik
def ixbrl_negative_non_fraction_fact_value(x): w = "-%d" % x.r.randint(1, 99); x.num(w); x.add("IXBRL_NEGATIVE_NON_FRACTION_FACT_VALUE", value=w)
@ik
def ixbrl_non_numerical_non_fraction_fact_value(x): w = x.r.choice(["abc", "{x}", "1,2,3", "1 2", "%s"]); x.num(w); x.add("IXBRL_NON_NUMERICAL_NON_FRACTION_FACT_VALUE", value=w)
@ik
def ixbrl_mutually_exclusive_attributes_in_non_fraction(x): x.num("1", decimals="2", precision="3"); x.add("IXBRL_MUTUALLY_EXCLUSIVE_ATTRIBUTES_IN_NON_FRACTION")
@ik
def ixbrl_both_text_and_children_in_non_fraction(x): x.num("1" + ix("nonFraction", "2", dict(name="ex:A", contextRef="c0", unitRef="u0"))); x.add("IXBRL_BOTH_TEXT_AND_CHILDREN_IN_NON_FRACTION")
@ik
def ixbrl_text_or_children_with_nil(x): x.num("1", xsi__nil=x.r.choice(["true", "1"])); x.add("IXBRL_TEXT_OR_CHILDREN_WITH_NIL")
@ik
def ixbrl_no_text_or_children_with_absent_nil_attribute(x): x.num(""); x.add("IXBRL_NO_TEXT_OR_CHILDREN_WITH_ABSENT_NIL_ATTRIBUTE")
@ik
def invalid_decimals(x): w = word(x.r); x.num("1", decimals=w); x.add("INVALID_DECIMALS_ATTRIBUTE_VALUE", decimals=w)
@ik
def invalid_precision(x): w = word(x.r); x.num("1", precision=w); x.add("INVALID_PRECISION_ATTRIBUTE_VALUE", precision=w)
@ik
def ixbrl_multiple_non_fraction_children(x): x.num(ix("nonFraction", "2", dict(name="ex:A", contextRef="c0", unitRef="u0")) * 2); x.add("IXBRL_MULTIPLE_NON_FRACTION_CHILDREN")
@ik
def ixbrl_invalid_non_fraction_child(x): n = name(x.r); x.num("<ex:%s>12</ex:%s>" % (n, n)); x.add("IXBRL_INVALID_NON_FRACTION_CHILD", child_tag="ex:" + n)
@ik
def ixbrl_invalid_non_numeric_fact_escape_attribute_value(x): w = word(x.r); x.txt("x", escape=w); x.add("IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE", value=w)
@ik
def ixbrl_references_element_without_children(x): x.header.append("<ix:references/>"); x.add("IXBRL_REFERENCES_ELEMENT_WITHOUT_CHILDREN")
@ik
def ixbrl_invalid_references_child(x): n = name(x.r); x.refs.append("<ex:%s/>" % n); x.add("IXBRL_INVALID_REFERENCES_CHILD", children="ex:" + n)
@ik
def ixbrl_invalid_resources_child(x): n = name(x.r); x.res.append("<ex:%s/>" % n); x.add("IXBRL_INVALID_RESOURCES_CHILD", child_tag="ex:" + n)
@ik
def ixbrl_footnote_without_id(x): x.foot(id=None); x.add("IXBRL_FOOTNOTE_WITHOUT_ID")
@ik
def ixbrl_footnote_without_language(x): x.add("IXBRL_FOOTNOTE_WITHOUT_LANGUAGE", id=x.foot(xml__lang=None, **{"xml:lang": None}))
@ik
def ixbrl_invalid_footnote_role(x): w = x.r.choice(["http://[", "", "//"]); x.add("IXBRL_INVALID_FOOTNOTE_ROLE", role=w, id=x.foot(footnoteRole=w))
@ik
def ixbrl_relationship_without_fromrefs(x): x.rel(x.r.choice([None, ""]), x.foot()); x.add("IXBRL_RELATIONSHIP_WITHOUT_FROMREFS")
@ik
def ixbrl_relationship_without_torefs(x): x.rel(x.num("1"), x.r.choice([None, ""])); x.add("IXBRL_RELATIONSHIP_WITHOUT_TOREFS")
@ik
def ixbrl_relationship_repeated_id(x): a = x.num("1"); x.rel(a, a + " " + x.num("2")); x.add("IXBRL_RELATIONSHIP_REPEATED_ID")
@ik
def ixbrl_relationship_invalid_fact_id_in_fromrefs(x): w = name(x.r); x.rel(w + " " + x.num("1"), x.foot()); x.add("IXBRL_RELATIONSHIP_INVALID_FACT_ID_IN_FROMREFS", invalid_ids=str([w]))
@ik
def ixbrl_relationship_invalid_fact_or_footnote_id_in_torefs(x): w = name(x.r); x.rel(x.num("1"), x.foot() + " " + w); x.add("IXBRL_RELATIONSHIP_INVALID_FACT_OR_FOOTNOTE_ID_IN_TOREFS", invalid_ids=str([w]))
@ik
def ixbrl_relationship_mixed_fact_and_footnotes_in_torefs(x): x.rel(x.num("1"), x.foot() + " " + x.num("2")); x.add("IXBRL_RELATIONSHIP_MIXED_FACT_AND_FOOTNOTES_IN_TOREFS")
@ik
def ixbrl_relationship_invalid_arcrole(x): w = x.r.choice(["http://[", "//", "http://[{x}"]); x.rel(x.num("1"), x.foot(), arcrole=w); x.add("IXBRL_RELATIONSHIP_INVALID_ARCROLE", arcrole=w)
@ik
def ixbrl_relationship_invalid_linkrole(x): w = x.r.choice(["http://[", "//", "http://[{x}"]); x.rel(x.num("1"), x.foot(), linkRole=w); x.add("IXBRL_RELATIONSHIP_INVALID_LINKROLE", linkrole=w)
@ik
def ixbrl_relationship_invalid_order(x): w = word(x.r); x.rel(x.num("1"), x.foot(), order=w); x.add("IXBRL_RELATIONSHIP_INVALID_ORDER", order=w)


def roleref(x, **a):
    a = {"xlink:type": "simple", "xlink:href": "t.xsd#r", "roleURI": "http://ex.com/r", **a}
    x.res.append("<link:%s%s/>" % (x.reftag, attrs(a)))
@ik
def roleref_invalid_linktype(x): w = word(x.r); roleref(x, **{"xlink:type": w}); x.add("ROLEREF_INVALID_LINKTYPE", linktype=w)
@ik
def roleref_missing_href_attribute(x): roleref(x, **{"xlink:href": x.r.choice([None, ""])}); x.add("ROLEREF_MISSING_HREF_ATTRIBUTE")
@ik
def roleref_missing_role_uri_attribute(x): roleref(x, roleURI=x.r.choice([None, ""])); x.add("ROLEREF_MISSING_ROLE_URI_ATTRIBUTE")
@ik
def roleref_empty_role_attribute(x): roleref(x, **{"xlink:role": ""}); x.add("ROLEREF_EMPTY_ROLE_ATTRIBUTE")
@ik
def roleref_invalid_href_attribute(x): w = "#" + word(x.r); roleref(x, **{"xlink:href": w}); x.add("ROLEREF_INVALID_HREF_ATTRIBUTE", href=w)
@ik
def roleref_invalid_role_uri_attribute(x): w = x.r.choice(["http://[", "//", "#{x}"]); roleref(x, roleURI=w); x.add("ROLEREF_INVALID_ROLE_URI_ATTRIBUTE", role_uri=w)


def ix_kind(k):
    def go(env):
        x = I(env.rng)
        for _ in range(1 if k in SOLO else env.rng.choice([1, 1, 2, 3])): IK[k](x)
        if not (x.nohdr or x.nores):
            for o in env.rng.sample([o for o in IK if o != k and o not in SOLO and not (k == 'IXBRL_MORE_THAN_ONE_HIDDEN_HEADER_CHILD' and o in ('IXBRL_ELEMENT_NOT_SUPPORTED', 'IXBRL_INVALID_HIDDEN_ELEMENT'))], env.rng.choice([0, 0, 1, 3])): IK[o](x)
        check(env, x)
    return go


for k in IK: CASES["ix:" + k] = ix_kind(k)
