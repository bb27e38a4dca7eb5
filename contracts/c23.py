"""C23 - what a relationship says: its arcrole, link role and order, and the diagnostics of what it says wrongly (the networks themselves: bounded/c23.py)."""
from typing import Optional
from lxml import etree
from lxml.etree import _Element
from contracts.dsl import law, assume, raises
from brel import Context, Fact
from brel.resource.brel_footnote import BrelFootnote
from brel.data.fact.in_memory_fact_repository import InMemoryFactRepository
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.errors.error_code import ErrorCode
from brel.parsers.XHMTL.networks.xhtml_parse_footnote_network import parse_relationship_attributes, parse_relationship_from_and_to_refs, parse_role_reference, validate_relationship_from_and_to_refs
from brel.parsers.utils.url_utils import is_valid_uri

PURE = ["brel.parsers.utils.url_utils:is_valid_uri"]

IX = "http://www.xbrl.org/2013/inlineXBRL"
XLINK = "http://www.w3.org/1999/xlink"


def relationship_element(g):
    r = g.r
    e = etree.Element("{%s}relationship" % IX)
    if r.random() < .7:
        e.set("arcrole", r.choice(["http://a/r1", "r", "http:", "", "http://[", "urn:x"]))
    if r.random() < .7:
        e.set("linkRole", r.choice(["http://a/l1", "l", "http:", "", "http://[", "urn:x"]))
    if r.random() < .7:
        e.set("order", r.choice(["1", "2.5", "-3", "0", "", "x", "1e2", "INF", "nan ", "1,5"]))
    if r.random() < .8:
        e.set("fromRefs", r.choice(["", "a", "a b", " "]))
    if r.random() < .8:
        e.set("toRefs", r.choice(["", "a", "a b", " "]))
    return e


def reference_element(g):
    r = g.r
    e = etree.Element("{http://www.xbrl.org/2003/linkbase}roleRef", nsmap={"xlink": XLINK})
    for k, vs in (("{%s}type" % XLINK, ["simple", "extended", ""]), ("{%s}href" % XLINK, ["a.xsd#x", "http:", ""]), ("roleURI", ["http://r", "http:", ""]), ("{%s}role" % XLINK, ["", "r"])):
        if r.random() < .75:
            e.set(k, r.choice(vs))
    return e


def some_facts(g):
    r = g.r
    return [Fact(Context("c"), "1", r.choice(["a", "b", "c", "n", None]), None, None) for _ in range(r.choice([0, 1, 2, 3]))]


def an_id(g):
    return g.r.choice(["a", "b", "c", "n", "x"])


GENERATORS = {"fs": some_facts, "a": an_id, "b": an_id, "c": an_id, "n": an_id, "relationship": relationship_element, "reference": reference_element}
ARCROLE = "http://www.xbrl.org/2003/arcrole/fact-footnote"
LINKROLE = "http://www.xbrl.org/2003/role/link"


def numbers(f: InMemoryErrorRepository) -> list[int]:
    return [e.get_numeric_code() for e in f.get_all()]


def code(f: InMemoryErrorRepository, c: ErrorCode) -> int:
    return f.create(c, None, arcrole="", linkrole="", order="", invalid_ids="", linktype="", href="", role_uri="").get_numeric_code()


def role_of(given: Optional[str], default: str) -> str:
    return given if given and is_valid_uri(given) else default


@law("C23")
def the_roles_are_the_ones_written(relationship: _Element):
    f = InMemoryErrorRepository()
    arcrole, linkrole, order = parse_relationship_attributes(relationship, f)
    assert arcrole == role_of(relationship.get("arcrole"), ARCROLE)
    assert linkrole == role_of(relationship.get("linkRole"), LINKROLE)


@law("C23")
def the_order_is_the_one_written(relationship: _Element):
    f = InMemoryErrorRepository()
    arcrole, linkrole, order = parse_relationship_attributes(relationship, f)
    given = relationship.get("order")
    if not given or raises(float, given):
        assert order == 1.0
    else:
        assert str(order) == str(float(given))


@law("C23")
def wrong_roles_and_orders_are_diagnosed(relationship: _Element):
    f = InMemoryErrorRepository()
    parse_relationship_attributes(relationship, f)
    want = []
    arcrole, linkrole, order = relationship.get("arcrole"), relationship.get("linkRole"), relationship.get("order")
    if arcrole and not is_valid_uri(arcrole):
        want.append(code(f, ErrorCode.IXBRL_RELATIONSHIP_INVALID_ARCROLE))
    if linkrole and not is_valid_uri(linkrole):
        want.append(code(f, ErrorCode.IXBRL_RELATIONSHIP_INVALID_LINKROLE))
    if order and raises(float, order):
        want.append(code(f, ErrorCode.IXBRL_RELATIONSHIP_INVALID_ORDER))
    assert numbers(f) == want
    assert all(e.get_context() is relationship for e in f.get_all())


@law("C23")
def missing_ends_are_diagnosed(relationship: _Element):
    f = InMemoryErrorRepository()
    assume(not relationship.get("fromRefs") and not relationship.get("toRefs"))
    sources, targets = parse_relationship_from_and_to_refs(relationship, f)
    assert len(sources) == 0 and len(targets) == 0
    assert numbers(f) == [code(f, ErrorCode.IXBRL_RELATIONSHIP_WITHOUT_FROMREFS), code(f, ErrorCode.IXBRL_RELATIONSHIP_WITHOUT_TOREFS)]


@law("C23", bounded=True)
def the_ends_are_the_ones_written(relationship: _Element):
    f = InMemoryErrorRepository()
    sources, targets = parse_relationship_from_and_to_refs(relationship, f)
    assert sources == set((relationship.get("fromRefs") or "").split())
    assert targets == set((relationship.get("toRefs") or "").split())
    assert len(f.get_all()) == (0 if relationship.get("fromRefs") else 1) + (0 if relationship.get("toRefs") else 1)


@law("C23")
def wrong_role_references_are_diagnosed(reference: _Element):
    f = InMemoryErrorRepository()
    parse_role_reference(reference, f)
    href, uri = reference.get("{http://www.w3.org/1999/xlink}href"), reference.get("roleURI")
    want = []
    if reference.get("{http://www.w3.org/1999/xlink}type") != "simple":
        want.append(code(f, ErrorCode.ROLEREF_INVALID_LINKTYPE))
    if not href:
        want.append(code(f, ErrorCode.ROLEREF_MISSING_HREF_ATTRIBUTE))
    elif not is_valid_uri(href):
        want.append(code(f, ErrorCode.ROLEREF_INVALID_HREF_ATTRIBUTE))
    if not uri:
        want.append(code(f, ErrorCode.ROLEREF_MISSING_ROLE_URI_ATTRIBUTE))
    elif not is_valid_uri(uri):
        want.append(code(f, ErrorCode.ROLEREF_INVALID_ROLE_URI_ATTRIBUTE))
    if reference.get("{http://www.w3.org/1999/xlink}role") == "":
        want.append(code(f, ErrorCode.ROLEREF_EMPTY_ROLE_ATTRIBUTE))
    assert numbers(f) == want


class Facts(InMemoryFactRepository):
    """facts of which only the identifiers matter"""
    def __init__(self, fs: list[Fact]) -> None:
        super().__init__()
        self.fs: list[Fact] = fs

    def get_by_id_optional(self, fact_id: str) -> Optional[Fact]:
        for f in self.fs:
            if f.get_id() == fact_id:
                return f
        return None


def known(fs: list[Fact], x: str) -> bool:
    return any(f.get_id() == x for f in fs)


@law("C23")
def one_to_one_relationships_keep_their_known_ends(relationship: _Element, fs: list[Fact], footnote: BrelFootnote, n: str, a: str, b: str):
    f = InMemoryErrorRepository()
    sources, targets = {a}, {b}
    validate_relationship_from_and_to_refs(relationship, sources, targets, {n: footnote}, Facts(fs), f)
    assert (a in sources) == known(fs, a)
    assert (b in targets) == (a != b and (known(fs, b) or b == n))
    assert len(sources) <= 1 and len(targets) <= 1
    want = []
    if a == b:
        want.append(code(f, ErrorCode.IXBRL_RELATIONSHIP_REPEATED_ID))
    if not known(fs, a):
        want.append(code(f, ErrorCode.IXBRL_RELATIONSHIP_INVALID_FACT_ID_IN_FROMREFS))
    if a != b and not known(fs, b) and b != n:
        want.append(code(f, ErrorCode.IXBRL_RELATIONSHIP_INVALID_FACT_OR_FOOTNOTE_ID_IN_TOREFS))
    assert numbers(f) == want


@law("C23")
def one_to_two_relationships_keep_their_known_ends(relationship: _Element, fs: list[Fact], footnote: BrelFootnote, n: str, a: str, b: str, c: str):
    f = InMemoryErrorRepository()
    assume(known(fs, a) and a != b and a != c and b != c)
    sources, targets = {a}, {b, c}
    validate_relationship_from_and_to_refs(relationship, sources, targets, {n: footnote}, Facts(fs), f)
    assert a in sources and len(sources) == 1
    b_known, c_known = known(fs, b) or b == n, known(fs, c) or c == n
    assert (b in targets) == b_known and (c in targets) == c_known
    assert len(targets) == (1 if b_known else 0) + (1 if c_known else 0)
    want = []
    if not b_known or not c_known:
        want.append(code(f, ErrorCode.IXBRL_RELATIONSHIP_INVALID_FACT_OR_FOOTNOTE_ID_IN_TOREFS))
    if b_known and c_known and (b == n) != (c == n):
        want.append(code(f, ErrorCode.IXBRL_RELATIONSHIP_MIXED_FACT_AND_FOOTNOTES_IN_TOREFS))
    assert numbers(f) == want
