"""C12 - qualified names are read, resolved and compared faithfully."""
from typing import Literal, Optional
from lxml.etree import _Element
from contracts.dsl import law, outcome, raises, assume
from brel import QName
from brel.qnames.qname_search_params import QNameSearchParams
from brel.qnames.qname_utils import qname_from_str, to_clark_notation, to_namespace_localname_notation

U = Literal["http://a", "http://b/2020#x", "urn:x:y", "tag:a,2020:b", "http://A", "http://a/", "http://www.w3.org/2001/XMLSchema"]
P = Literal["p", "q", "p-1", "_x", "é", "P", "p.1", "xbrli"]
N = Literal["x", "X", "Y.z", "a-b", "_1", "ÄÖ", "p"]


@law("C12")
def names_are_equal_by_namespace_and_local_part(a: QName, b: QName):
    assert (a == b) == (a.get_URL() == b.get_URL() and a.get_local_name() == b.get_local_name())
    assert a == a
    assert (a == b) == (b == a)
    if a == b:
        assert hash(a) == hash(b)


@law("C12")
def equality_is_transitive(a: QName, b: QName, c: QName):
    if a == b and b == c:
        assert a == c


@law("C12")
def name_has_its_parts(u: str, p: str, l: str):
    q = QName(u, p, l)
    assert q.get_URL() == u
    assert q.get_prefix() == p
    assert q.get_local_name() == l
    assert q.clark_notation() == "{" + u + "}" + l
    assert q.prefix_local_name_notation() == p + ":" + l
    assert str(q) == p + ":" + l
    assert to_clark_notation(u, l) == "{" + u + "}" + l
    assert to_namespace_localname_notation(p, l) == p + ":" + l


def some_element(g):
    """an element with random declarations in scope (executing the contracts only)"""
    r = g.r
    u = ["http://a", "http://b/2020#x", "urn:x:y", "tag:a,2020:b", "http://A", "http://a/"]
    p = ["p", "q", "p-1", "_x", "P", "p.1"]
    pick = lambda: {r.choice(p): r.choice(u) for _ in range(r.randint(0, 3))}
    return element(pick(), pick(), r.choice([None, *u]), r.choice([None, None, "", *u]))[0]


def some_name(g):
    r = g.r
    return r.choice(["", " ", "\n"]) + r.choice(["p", "q", "p-1", "_x", "P", "p.1"]) + ":" + r.choice(["x", "X", "Y.z", "a-b", "_1", "p"])


def some_clark_name(g):
    r = g.r
    return r.choice(["", " ", "\n"]) + "{" + r.choice(["http://a", "http://b/2020#x", "urn:x:y", "tag:a,2020:b"]) + "}" + r.choice(["x", "X", "Y.z", "a-b", "_1", "p"]) + r.choice(["", "\t"])


GENERATORS = {"e": some_element, "prefixed": some_name, "clark": some_clark_name}


@law("C12")
def a_prefixed_name_means_what_its_prefix_declares(e: _Element, prefixed: str):
    p, colon, l = prefixed.strip().partition(":")
    assume(colon == ":" and p != "" and l != "" and ":" not in l and "{" not in p and p != "xml")
    assume(p in e.nsmap)
    q = qname_from_str(prefixed, e)
    assert q.get_URL() == e.nsmap[p]
    assert q.get_prefix() == p
    assert q.get_local_name() == l


@law("C12")
def a_name_in_clark_notation_means_itself(e: _Element, clark: str):
    text = clark.strip()
    assume(text.startswith("{") and "\n" not in text)
    u, brace, l = text[1:].partition("}")
    assume(brace == "}" and u != "" and l != "" and "{" not in l)
    q = qname_from_str(clark, e)
    assert q.get_URL() == u
    assert q.get_local_name() == l


@law("C12")
def a_plain_name_is_in_the_default_namespace(e: _Element, l: str):
    text = l.strip()
    assume(text != "" and ":" not in text and "{" not in text)
    assume(None in e.nsmap)
    q = qname_from_str(l, e)
    assert q.get_URL() == e.nsmap[None]
    assert q.get_local_name() == text


def element(outer: dict, inner: dict, default: Optional[str], innerdefault: Optional[str]):
    """an element with the given declarations in scope, and what they mean"""
    import lxml.etree
    d = "".join(' xmlns:%s="%s"' % i for i in outer.items()) + (' xmlns="%s"' % default if default else "")
    e = "".join(' xmlns:%s="%s"' % i for i in inner.items()) + (' xmlns="%s"' % innerdefault if innerdefault is not None else "")
    root = lxml.etree.fromstring('<r%s><s%s/></r>' % (d, e))
    scope = dict(outer)
    scope.update(inner)
    return root[0], scope, (innerdefault if innerdefault is not None else default) or None


@law("C12", bounded=True)
def names_resolve_in_scope(outer: dict[P, U], inner: dict[P, U], default: Optional[U], innerdefault: Optional[U], p: P, u: U, l: N, pad: Literal["", " ", "\n\t"], kind: Literal["prefix", "clark", "plain"]):
    e, scope, df = element(outer, inner, default, innerdefault)
    before = dict(e.nsmap)
    if kind == "prefix":
        got = outcome(qname_from_str, pad + p + ":" + l + pad, e)
        if p in scope:
            assert got[0] == "ok" and (got[1].get_URL(), got[1].get_local_name(), got[1].get_prefix()) == (scope[p], l, p)
        else:
            # an undeclared prefix never gives a name in a declared namespace
            assert got[0] == "raise" or got[1].get_URL() not in set(scope.values()) | {df} | {"http://a", "http://b/2020#x", "urn:x:y", ""}
    elif kind == "clark":
        q = qname_from_str(pad + "{" + u + "}" + l + pad, e)
        assert (q.get_URL(), q.get_local_name()) == (u, l)
        if u in scope.values():
            assert scope.get(q.get_prefix()) == u or (df == u and q.get_prefix() in ("None", ""))
    else:
        q = outcome(qname_from_str, pad + l + pad, e)
        if df:
            assert q[0] == "ok" and (q[1].get_URL(), q[1].get_local_name()) == (df, l)
        else:
            assert q[0] == "raise" or q[1].get_URL() not in set(scope.values()) | {""}
    assert dict(e.nsmap) == before


@law("C12", bounded=True)
def printed_names_read_back(outer: dict[P, U], inner: dict[P, U], p: P, l: N, l2: N):
    e, scope, _ = element(outer, inner, None, None)
    assume(p in scope)
    q = QName(scope[p], p, l)
    for text in (q.clark_notation(), q.prefix_local_name_notation(), str(q)):
        r = qname_from_str(text, e)
        assert r == q and hash(r) == hash(q)
        assert (r == QName(scope[p], "other", l2)) == (l == l2)
    assert qname_from_str("xml:" + l, e).get_URL() == "http://www.w3.org/XML/1998/namespace"


@law("C12", bounded=True)
def search_parameters(u: U, p: P, l: N):
    s = QNameSearchParams.from_string("{" + u + "}" + l)
    assert (s.uri, s.prefix, s.local_name) == (u, None, l)
    s = QNameSearchParams.from_string(p + ":" + l)
    assert (s.uri, s.prefix, s.local_name) == (None, p, l)
    s = QNameSearchParams.from_string(l)
    assert (s.uri, s.prefix, s.local_name) == (None, None, l)
