"""C17 - which elements continue a text (what the text is: bounded/c17.py)."""
from lxml import etree
from lxml.etree import _Element
from contracts.dsl import law, assume
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.errors.error_code import ErrorCode
from brel.errors.error_instance import ErrorInstance
from brel.parsers.XHMTL.elements.parse_continuation_chain import build_continuation_element_index, create_continuation_chains

PURE = ["brel.parsers.utils.lxml_utils:get_prefix_localname_tag"]
IX = "http://www.xbrl.org/2013/inlineXBRL"


def an_element(g):
    e = etree.Element("{%s}continuation" % IX, nsmap={"ix": IX})
    for k in ("id", "continuedAt"):
        if g.r.random() < .7:
            e.set(k, g.r.choice(["c1", "c2", "c3", ""]))
    return e


def a_text(g):
    e = etree.Element("{%s}nonNumeric" % IX, nsmap={"ix": IX})
    if g.r.random() < .9:
        e.set("continuedAt", g.r.choice(["c1", "c2", "c3", ""]))
    return e


def some_elements(g):
    return [an_element(g) for _ in range(g.r.choice([0, 1, 2, 4]))]


GENERATORS = {"continuations": some_elements, "c1": an_element, "c2": an_element, "text": a_text, "other": a_text, "key": lambda g: g.r.choice(["c1", "c2", "c3", ""])}


class NoDiagnostics(InMemoryErrorRepository):
    """diagnostics are not observed here"""
    def insert_premade(self, error: ErrorInstance) -> None:
        pass


@law("C17")
def a_continuation_is_found_under_its_id(continuations: list[_Element], key: str):
    index = build_continuation_element_index(continuations, NoDiagnostics(), set())
    model = {}
    for c in continuations:
        i = c.get("id")
        if i is not None:
            model[i] = c
    assert index.get(key) is model.get(key)


@law("C17")
def continuations_without_id_are_diagnosed(c1: _Element):
    assume(c1.get("id") is None)
    errors = InMemoryErrorRepository()
    assert len(build_continuation_element_index([c1], errors, set())) == 0
    assert [e.get_numeric_code() for e in errors.get_all()] == [errors.create(ErrorCode.IXBRL_CONTINUATION_WITHOUT_ID, None).get_numeric_code()]


def chain(text: _Element, continuations: list[_Element], used: list[str]) -> list[_Element]:
    """the continuations a text goes on with"""
    res = []
    at = text.get("continuedAt")
    while at is not None:
        here = [c for c in continuations if c.get("id") == at]
        if at in used or len(here) == 0:
            break
        used.append(at)
        res.append(here[-1])
        at = here[-1].get("continuedAt")
    return res


@law("C17")
def a_text_without_continuation_stays(text: _Element, c1: _Element):
    assume(text.get("continuedAt") is None)
    chains = create_continuation_chains([], [text], [c1], NoDiagnostics(), set())
    assert chains[text] == []


@law("C17")
def a_text_is_continued_by_one(text: _Element, c1: _Element):
    assume(text is not c1)
    chains = create_continuation_chains([], [text], [c1], NoDiagnostics(), set())
    assert chains[text] == chain(text, [c1], [])


@law("C17")
def a_text_is_continued_by_two(text: _Element, c1: _Element, c2: _Element):
    assume(text is not c1 and text is not c2 and c1 is not c2)
    chains = create_continuation_chains([], [text], [c1, c2], NoDiagnostics(), set())
    assert chains[text] == chain(text, [c1, c2], [])


@law("C17")
def a_continuation_belongs_to_one_text(text: _Element, other: _Element, c1: _Element):
    assume(text is not c1 and other is not c1 and text is not other)
    chains = create_continuation_chains([], [text, other], [c1], NoDiagnostics(), set())
    used = []
    assert chains[text] == chain(text, [c1], used)
    assert chains[other] == chain(other, [c1], used)


# ------------------------------------------------------------------ references that do not resolve
def codes(errors: InMemoryErrorRepository) -> list[int]:
    return [e.get_numeric_code() for e in errors.get_all()]


def code(errors: InMemoryErrorRepository, c: ErrorCode) -> int:
    return errors.create(c, None, id="", element_id="", element_ids="").get_numeric_code()


@law("C17")
def a_continuation_that_does_not_exist_is_diagnosed(text: _Element):
    assume(text.get("continuedAt") is not None)
    assume(len(list(text.iterdescendants("{*}continuation", text.tag))) == 0)
    errors = InMemoryErrorRepository()
    chains = create_continuation_chains([], [text], [], errors, set())
    assert chains[text] == []
    assert codes(errors) == [code(errors, ErrorCode.IXBRL_INVALID_CONTINUATION_ID)]


@law("C17")
def an_unused_continuation_is_diagnosed(c1: _Element):
    assume(c1.get("id") is not None)
    errors = InMemoryErrorRepository()
    assert len(create_continuation_chains([], [], [c1], errors, set())) == 0
    assert codes(errors) == [code(errors, ErrorCode.IXBRL_UNUSED_CONTINUATION_ELEMENTS)]


@law("C17")
def a_continuation_of_two_texts_is_diagnosed(text: _Element, other: _Element, c1: _Element):
    assume(text is not c1 and other is not c1 and text is not other)
    assume(c1.get("id") is not None and c1.get("continuedAt") is None)
    assume(text.get("continuedAt") == c1.get("id") and other.get("continuedAt") == c1.get("id"))
    assume(len(list(text.iterdescendants("{*}continuation", text.tag))) == 0 and len(list(other.iterdescendants("{*}continuation", other.tag))) == 0 and len(list(c1.iterdescendants("{*}continuation", c1.tag))) == 0)
    errors = InMemoryErrorRepository()
    chains = create_continuation_chains([], [text, other], [c1], errors, set())
    assert chains[text] == [c1]
    assert chains[other] == []
    assert codes(errors) == [code(errors, ErrorCode.IXBRL_REUSED_CONTINUATION)]


@law("C17")
def continuations_of_each_other_are_diagnosed(text: _Element, c1: _Element, c2: _Element):
    assume(text is not c1 and text is not c2 and c1 is not c2)
    assume(c1.get("id") is not None and c2.get("id") is not None and c1.get("id") != c2.get("id"))
    assume(text.get("continuedAt") == c1.get("id") and c1.get("continuedAt") == c2.get("id") and c2.get("continuedAt") == c1.get("id"))
    assume(len(list(text.iterdescendants("{*}continuation", text.tag))) == 0 and len(list(c1.iterdescendants("{*}continuation", c1.tag))) == 0 and len(list(c2.iterdescendants("{*}continuation", c2.tag))) == 0)
    errors = InMemoryErrorRepository()
    chains = create_continuation_chains([], [text], [c1, c2], errors, set())
    assert chains[text] == [c1, c2]
    assert codes(errors) == [code(errors, ErrorCode.IXBRL_REUSED_CONTINUATION)]
