"""C10 - queries on a report return exactly the matching objects."""
from typing import Literal
from contracts.dsl import law, raises, outcome
from brel import Fact, Filing, QName
from brel.contexts.filing_context import FilingContext
from brel.brel_component import Component
from brel.data.component.component_repository import ComponentRepository
from brel.networks import INetwork, PresentationNetwork, CalculationNetwork, DefinitionNetwork
from brel.reportelements import IReportElement, Concept, Abstract, LineItems, Hypercube, Dimension, Member
from brel.errors.error_instance import ErrorInstance
from brel.errors.severity import Severity
from brel.errors.area import Area


def filing_of_elements(es: list[IReportElement]) -> Filing:
    c = FilingContext()
    repo = c.get_report_element_repository()
    for e in es:
        repo.upsert(e)
    return Filing(c)


def filing_of_facts(fs: list[Fact]) -> Filing:
    c = FilingContext()
    repo = c.get_fact_repository()
    for f in fs:
        repo.upsert(f)
    return Filing(c)


def filing_of_errors(es: list[ErrorInstance]) -> Filing:
    c = FilingContext()
    repo = c.get_error_repository()
    for e in es:
        repo.insert_premade(e)
    return Filing(c)


class Components(ComponentRepository):
    """a store that holds the given components"""
    def __init__(self, cs: list[Component]) -> None:
        self.cs: list[Component] = cs

    def get_all(self) -> list[Component]:
        return self.cs

    def upsert(self, component: Component) -> None:
        raise ValueError("queries do not store")


class ContextOfComponents(FilingContext):
    def __init__(self, cs: list[Component]) -> None:
        super().__init__()
        self.repo: Components = Components(cs)

    def get_component_repository(self) -> ComponentRepository:
        return self.repo


def filing_of_components(cs: list[Component]) -> Filing:
    return Filing(ContextOfComponents(cs))


@law("C10")
def elements_of_a_kind(es: list[IReportElement]):
    f = filing_of_elements(es)
    all = f.get_all_report_elements()
    assert f.get_all_concepts() == [e for e in all if isinstance(e, Concept)]
    assert f.get_all_abstracts() == [e for e in all if isinstance(e, Abstract)]
    assert f.get_all_line_items() == [e for e in all if isinstance(e, LineItems)]
    assert f.get_all_hypercubes() == [e for e in all if isinstance(e, Hypercube)]
    assert f.get_all_dimensions() == [e for e in all if isinstance(e, Dimension)]
    assert f.get_all_members() == [e for e in all if isinstance(e, Member)]


@law("C10")
def core_facts(fs: list[Fact]):
    f = filing_of_facts(fs)
    assert f.get_all_core_facts() == [x for x in f.get_all_facts() if x.is_core()]


def distinct_concepts(fs: list[Fact]) -> list[Concept]:
    want = []
    for x in fs:
        if x.get_concept() not in want:
            want.append(x.get_concept())
    return want


@law("C10")
def concepts_in_use(fs: list[Fact]):
    f = filing_of_facts(fs)
    assert outcome(f.get_all_reported_concepts) == outcome(distinct_concepts, f.get_all_facts())


@law("C10")
def diagnostics_by_severity(es: list[ErrorInstance], s: Severity):
    f = filing_of_errors(es)
    assert f.get_all_errors() == es
    assert f.has_any_errors() == (len(es) > 0)
    assert f.get_errors_by_severity(s) == [e for e in es if e.get_severity() == s]
    assert f.get_errors() == [e for e in es if e.get_severity() == Severity.ERROR]
    assert f.get_warnings() == [e for e in es if e.get_severity() == Severity.WARNING]
    assert f.get_infos() == [e for e in es if e.get_severity() == Severity.INFO]


@law("C10")
def diagnostics_by_area(es: list[ErrorInstance], a: Area):
    f = filing_of_errors(es)
    assert f.get_errors_by_area(a) == [e for e in es if e.get_area() == a]


@law("C10")
def components_by_role(cs: list[Component], uri: str):
    f = filing_of_components(cs)
    all = f.get_all_components()
    assert f.get_all_component_uris() == [c.get_URI() for c in all]
    found = None
    for c in all:
        if c.get_URI() == uri:
            found = c
            break
    if found is None:
        assert raises(f.get_component, uri)
    else:
        assert f.get_component(uri) is found


@law("C10", bounded=True)
def networks_by_role_and_kind(ns: list[INetwork], role: str):
    c = FilingContext()
    repo = c.get_network_repository()
    for n in ns:
        repo.upsert(n)
    f = Filing(c)
    all = repo.get_all()
    assert sorted(id(n) for n in all) == sorted(id(n) for n in ns)
    assert f.get_all_physical_networks() == [n for n in all if n.is_physical()]
    for r in [role] + [n.get_link_role() for n in ns]:
        assert repo.get_by_linkrole(r) == [n for n in all if n.get_link_role() == r]


@law("C10")
def networks_of_three_kinds(p: PresentationNetwork, c: CalculationNetwork, d: DefinitionNetwork, role: str):
    x = FilingContext()
    repo = x.get_network_repository()
    repo.upsert(d)
    repo.upsert(p)
    repo.upsert(c)
    f = Filing(x)
    all = [d, p, c]
    assert repo.get_all() == all
    assert f.get_all_physical_networks() == [n for n in all if n.is_physical()]
    assert repo.get_by_linkrole(role) == [n for n in all if n.get_link_role() == role]
    assert repo.get_by_type(PresentationNetwork) == [p]
    assert repo.get_by_type(CalculationNetwork) == [c]
    assert repo.get_by_type(DefinitionNetwork) == [d]


@law("C10")
def element_by_name(es: list[IReportElement], q: QName):
    f = filing_of_elements(es)
    found = None
    for e in es:
        if e.get_name() == q:
            found = e
    if found is None:
        assert raises(f.get_report_element_by_name, q)
    else:
        assert f.get_report_element_by_name(q) is found


@law("C10", bounded=True)
def element_by_text(es: list[IReportElement], spaces: list[tuple[Literal["p", "q", "P", "zz"], Literal["http://a", "http://b", "http://a/", "http://A"]]], p: Literal["p", "q", "P", "zz", "none"], l: Literal["x", "y", "z", "w", "v", "X", "xx"], u: Literal["http://a", "http://b", "http://a/", "http://c"]):
    """a prefix may stand for several namespaces"""
    c = FilingContext()
    stored = {}
    for e in es:
        c.get_report_element_repository().upsert(e)
        stored[(e.get_name().uri, e.get_name().local_name)] = e
    for a, b in spaces:
        c.get_namespace_repository().upsert(a, b)
    f = Filing(c)
    uris = {b for a, b in spaces if a == p}
    for text, want in ((p + ":" + l, [e for (x, y), e in stored.items() if y == l and x in uris]), ("{" + u + "}" + l, [e for (x, y), e in stored.items() if (x, y) == (u, l)]), (l, [e for (x, y), e in stored.items() if y == l])):
        got = outcome(f.get_report_element_by_name, text)
        if len(want) == 1:
            assert got[0] == "ok" and got[1] is want[0]
        elif not want:
            assert got[0] == "raise" or got[1] is None
        else:
            assert got[0] == "raise" or any(got[1] is e for e in want)
        want = [e for e in want if isinstance(e, Concept)]
        got = outcome(f.get_concept_by_name, text)
        if len(want) == 1:
            assert got[0] == "ok" and got[1] is want[0]
        elif not want:
            assert got[0] == "raise" or got[1] is None
        else:
            assert got[0] == "raise" or any(got[1] is e for e in want)
