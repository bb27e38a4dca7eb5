"""C11 - stores: every history of insertions against the obvious model (the last value stored under a key)."""
from typing import Optional
from contracts.dsl import law, outcome, raises
from brel import Context, Fact, QName
from brel.characteristics import Aspect, ICharacteristic, PeriodCharacteristic, EntityCharacteristic, TypedDimensionCharacteristic
from brel.networks import INetwork, PresentationNetwork, CalculationNetwork
from brel.reportelements import IReportElement, Concept, Dimension
from brel.errors.error_instance import ErrorInstance
from brel.data.aspect.in_memory_aspect_repository import InMemoryAspectRepository
from brel.data.characteristic.in_memory_characteristic_repository import InMemoryCharacteristicRepository
from brel.data.context.in_memory_context_repository import InMemoryContextRepository
from brel.data.namespace.in_memory_namespace_repository import InMemoryNamespaceRepository
from brel.data.network.in_memory_network_repository import InMemoryNetworkRepository
from brel.data.report_element.in_memory_report_element_repository import InMemoryReportElementRepository
from brel.data.uri_rewrite.in_memory_uri_rewrite_repository import InMemoryURIRewriteRepository
from brel.data.fact.in_memory_fact_repository import InMemoryFactRepository
from brel.brel_component import Component
from brel.data.component.in_memory_component_repository import InMemoryComponentRepository
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository


@law("C11")
def aspect_store(history: list[Aspect], key: str):
    repo = InMemoryAspectRepository()
    model = {}
    for a in history:
        repo.upsert(a)
        model[a.get_name()] = a
    assert repo.has(key) == (key in model)
    if key in model:
        assert repo.get(key) is model[key]
    else:
        assert raises(repo.get, key)


@law("C11")
def fact_store_by_id(history: list[Fact], key: str):
    repo = InMemoryFactRepository()
    model = {}
    for f in history:
        repo.upsert(f)
        i = f.get_id()
        if i is not None:
            model[i] = f
    assert repo.has_id(key) == (key in model)
    if key in model:
        assert repo.get_by_id(key) is model[key]
        assert repo.get_by_id_optional(key) is model[key]
    else:
        assert raises(repo.get_by_id, key)
        assert repo.get_by_id_optional(key) is None


@law("C11")
def fact_store_enumeration(history: list[Fact]):
    repo = InMemoryFactRepository()
    model = {}
    anonymous = []
    for f in history:
        repo.upsert(f)
        i = f.get_id()
        if i is None:
            anonymous.append(f)
        else:
            model[i] = f
    assert repo.get_all() == list(model.values()) + anonymous


@law("C11")
def report_element_store_by_name(history: list[IReportElement], key: QName):
    repo = InMemoryReportElementRepository()
    model = {}
    for e in history:
        repo.upsert(e)
        model[e.get_name()] = e
    assert repo.has_qname(key) == (key in model)
    if key in model:
        assert repo.get_by_qname(key) is model[key]
        assert repo.has_typed_qname(key, Concept) == isinstance(model[key], Concept)
        assert repo.has_typed_qname(key, Dimension) == isinstance(model[key], Dimension)
        if isinstance(model[key], Concept):
            assert repo.get_typed_by_qname(key, Concept) is model[key]
        else:
            assert raises(repo.get_typed_by_qname, key, Concept)
    else:
        assert raises(repo.get_by_qname, key)
        assert not repo.has_typed_qname(key, Concept)
        assert raises(repo.get_typed_by_qname, key, Concept)


@law("C11")
def report_element_store_by_id(history: list[IReportElement], key: str):
    repo = InMemoryReportElementRepository()
    model = {}
    for e in history:
        repo.upsert(e)
        i = e.get_id()
        if i is not None:
            model[i] = e
    assert repo.has_id(key) == (key in model)
    if key in model:
        assert repo.get_by_id(key) is model[key]
        assert repo.has_typed_id(key, Concept) == isinstance(model[key], Concept)
    else:
        assert raises(repo.get_by_id, key)
        assert not repo.has_typed_id(key, Concept)


@law("C11")
def report_element_store_enumeration(history: list[IReportElement]):
    repo = InMemoryReportElementRepository()
    model = {}
    for e in history:
        repo.upsert(e)
        model[e.get_name()] = e
    assert repo.get_all() == list(model.values())


@law("C11")
def characteristic_store_one_step(history: list[tuple[str, ICharacteristic]], key: str):
    repo = InMemoryCharacteristicRepository()
    periods = {}
    entities = {}
    for i, c in history:
        repo.upsert(i, c)
        if isinstance(c, PeriodCharacteristic):
            periods[i] = c
        if isinstance(c, EntityCharacteristic):
            entities[i] = c
    assert repo.has(key, PeriodCharacteristic) == (key in periods)
    assert repo.has(key, EntityCharacteristic) == (key in entities)
    if key in periods:
        assert repo.get(key, PeriodCharacteristic) is periods[key]
    else:
        assert raises(repo.get, key, PeriodCharacteristic)
    if key in entities:
        assert repo.get(key, EntityCharacteristic) is entities[key]
    else:
        assert raises(repo.get, key, EntityCharacteristic)


@law("C11")
def network_store_by_type(history: list[INetwork]):
    repo = InMemoryNetworkRepository()
    p = []
    c = []
    for n in history:
        repo.upsert(n)
        if type(n) == PresentationNetwork:
            p.append(n)
        if type(n) == CalculationNetwork:
            c.append(n)
    assert repo.get_by_type(PresentationNetwork) == p
    assert repo.get_by_type(CalculationNetwork) == c


@law("C11")
def uri_rewrite_absent_is_identity(uri: str):
    repo = InMemoryURIRewriteRepository()
    assert repo.rewrite(uri) == uri


@law("C11")
def uri_rewrite_last_wins(a: str, b: str, c: str, uri: str):
    repo = InMemoryURIRewriteRepository()
    repo.upsert(a, b)
    repo.upsert(a, c)
    if uri.startswith(a):
        assert repo.rewrite(uri) == c + uri[len(a):]
    else:
        assert repo.rewrite(uri) == uri
    repo.delete(a)
    assert repo.rewrite(uri) == uri


@law("C11")
def error_store_keeps_everything_in_order(history: list[ErrorInstance]):
    repo = InMemoryErrorRepository()
    for e in history:
        repo.insert_premade(e)
    assert repo.get_all() == history
    repo.clear()
    assert repo.get_all() == []


@law("C11")
def context_store_first_wins(history: list[Context], key: str):
    repo = InMemoryContextRepository()
    model = {}
    for c in history:
        added = repo.insert_context(c)
        assert added == (c._get_id() not in model)
        if c._get_id() not in model:
            model[c._get_id()] = c
    if key in model:
        got = repo.get_context_copy(key)
        assert got is not None and got == model[key] and got is not model[key]
    else:
        assert repo.get_context_copy(key) is None


@law("C11", bounded=True)
def context_store_every_key(history: list[Context]):
    repo = InMemoryContextRepository()
    model = {}
    for c in history:
        assert repo.insert_context(c) == (c._get_id() not in model)
        model.setdefault(c._get_id(), c)
        for k, v in model.items():
            got = repo.get_context_copy(k)
            assert got is not v and got._get_id() == k
            assert [a.get_name() for a in got.get_aspects()] == [a.get_name() for a in v.get_aspects()]
            for a in v.get_aspects():
                assert str(got.get_characteristic(a).get_value()) == str(v.get_characteristic(a).get_value())
            # the copy is the caller's own
            got._add_characteristic(TypedDimensionCharacteristic(Dimension(QName("u", "p", "own"), None, []), "1", Aspect("own", [])))
            assert len(repo.get_context_copy(k).get_aspects()) == len(v.get_aspects())


@law("C11", bounded=True)
def component_store_every_key(history: list[Component]):
    repo = InMemoryComponentRepository()
    model = {}
    for c in history:
        repo.upsert(c)
        model.pop(c.get_URI(), None)
        model[c.get_URI()] = c
        assert sorted(id(x) for x in repo.get_all()) == sorted(id(x) for x in model.values())


@law("C11")
def namespace_store(history: list[tuple[str, str]], prefix: str, uri: str):
    repo = InMemoryNamespaceRepository()
    hit = False
    known_p = False
    known_u = False
    for p, u in history:
        repo.upsert(p, u)
        if p == prefix and u == uri:
            hit = True
        if p == prefix:
            known_p = True
        if u == uri:
            known_u = True
    assert (uri in repo.get_uris(prefix)) == hit
    assert (prefix in repo.get_prefixes(uri)) == hit
    if not known_p:
        assert len(repo.get_uris(prefix)) == 0
    if not known_u:
        assert len(repo.get_prefixes(uri)) == 0
