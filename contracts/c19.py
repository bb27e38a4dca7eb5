"""C19 - a document is read once, from where it is; what cannot be downloaded is diagnosed (whole reference graphs: bounded/c19.py)."""
from io import BytesIO
from typing import Optional
from requests import HTTPError
from contracts.dsl import law, assume, raises
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.data.file.file_repository import FileRepository
from brel.data.uri_rewrite.in_memory_uri_rewrite_repository import InMemoryURIRewriteRepository
from brel.data.xml.xml_repository import XMLRepository
from brel.errors.error_code import ErrorCode
from brel.parsers.utils.file_utils import is_remote_uri
from brel.services.file.file_service import FileService
from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver
from brel.services.xml.xml_service import XMLService

PURE = ["brel.services.xml.xml_service:XMLService.__resolve_uri", "brel.parsers.utils.lxml_xpath_utils:add_xpath_functions"]
URIS = ["http://a/x.xsd", "https://a/b/y.xml", "a/x.xml", "x.xml", "./b/../x.xml", "http/x.xml", "httpx.xsd", "/r/x.xsd", "file:///r/x.xsd", "http://www.sec.gov/x.xml", "../x.xml", "", "."]


def an_uri(g):
    return g.r.choice(URIS)


def a_status(g):
    return g.r.choice([200, 204, 301, 304, 399, 400, 403, 404, 410, 500, 503])


GENERATORS = {"reference": an_uri, "back": an_uri, "status": a_status, "other": an_uri, "uri": an_uri, "referring": an_uri}


def is_remote(uri: str) -> bool:
    return uri.startswith("http://") or uri.startswith("https://")


@law("C19")
def web_addresses_are_remote(uri: str):
    assert is_remote_uri(uri) == is_remote(uri)


# ------------------------------------------------------------------ stand-ins
class Document:
    """an open file"""
    def __init__(self, uri: str) -> None:
        self.uri: str = uri

    def __enter__(self):
        return self

    def __exit__(self, a, b, c) -> None:
        pass


class Tree:
    """a parsed document without references"""
    def __init__(self, uri: str) -> None:
        self.uri: str = uri

    def iter(self, tag: str) -> list:
        return []


def parsed(file: Document) -> Tree:
    return Tree(file.uri)


class Parsers(XMLFileParserResolver):
    def __init__(self) -> None:
        pass

    def get_parser(self, file_name: str):
        return parsed


class Files(FileService):
    """records what is asked of it"""
    def __init__(self, cached: bool, available: bool) -> None:
        self.cached: bool = cached
        self.available: bool = available
        self.downloaded: list[str] = []
        self.read: list[str] = []
        self.copied: list[str] = []

    def has_file(self, uri: str) -> bool:
        return self.cached

    def get_file(self, uri: str) -> Document:
        self.read.append(uri)
        return Document(uri)

    def download_and_add_file(self, uri: str) -> Optional[Document]:
        self.downloaded.append(uri)
        if not self.available:
            return None
        return Document(uri)

    def copy_and_add_file(self, local_path: str) -> Document:
        self.copied.append(local_path)
        return Document(local_path)


class Trees(XMLRepository):
    """records what is asked of it"""
    def __init__(self, known: bool) -> None:
        self.known: bool = known
        self.asked: list[str] = []
        self.uris: list[str] = []
        self.trees: list[Tree] = []

    def has_etree(self, uri: str) -> bool:
        self.asked.append(uri)
        return self.known

    def get_etree(self, uri: str) -> Tree:
        return Tree(uri)

    def add_etree(self, uri: str, etree: Tree) -> None:
        self.uris.append(uri)
        self.trees.append(etree)


def load(uri: str, referring: str, trees: Trees, files: Files) -> None:
    XMLService(files, trees, InMemoryURIRewriteRepository(), Parsers()).add_etree_recursive(uri, referring)


# ------------------------------------------------------------------ one document
@law("C19")
def a_known_document_is_not_read_again(uri: str, referring: str, cached: bool, available: bool):
    trees = Trees(True)
    files = Files(cached, available)
    load(uri, referring, trees, files)
    assert files.downloaded == [] and files.read == [] and files.copied == []
    assert trees.uris == []


@law("C19")
def a_remote_document_is_downloaded_once(uri: str, referring: str):
    trees = Trees(False)
    files = Files(False, True)
    load(uri, referring, trees, files)
    assume(is_remote(trees.asked[0]))
    assert files.downloaded == [trees.asked[0]]
    assert files.read == [] and files.copied == []
    assert trees.uris == [trees.asked[0]]
    assert trees.trees[0].uri == trees.asked[0]


@law("C19")
def a_cached_document_is_not_downloaded(uri: str, referring: str, available: bool):
    trees = Trees(False)
    files = Files(True, available)
    load(uri, referring, trees, files)
    assume(is_remote(trees.asked[0]))
    assert files.downloaded == [] and files.copied == []
    assert files.read == [trees.asked[0]]
    assert trees.uris == [trees.asked[0]]
    assert trees.trees[0].uri == trees.asked[0]


@law("C19")
def an_unavailable_document_is_left_out(uri: str, referring: str):
    trees = Trees(False)
    files = Files(False, False)
    load(uri, referring, trees, files)
    assume(is_remote(trees.asked[0]))
    assert files.downloaded == [trees.asked[0]]
    assert trees.uris == []


@law("C19")
def a_local_document_is_read_anew(uri: str, referring: str, cached: bool, available: bool):
    trees = Trees(False)
    files = Files(cached, available)
    load(uri, referring, trees, files)
    assume(not is_remote(trees.asked[0]) and not trees.asked[0].startswith("file:"))
    assert files.downloaded == [] and files.read == []
    assert files.copied == [trees.asked[0]]
    assert trees.uris == [trees.asked[0]]
    assert trees.trees[0].uri == trees.asked[0]


# ------------------------------------------------------------------ downloads
class Response:
    def __init__(self, content: bytes, status_code: int) -> None:
        self.content: bytes = content
        self.status_code: int = status_code

    def raise_for_status(self) -> None:
        if self.status_code >= 400:
            raise HTTPError()


class Session:
    """a web with one document"""
    def __init__(self, content: bytes, status_code: int) -> None:
        self.content: bytes = content
        self.status_code: int = status_code
        self.asked: list[str] = []

    def get(self, uri: str, headers: dict[str, str], timeout: int) -> Response:
        self.asked.append(uri)
        return Response(self.content, self.status_code)


class Cache(FileRepository):
    def __init__(self) -> None:
        self.uris: list[str] = []

    def get_file(self, uri: str) -> Document:
        return Document(uri)

    def has_file(self, uri: str) -> bool:
        return uri in self.uris

    def add_file(self, uri: str, file: object) -> None:
        self.uris.append(uri)


@law("C19")
def a_download_is_kept_under_its_address(uri: str, status: int):
    assume(status < 400 and "www.sec.gov" not in uri)
    cache = Cache()
    errors = InMemoryErrorRepository()
    web = Session(b"x", status)
    file = FileService(cache, errors, web).download_and_add_file(uri)
    assert web.asked == [uri]
    assert cache.uris == [uri]
    assert file is not None and file.uri == uri
    assert len(errors.get_all()) == 0


@law("C19")
def a_failed_download_is_diagnosed(uri: str, status: int):
    assume(status >= 400 and "www.sec.gov" not in uri)
    cache = Cache()
    errors = InMemoryErrorRepository()
    web = Session(b"x", status)
    file = FileService(cache, errors, web).download_and_add_file(uri)
    assert file is None
    assert web.asked == [uri]
    assert cache.uris == []
    assert [e.get_numeric_code() for e in errors.get_all()] == [errors.create(ErrorCode.UNAVAILABLE_REMOTE_FILE, None, uri="", status_code="").get_numeric_code()]


# ------------------------------------------------------------------ the documents of a report
@law("C19")
def a_document_is_found_under_its_address(uri: str, other: str):
    assume(is_remote(uri) and is_remote(other) and uri != other)
    r = XMLRepository()
    assert not r.has_etree(uri)
    t = Tree(uri)
    r.add_etree(uri, t)
    assert r.has_etree(uri)
    assert r.get_etree(uri) is t
    assert r.get_uri(t) == uri
    assert not r.has_etree(other)
    u = Tree(other)
    r.add_etree(other, u)
    assert r.get_etree(uri) is t
    assert r.get_etree(other) is u
    assert r.get_uri(t) == uri
    assert r.get_uri(u) == other
    assert len(r.get_all_etrees()) == 2 and r.get_all_etrees()[0] is t and r.get_all_etrees()[1] is u


# ------------------------------------------------------------------ references
class Reference:
    """an element that imports a schema"""
    def __init__(self, location: str) -> None:
        self.attrib: dict[str, str] = {"schemaLocation": location}


class Referring:
    """a parsed document with references"""
    def __init__(self, references: list[Reference]) -> None:
        self.references: list[Reference] = references

    def iter(self, tag: str) -> list[Reference]:
        return self.references


class OneAfterTheOther(XMLFileParserResolver):
    """the n-th document that is parsed has the n-th reference"""
    def __init__(self, references: list[str]) -> None:
        self.references: list[str] = references
        self.parsed: int = 0

    def get_parser(self, file_name: str):
        return self.parse

    def parse(self, file: Document) -> Referring:
        i = self.parsed
        self.parsed = self.parsed + 1
        if i < len(self.references):
            return Referring([Reference(self.references[i])])
        return Referring([])


class Store(XMLRepository):
    def __init__(self) -> None:
        self.asked: list[str] = []
        self.uris: list[str] = []
        self.trees: list[Referring] = []

    def has_etree(self, uri: str) -> bool:
        self.asked.append(uri)
        return uri in self.uris

    def get_etree(self, uri: str) -> Referring:
        return self.trees[self.uris.index(uri)]

    def add_etree(self, uri: str, etree: Referring) -> None:
        self.uris.append(uri)
        self.trees.append(etree)


@law("C19")
def a_referenced_document_is_read_too(uri: str, referring: str, reference: str):
    assume(reference.strip() != "")
    store = Store()
    files = Files(True, True)
    XMLService(files, store, InMemoryURIRewriteRepository(), OneAfterTheOther([reference])).add_etree_recursive(uri, referring)
    assert len(store.asked) == 2
    if store.asked[0] == store.asked[1]:
        assert store.uris == [store.asked[0]]
    else:
        assert store.uris == store.asked


@law("C19")
def documents_that_refer_to_each_other_are_read_once(uri: str, referring: str, reference: str, back: str):
    assume(reference.strip() != "" and back.strip() != "")
    store = Store()
    files = Files(True, True)
    XMLService(files, store, InMemoryURIRewriteRepository(), OneAfterTheOther([reference, back])).add_etree_recursive(uri, referring)
    assume(store.asked[0] != store.asked[1])
    assert len(store.asked) == 3
    assume(store.asked[2] == store.asked[0] or store.asked[2] == store.asked[1])
    assert store.uris == [store.asked[0], store.asked[1]]
