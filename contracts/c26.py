"""C26 - which reader reads a report, which loader loads a path (folders, archives and EDGAR: bounded/c26.py)."""
import os
import tempfile
from contracts.dsl import law, assume, raises
from brel.contexts.factory import get_catalog_filepath
from brel.contexts.filing_context import FilingContext
from brel.data.namespace.in_memory_namespace_repository import InMemoryNamespaceRepository
from brel.data.xml.xml_repository import XMLRepository
from brel.parsers.filing_parser_factory import FilingParserFactory
from brel.parsers.path_loaders.factory import create_path_loader_resolver
from brel.parsers.path_loaders.file_path_loader import FilePathLoader
from brel.parsers.path_loaders.folder_path_loader import FolderPathLoader
from brel.parsers.path_loaders.path_loader import PathLoader
from brel.parsers.path_loaders.path_loader_resolver import PathLoaderResolver
from brel.parsers.path_loaders.zip_path_loader import ZipPathLoader
from brel.parsers.xhtml_filing_parser import XHTMLFilingParser
from brel.parsers.xml_filing_parser import XMLFilingParser
from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver

SOME = {}


def some_path(g):
    """paths of real files and folders, and others"""
    if not SOME:
        d = tempfile.mkdtemp(prefix="c26_")
        for n in ("a.xml", "b.xsd", "c.htm", "d.html", "e.xhtml", "f.txt", "g.xml.txt", "h", "i.XML", "xml", "j.zip", "k.htmlx"):
            with open(os.path.join(d, n), "w") as f:
                f.write("<a/>")
        os.mkdir(os.path.join(d, "l.xml"))
        os.mkdir(os.path.join(d, "m.zip"))
        SOME["d"] = d
    n = g.r.choice(["a.xml", "b.xsd", "c.htm", "d.html", "e.xhtml", "a.xml", "b.xsd", "c.htm", "f.txt", "g.xml.txt", "h", "i.XML", "xml", "j.zip", "k.htmlx", "l.xml", "m.zip", "none.xml", "none.zip", "", "x/META-INF/catalog.xml"])
    return g.r.choice([SOME["d"] + "/"] * 6 + ["http://none/", "https://none/", "http", ""]) + n


def some_paths(g):
    return [SOME["d"] + "/" + g.r.choice(["a.xml", "b.xsd", "c.htm", "d.html", "e.xhtml", "a.xml", "b.xsd", "f.txt", "g.xml.txt", "k.htmlx"]) for _ in range(g.r.choice([1, 1, 2, 3]))] if some_path(g) is not None else []


def any_paths(g):
    return [some_path(g) for _ in range(g.r.choice([0, 1, 2, 4]))]


def some_loaders(g):
    return [Some(g.r.random() < .4) for _ in range(g.r.choice([0, 1, 2, 3]))]


GENERATORS = {"loaders": some_loaders, "path": some_path, "files": some_paths, "paths": any_paths, "other": some_path, "more": some_paths}


class NoDocuments(XMLRepository):
    """documents that declare no namespaces"""
    def __init__(self) -> None:
        pass

    def get_all_etrees(self) -> list:
        return []


class Empty(FilingContext):
    def __init__(self) -> None:
        super().__init__()
        self.names: InMemoryNamespaceRepository = InMemoryNamespaceRepository()
        self.documents: NoDocuments = NoDocuments()

    def get_namespace_repository(self) -> InMemoryNamespaceRepository:
        return self.names

    def get_xml_service(self) -> NoDocuments:
        return self.documents


def empty_context(entrypoint_filepaths: list[str]) -> Empty:
    """the documents are loaded (C19); here it matters who reads them"""
    return Empty()


CONTRACTS = {"brel.contexts.factory:create_filing_context": empty_context}


def is_xml(f: str) -> bool:
    return f.endswith(".xml") or f.endswith(".xsd")


def is_inline(f: str) -> bool:
    return f.endswith(".htm") or f.endswith(".html") or f.endswith(".xhtml")


@law("C26")
def a_report_of_xml_files_is_read_by_the_xml_reader(files: list[str]):
    assume(len(files) > 0 and all(is_xml(f) for f in files))
    p = FilingParserFactory().create_parser(files)
    assert isinstance(p, XMLFilingParser)
    assert p.get_filing_type() == "XML"


@law("C26")
def a_report_with_inline_files_is_read_by_the_inline_reader(files: list[str]):
    assume(len(files) > 0)
    assume(all(f.endswith(".xml") or f.endswith(".xsd") or f.endswith(".htm") or f.endswith(".html") or f.endswith(".xhtml") for f in files) and not all(is_xml(f) for f in files))
    p = FilingParserFactory().create_parser(files)
    assert isinstance(p, XHTMLFilingParser)
    assert p.get_filing_type() == "XHTML"


@law("C26")
def a_report_with_another_file_is_refused(files: list[str], other: str, more: list[str]):
    assume(not is_xml(other) and not is_inline(other))
    assert raises(FilingParserFactory().create_parser, files + [other] + more)


@law("C26")
def a_report_of_no_files_is_refused():
    assert raises(FilingParserFactory().create_parser, [])


def read_xml(file):
    return "xml"


def read_inline(file):
    return "inline"


@law("C26")
def a_document_is_parsed_as_what_its_name_says(path: str):
    r = XMLFileParserResolver(read_xml, read_inline)
    if is_xml(path):
        assert r.get_parser(path)(None) == "xml"
    elif is_inline(path):
        assert r.get_parser(path)(None) == "inline"
    else:
        assert raises(r.get_parser, path)


# ------------------------------------------------------------------ paths
class Some(PathLoader):
    def __init__(self, fits: bool) -> None:
        self.fits: bool = fits

    def is_loader_for(self, path: str) -> bool:
        return self.fits

    def load(self, path: str) -> list[str]:
        return [path]


@law("C26")
def the_first_loader_that_fits_loads_a_path(loaders: list[Some], path: str):
    r = PathLoaderResolver(loaders)
    if any(l.fits for l in loaders):
        assert r.get_path_loader(path) is next(l for l in loaders if l.fits)
    else:
        assert raises(r.get_path_loader, path)


@law("C26")
def a_file_is_loaded_alone(path: str):
    l = FilePathLoader()
    remote = path.startswith("http://") or path.startswith("https://")
    assert l.is_loader_for(path) == ((path.endswith(".xml") or is_inline(path)) and (os.path.isfile(path) or remote))
    assert l.load(path) == [path]


@law("C26")
def which_loader_loads_a_path(path: str):
    remote = path.startswith("http://") or path.startswith("https://")
    r = create_path_loader_resolver()
    if (path.endswith(".xml") or is_inline(path)) and (os.path.isfile(path) or remote):
        assert isinstance(r.get_path_loader(path), FilePathLoader)
    elif os.path.isdir(path):
        assert isinstance(r.get_path_loader(path), FolderPathLoader)
    elif path.endswith(".zip"):
        assert isinstance(r.get_path_loader(path), ZipPathLoader)
    else:
        assert raises(r.get_path_loader, path)


@law("C26", bounded=True)
def only_a_catalog_is_a_catalog(paths: list[str]):
    c = get_catalog_filepath(paths)
    if any(p.endswith("META-INF/catalog.xml") for p in paths):
        assert c in paths
        assert c.endswith("META-INF/catalog.xml")
        assert not any(p.endswith("META-INF/catalog.xml") and len(p) < len(c) for p in paths)
    else:
        assert c is None
