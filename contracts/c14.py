"""C14 - the label shown is the best available one."""
import os, tempfile, csv
from typing import Literal, Optional
from contracts.dsl import law, outcome, raises, assume
from brel import QName
from brel.resource import BrelLabel
from brel.characteristics import Aspect
from brel.reportelements import IReportElement, Concept
from brel.services.translation.translation_service import TranslationService

L = Literal["en", "de", "EN", "en-US", "en-us", "de-CH", "", "ja", "fr", "EN-us", "zh-Hans-CN", "zh", "zh-Hans", "d", "eng"]


def norm(l: str, locale: bool) -> str:
    l = l.lower()
    return l if locale else l.split("-")[0]


@law("C14")
def languages_are_compared_without_case(a: str, b: str):
    s = TranslationService()
    assert s.languages_match(a, b) == (a.lower() == b.lower())
    s.set_match_locale(False)
    assert s.languages_match(a, b) == (a.lower().split("-")[0] == b.lower().split("-")[0])
    s.set_match_locale(True)
    assert s.languages_match(a, b) == (a.lower() == b.lower())


@law("C14")
def first_label_in_a_language(labels: list[BrelLabel], lang: str, default: BrelLabel):
    s = TranslationService()
    want = None
    if lang == "":
        want = default
    else:
        for l in labels:
            if l.get_language().lower() == lang.lower():
                want = l
                break
    assert s.get_label_with_language(labels, lang, default) is want


@law("C14")
def earliest_language_wins(labels: list[BrelLabel], languages: list[str], default: BrelLabel):
    s = TranslationService()
    want = None
    for lang in languages:
        x = s.get_label_with_language(labels, lang, default)
        if x is not None:
            want = x
            break
    if want is None:
        assert raises(s.get_from_labels, labels, languages, default)
    else:
        assert s.get_from_labels(labels, languages, default) == str(want)


@law("C14", bounded=True)
def label_choice(labels: list[BrelLabel], langs: list[L], one: Optional[L], default: Literal["", "dflt"], given: bool, locale: bool):
    s = TranslationService()
    s.set_match_locale(locale)
    ls = langs if one is None else [one]
    want = None
    for lang in ls:
        if lang == "":
            want = default if given else "NO_LABEL"
        else:
            c = [l for l in labels if norm(l.get_language(), locale) == norm(lang, locale)]
            want = c[0].get_content() if c else None
        if want is not None:
            break
    before = list(labels)
    arg = (labels, langs if one is None else one) + ((default,) if given else ())
    for _ in range(2):
        got = outcome(s.get_from_labels, *arg)
        assert got == ("ok", want) if want is not None else got[0] == "raise"
    assert labels == before


FILE = {}


def service(rows, locale):
    """a service that has read the given translations"""
    s = TranslationService()
    f = os.path.join(tempfile.gettempdir(), "verif-t-%d.csv" % os.getpid())
    with open(f, "w", encoding="utf-8", newline="") as o:
        w = csv.writer(o)
        w.writerow(["namespace", "localname", "language", "locale", "value"])
        for r in rows:
            w.writerow(r)
    try:
        s.load_from_csv(f)
    finally:
        os.remove(f)
    s.set_match_locale(locale)
    return s


BASE = "http://www.brel.com/translations/"


@law("C14", bounded=True)
def translation_choice(rows: list[tuple[Literal["literal", "boolean"], Literal["a", "b"], Literal["en", "de", "EN", "ja"], Literal["US", "CH", "us"], Literal["T1", "T2", "with, comma", 'qu"ote', "ü\nx"]]],
                       key: Literal["literal:a", "boolean:a", "literal:b", "boolean:c"], langs: list[L], one: Optional[L], locale: bool, asq: bool):
    s = service([(BASE + r[0],) + r[1:] for r in rows], locale)
    model = {}
    for ns, n, l, c, v in rows:
        model.setdefault(ns + ":" + n, {})[l + "-" + c] = v
    ls = langs if one is None else [one]
    want = None
    for lang in ls:
        if lang == "" or key not in model:
            want = key.split(":")[1]
        else:
            want = next((v for l, v in model[key].items() if norm(l, locale) == norm(lang, locale)), None)
        if want is not None:
            break
    q = QName(BASE + key.split(":")[0], "p", key.split(":")[1]) if asq else key
    for _ in range(2):
        got = outcome(s.get, q, langs if one is None else one)
        assert got == ("ok", want) if want is not None else got[0] == "raise"


SHIPPED = {}


@law("C14", bounded=True)
def shipped_translations(i: Literal[tuple(range(400))], lang: Literal["en-US", "de-DE", "de-CH", "fr-FR", "fr-CH", "es-ES", "ja-JP"]):
    import brel.config
    if not SHIPPED:
        with open(os.path.join(os.path.dirname(brel.config.__file__), "translations.csv"), encoding="utf-8-sig") as f:
            SHIPPED["rows"] = list(csv.reader(f))[1:]
        SHIPPED["s"] = TranslationService()
        SHIPPED["s"].load_from_csv()
    r = SHIPPED["rows"][i * 37 % len(SHIPPED["rows"])]
    mine = [x[4] for x in SHIPPED["rows"] if x[0] == r[0] and x[1] == r[1] and (x[2] + "-" + x[3]).lower() == lang.lower()]
    got = outcome(SHIPPED["s"].get, QName(r[0], "", r[1]), [lang])
    assert got == ("ok", mine[-1]) if mine else got[0] == "raise"


ENGLISH = ["en", "en-US", "en-GB", "EN", "EN-US", "EN-GB"]


@law("C14", bounded=True)
def main_label(langs: list[Literal["en", "de", "en-US", "en-GB", "EN", "EN-US", "EN-GB", "fr", "en-AU", "En"]], e: IReportElement, a: Aspect):
    labels = [BrelLabel("t%d" % i, "l", x) for i, x in enumerate(langs)]
    k = Concept(e.get_name(), None, labels, "instant", None, False, "t")
    x = Aspect("n", labels)
    want = None
    for l in ENGLISH:
        want = want or next((y for y in labels if y.get_language() == l), None)
    want = want or (labels[0] if labels else None)
    for y in (k, x):
        m = y.select_main_label()
        assert m is want if want is not None else m.get_content() == "NO_LABEL"
        assert y.get_labels() == labels
        for l in ENGLISH + ["de", "xx"]:
            assert y.has_label_with_language(l) == (l in langs)


@law("C14")
def main_label_is_english_if_any(e: IReportElement):
    m = e.select_main_label()
    labels = e.get_labels()
    if len(labels) == 0:
        assert m.get_content() == "NO_LABEL"
    else:
        assert m in labels
        if e.has_label_with_language("en"):
            assert m.get_language() == "en"


@law("C14")
def main_label_of_an_aspect(e: Aspect):
    m = e.select_main_label()
    labels = e.get_labels()
    if len(labels) == 0:
        assert m.get_content() == "NO_LABEL"
    else:
        assert m in labels
        if e.has_label_with_language("en"):
            assert m.get_language() == "en"


@law("C14")
def has_label(e: IReportElement, lang: str, role: str):
    want = False
    for l in e.get_labels():
        if l.get_language() == lang:
            want = True
    assert e.has_label_with_language(lang) == want
    other = False
    for l in e.get_labels():
        if l.get_label_role() == role:
            other = True
    assert e.has_label_with_role(role) == other


@law("C14")
def label_says_what_it_was_given(t: str, i: str, lang: str, role: str):
    l = BrelLabel(t, i, lang, role)
    assert l.get_content() == t
    assert str(l) == t
    assert l.get_language() == lang
    assert l.get_role() == role
    assert l.get_label_role() == role
    assert l.get_label() == i
