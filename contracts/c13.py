"""C13 - language and output preferences follow one documented precedence."""
from typing import Optional, Literal
from contracts.dsl import law, assume
from brel.brel_filing import Filing
from brel.config.brel_config import BrelConfig
from brel.contexts.filing_context import FilingContext
from brel.services.translation.translation_service import TranslationService

L = Literal["en", "de", "fr", "en-US", "EN", "", "ja"]


class Stub(FilingContext):
    """a report that offers the given languages"""
    def __init__(self, langs):
        super().__init__()
        self.langs = langs
        self.service = TranslationService()

    def get_translation_service(self):
        return self.service

    def get_available_filing_languages(self):
        return list(self.langs)


def listed(x):
    return [] if x is None else ([x] if isinstance(x, str) else list(x))


def dedup(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


class World:
    """the configuration of the library is restored afterwards"""
    def __init__(self, report, library, offered, system):
        self.saved = BrelConfig.output_params, BrelConfig.__dict__["get_system_language"]
        self.f = Filing(Stub(offered))
        self.report, self.library = dict(report), dict(library)
        if report:
            self.f.set_filing_output_params(**report)
        Filing.set_global_output_params(**library)
        BrelConfig.get_system_language = classmethod(lambda cls: system)

    def __enter__(self):
        return self.f

    def __exit__(self, *a):
        BrelConfig.output_params = self.saved[0]
        BrelConfig.get_system_language = self.saved[1]


def params(langs, **flags):
    d = {k: v for k, v in flags.items() if v is not None}
    if langs is not None:
        d["languages"] = langs
    return d


def expected(call, report, library, offered, system, rep, sysl, default):
    want = listed(call) + listed(report) + listed(library)
    if sysl and system:
        want.append(system)
    if rep:
        want += offered
    if default:
        want.append("")
    return dedup(want)


@law("C13", bounded=True)
def languages_follow_the_precedence(call: Optional[list[L]], one: Optional[L], report: Optional[list[L]], r1: Optional[L], library: Optional[list[L]], l1: Optional[L],
                                    offered: list[L], system: Optional[Literal["en_US", "de_CH", "en", "ja"]], rep: bool, sysl: bool, default: bool):
    assume(one != "" and r1 != "" and l1 != "")
    c, r, l = call or one, report or r1, library or l1
    rp, lp = params(r), params(l)
    with World(rp, lp, offered, system) as f:
        for _ in range(2):
            got = f.get_preferred_languages(c, rep, sysl, default)
            assert got == expected(c, r, l, offered, system, rep, sysl, default)
            got.append("x")
        # asking changes nothing
        assert rp == params(r) and lp == params(l) and BrelConfig.output_params == lp
        assert (call is None or call == listed(call)) and offered == list(offered)


NAMES = ("match_locale", "allow_mixed", "allow_default", "allow_system_language", "allow_report_language")


@law("C13", bounded=True)
def switches_follow_the_precedence(name: Literal[NAMES], call: Optional[bool], report: Optional[bool], library: Optional[bool], other: Literal[NAMES], noise: bool):
    rp, lp = params(["en"], **{name: report}), params(["de"], **{name: library})
    if other != name:
        rp[other] = noise
        lp[other] = not noise
    with World(rp, lp, [], None) as f:
        got = f.get_preferred_output_parameter(call, name)
        want = call if call is not None else report if report is not None else library if library is not None else False
        assert got is want


@law("C13", bounded=True)
def output_uses_the_preferences(call: Optional[list[L]], report: Optional[list[L]], library: Optional[list[L]], offered: list[L], system: Optional[Literal["en_US", "de_CH"]],
                                cr: Optional[bool], rr: Optional[bool], lr: Optional[bool], cs: Optional[bool], rs: Optional[bool], ls: Optional[bool],
                                cd: Optional[bool], rd: Optional[bool], ld: Optional[bool], cm: Optional[bool], cx: Optional[bool], rm: Optional[bool], lm: Optional[bool], rx: Optional[bool], lx: Optional[bool]):
    rp = params(report, allow_report_language=rr, allow_system_language=rs, allow_default=rd, match_locale=rm, allow_mixed=rx)
    lp = params(library, allow_report_language=lr, allow_system_language=ls, allow_default=ld, match_locale=lm, allow_mixed=lx)
    first = lambda *v: next((x for x in v if x is not None), False)
    mixed, locale = first(cx, rx, lx), first(cm, rm, lm)
    with World(rp, lp, offered, system) as f:
        asked, matched = [], []

        class Element:
            """stands for a component: records the languages it is printed in"""
            def convert_to_dict(self, languages=None, service=None):
                asked.append(list(languages))
                matched.append(service.languages_match("en", "en-US"))
                if languages == ["none"] or not mixed:
                    raise ValueError
                return {"k": "v"}
        f.get_all_components = lambda: [Element()]
        kw = params(call, allow_report_language=cr, allow_system_language=cs, allow_default=cd, match_locale=cm, allow_mixed=cx)
        f.generate_components_as_pandas_df(**kw)
        want = expected(call, report, library, offered, system, first(cr, rr, lr), first(cs, rs, ls), first(cd, rd, ld))
        assert asked == ([want] if mixed else [[x] for x in want])
        assert all(m == (not locale) for m in matched)
        assert BrelConfig.output_params == lp
        assert kw == params(call, allow_report_language=cr, allow_system_language=cs, allow_default=cd, match_locale=cm, allow_mixed=cx)


@law("C13", bounded=True)
def the_system_language_is_the_locale(lang: Optional[Literal["de_CH.UTF-8", "en_US.UTF-8", "fr_FR.ISO8859-1", "C", ""]], all: Optional[Literal["ja_JP.UTF-8", "C"]]):
    import os
    import warnings
    saved = {k: os.environ.pop(k) for k in ("LC_ALL", "LC_CTYPE", "LANG", "LANGUAGE") if k in os.environ}
    try:
        if lang is not None:
            os.environ["LANG"] = lang
        if all is not None:
            os.environ["LC_ALL"] = all
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = BrelConfig.get_system_language()
    finally:
        for k in ("LC_ALL", "LC_CTYPE", "LANG", "LANGUAGE"):
            os.environ.pop(k, None)
        os.environ.update(saved)
    want = all if all is not None else lang
    assert got == (None if want in (None, "C", "") else want.split(".")[0])


# ------------------------------------------------------------------ proved for all values
def first_given(call: Optional[bool], report: Optional[bool], library: Optional[bool]) -> bool:
    if call is not None:
        return call
    if report is not None:
        return report
    if library is not None:
        return library
    return False


@law("C13")
def a_switch_takes_the_first_value_given(call: Optional[bool], report: Optional[bool], library: Optional[bool], a: Optional[bool], b: Optional[bool]):
    saved = BrelConfig.output_params
    f = Filing(FilingContext())
    f.set_filing_output_params(allow_mixed=report, match_locale=a)
    Filing.set_global_output_params(allow_mixed=library, match_locale=b)
    got = f.get_preferred_output_parameter(call, "allow_mixed")
    other = f.get_preferred_output_parameter(call, "match_locale")
    unset = f.get_preferred_output_parameter(call, "allow_default")
    BrelConfig.output_params = saved
    assert got == first_given(call, report, library)
    assert other == first_given(call, a, b)
    assert unset == first_given(call, None, None)


@law("C13")
def every_switch_is_its_own(call: Optional[bool], report: Optional[bool], library: Optional[bool]):
    saved = BrelConfig.output_params
    f = Filing(FilingContext())
    f.set_filing_output_params(allow_default=report)
    Filing.set_global_output_params(allow_default=library)
    d = f.get_preferred_output_parameter(call, "allow_default")
    m = f.get_preferred_output_parameter(call, "allow_mixed")
    f.set_filing_output_params(allow_system_language=report)
    Filing.set_global_output_params(allow_system_language=library)
    s = f.get_preferred_output_parameter(call, "allow_system_language")
    r = f.get_preferred_output_parameter(call, "allow_report_language")
    BrelConfig.output_params = saved
    assert d == first_given(call, report, library)
    assert s == first_given(call, report, library)
    assert m == first_given(call, None, None)
    assert r == first_given(call, None, None)


@law("C13")
def languages_in_order_without_repetition(call: list[str], report: list[str], library: list[str], default: bool):
    saved = BrelConfig.output_params
    f = Filing(FilingContext())
    f.set_filing_output_params(languages=report)
    Filing.set_global_output_params(languages=library)
    got = f.get_preferred_languages(call, False, False, default)
    BrelConfig.output_params = saved
    want = []
    seen = set()
    for x in call + report + library + ([""] if default else []):
        if x not in seen:
            seen.add(x)
            want.append(x)
    assert got == want


@law("C13")
def one_language_is_a_list_of_one(call: str, report: str, library: str):
    saved = BrelConfig.output_params
    f = Filing(FilingContext())
    assume(call != report and call != library and report != library)
    assume(call != "" and report != "" and library != "")
    f.set_filing_output_params(languages=report)
    Filing.set_global_output_params(languages=library)
    got = f.get_preferred_languages(call, False, False, False)
    none = f.get_preferred_languages(None, False, False, True)
    BrelConfig.output_params = saved
    assert got == [call, report, library]
    assert none == [report, library, ""]


class Offers(FilingContext):
    def __init__(self, langs: list[str]) -> None:
        super().__init__()
        self.langs: list[str] = langs

    def get_available_filing_languages(self) -> list[str]:
        return self.langs


@law("C13")
def the_whole_precedence(call: list[str], report: list[str], library: list[str], offered: list[str], rep: bool, sysl: bool, default: bool):
    saved = BrelConfig.output_params
    f = Filing(Offers(offered))
    f.set_filing_output_params(languages=report)
    Filing.set_global_output_params(languages=library)
    system = BrelConfig.get_system_language()
    got = f.get_preferred_languages(call, rep, sysl, default)
    BrelConfig.output_params = saved
    want = []
    seen = set()
    for x in call + report + library + ([system] if sysl and system else []) + (offered if rep else []) + ([""] if default else []):
        if x not in seen:
            seen.add(x)
            want.append(x)
    assert got == want
