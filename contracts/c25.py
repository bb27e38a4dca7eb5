"""C25 - exported dictionaries and rows mirror the objects."""
import os, csv
from typing import Literal, Optional
from contracts.dsl import law, outcome, assume
from brel import QName, Context, Fact
from brel.brel_component import Component
from brel.resource import BrelLabel, BrelReference
from brel.characteristics import (Aspect, ICharacteristic, ConceptCharacteristic, UnitCharacteristic, ExplicitDimensionCharacteristic)
from brel.reportelements import IReportElement, Concept, Abstract, LineItems, Hypercube, Dimension, Member
from brel.networks import (INetwork, INetworkNode, CalculationNetworkNode, PresentationNetworkNode, DefinitionNetworkNode, LabelNetworkNode, FootnoteNetworkNode)
from brel.services.translation.translation_service import TranslationService


# ------------------------------------------------------------------ plain dictionaries
@law("C25")
def label_dictionary(l: BrelLabel):
    assert l.convert_to_dict() == {"text": l.get_content(), "language": l.get_language(), "label_role": l.get_role()}


@law("C25")
def reference_dictionary(content: dict[str, str], label: str, role: str):
    r = BrelReference(content, label, role)
    assert r.convert_to_dict() == {"role": role, "label": label, "content": content}


@law("C25")
def component_dictionary(c: Component):
    assert c.convert_to_dict() == {"network-identifier": c.get_URI(), "info": c.get_info(), "presentation-network": c.get_presentation_network() is not None,
                                   "calculation-network": c.get_calculation_network() is not None, "definition-network": c.get_definition_network() is not None}


@law("C25")
def concept_dictionary(e: Concept):
    assert e.convert_to_dict() == {"name": e.get_name().prefix_local_name_notation(), "label": str(e.select_main_label()), "report-element-type": "concept",
                                   "period-type": e.get_period_type(), "balance-type": e.get_balance_type(), "nillable": e.is_nillable(), "data-type": e.get_data_type()}


@law("C25")
def dimension_dictionary(e: Dimension):
    assert e.convert_to_dict() == {"name": e.get_name().prefix_local_name_notation(), "label": str(e.select_main_label()), "report-element-type": "dimension",
                                   "is-explicit": e.is_explicit(), "dimension_type": None if e.is_explicit() else e.get_type().prefix_local_name_notation()}


@law("C25")
def other_elements_dictionary(a: Abstract, l: LineItems, h: Hypercube, m: Member):
    assert a.convert_to_dict() == {"name": a.get_name().prefix_local_name_notation(), "label": str(a.select_main_label()), "report-element-type": "abstract"}
    assert l.convert_to_dict() == {"name": l.get_name().prefix_local_name_notation(), "label": str(l.select_main_label()), "report-element-type": "line item"}
    assert h.convert_to_dict() == {"name": h.get_name().prefix_local_name_notation(), "label": str(h.select_main_label()), "report-element-type": "hypercube"}
    assert m.convert_to_dict() == {"name": m.get_name().prefix_local_name_notation(), "label": str(m.select_main_label()), "report-element-type": "member"}


def node_dict(n: INetworkNode) -> dict:
    return {"points_to": n.points_to(), "arc_role": n.get_arc_role(), "arc_name": n.get_arc_name().prefix_local_name_notation(), "link_role": n.get_link_role(),
            "link_name": n.get_link_name().prefix_local_name_notation(), "order": n.get_order(), "children": [node_dict(c) for c in n.get_children()]}


@law("C25")
def node_dictionary(n: INetworkNode):
    assert n.convert_to_dict() == node_dict(n)


@law("C25")
def network_dictionary(n: INetwork):
    assert n.convert_to_dict() == {"roots": [node_dict(r) for r in n.get_roots()], "link_role": n.get_link_role(), "link_name": n.get_link_name().prefix_local_name_notation(), "is_physical": n.is_physical()}


@law("C25", bounded=True)
def plain_context_and_fact(f: Fact):
    c = f.get_context()
    want = {}
    for a in c.get_aspects():
        want[a.get_name()] = str(c.get_characteristic(a).get_value())
    before = list(c.get_aspects()), [c.get_characteristic(a) for a in c.get_aspects()]
    got = c.convert_to_df_row()
    assert list(got.items()) == list(want.items())
    want["id"] = f.get_id() or ""
    want["value"] = str(f)
    for _ in range(2):
        assert list(f.convert_to_dict().items()) == list(want.items())
    assert list(f) == list(want.items())
    got["x"] = "y"
    assert (list(c.get_aspects()), [c.get_characteristic(a) for a in c.get_aspects()]) == before and c.convert_to_df_row() == {k: v for k, v in want.items() if k in [a.get_name() for a in c.get_aspects()]}


# ------------------------------------------------------------------ translated
ROWS = []


def translations():
    import brel.config
    if not ROWS:
        with open(os.path.join(os.path.dirname(brel.config.__file__), "translations.csv"), encoding="utf-8-sig") as f:
            ROWS.append({})
            for r in list(csv.reader(f))[1:]:
                ROWS[0].setdefault((r[0].rsplit("/", 1)[-1], r[1]), {})[(r[2] + "-" + r[3]).lower()] = r[4]
        s = TranslationService()
        s.load_from_csv()
        ROWS.append(s)
    return ROWS


LANGS = Literal["en-US", "de-DE", "fr-FR", "ja-JP", "xx", "de"]


def T(key, langs):
    m = translations()[0].get(tuple(key.split(":")[:2]))
    for l in langs:
        if l == "" or m is None:
            return key.split(":")[1]
        if l.lower() in m:
            return m[l.lower()]
    raise KeyError(key)


def LBL(labels, langs, default):
    for l in langs:
        if l == "":
            return default
        for x in labels:
            if x.get_language().lower() == l.lower():
                return x.get_content()
    raise ValueError


def B(b): return "boolean:" + ("true" if b else "false")


def val(v: ICharacteristic, langs):
    x = v.get_value()
    if isinstance(v, ConceptCharacteristic) or isinstance(v, ExplicitDimensionCharacteristic):
        return LBL(x.get_labels(), langs, x.get_name().get_local_name())
    if isinstance(v, UnitCharacteristic):
        return T("unit:" + x, langs)
    return str(x)


def element_pairs(e, langs):
    t = lambda k: T(k, langs)
    kind = {Concept: "concept", Abstract: "abstract", LineItems: "line-items", Hypercube: "hypercube", Dimension: "dimension", Member: "member"}[type(e)]
    out = [(t("literal:name"), e.get_name().prefix_local_name_notation()), (t("literal:label"), LBL(e.get_labels(), langs, str(e.select_main_label()))), (t("literal:report-element-type"), t("report-element:" + kind))]
    if kind == "concept":
        out += [(t("literal:period-type"), t("period-type:" + e.get_period_type())), (t("literal:balance-type"), t("balance-type:" + e.get_balance_type()) if e.get_balance_type() else t("literal:none")),
                (t("literal:nillable"), t(B(e.is_nillable()))), (t("literal:data-type"), t("data-type:" + e.get_data_type().split(":")[-1]))]
    if kind == "dimension":
        out += [(t("literal:is-explicit"), t(B(e.is_explicit()))), (t("literal:dimension-type"), t("literal:none") if e.is_explicit() else t("data-type:" + e.get_type().get_local_name()))]
    return out


def compare(f, want):
    """same entries in the same order, or both fail"""
    w = outcome(want)
    g = outcome(f)
    assert g[0] == w[0]
    if w[0] == "ok":
        assert list(g[1].items()) == list(dict(w[1]).items())


@law("C25", bounded=True)
def translated_element(e: IReportElement, ls: list[LANGS], default: bool):
    langs = ls + ([""] if default else [])
    assume(langs)
    s = translations()[1]
    n = list(e.get_labels())
    for _ in range(2):
        compare(lambda: e.convert_to_dict(langs, s), lambda: element_pairs(e, langs))
    assert e.get_labels() == n


@law("C25", bounded=True)
def translated_component(c: Component, ls: list[LANGS], default: bool):
    langs = ls + ([""] if default else [])
    assume(langs)
    t = lambda k: T(k, langs)
    compare(lambda: c.convert_to_dict(langs, translations()[1]), lambda: [
        (t("literal:network-identifier"), c.get_URI()), (t("literal:info"), c.get_info()), (t("literal:presentation-network"), t(B(c.get_presentation_network() is not None))),
        (t("literal:calculation-network"), t(B(c.get_calculation_network() is not None))), (t("literal:definition-network"), t(B(c.get_definition_network() is not None)))])


@law("C25", bounded=True)
def translated_context_and_fact(f: Fact, ls: list[LANGS], default: bool):
    langs = ls + ([""] if default else [])
    assume(langs)
    s = translations()[1]
    c = f.get_context()

    def row(): return [(LBL(a.get_labels(), langs, a.get_name()), val(c.get_characteristic(a), langs)) for a in c.get_aspects()]
    compare(lambda: c.convert_to_df_row(langs, s), row)
    compare(lambda: f.convert_to_dict(langs, s), lambda: row() + [(T("literal:id", langs), f.get_id() or T("literal:none", langs)), (T("literal:value", langs), str(f))])
    for a in c.get_aspects():
        v = c.get_characteristic(a)
        w = outcome(lambda: val(v, langs))
        g = outcome(c.get_characteristic_as_str, a, langs, s)
        assert g[0] == w[0] and (w[0] != "ok" or g[1] == w[1])


# ------------------------------------------------------------------ rows of a report
@law("C25", bounded=True)
def rows_of_a_report(es: list[IReportElement], fs: list[Fact], cs: list[Component], l: Literal["en-US", "de-DE", ""], mixed: bool):
    from brel.brel_filing import Filing
    from brel.contexts.filing_context import FilingContext
    ctx = FilingContext()
    ctx.get_translation_service = lambda: translations()[1]
    F = Filing(ctx)
    F.get_all_report_elements = lambda: es
    F.get_all_facts = lambda: fs
    F.get_all_components = lambda: cs
    kw = dict(languages=[l, ""], allow_default=True, allow_system_language=False, allow_report_language=False, match_locale=True, allow_mixed=mixed)
    langs = [l, ""] if l else [""]
    # without mixing: the first language in which everything can be expressed
    for objs, make in ((es, F.generate_report_elements_as_pandas_df), (cs, F.generate_components_as_pandas_df), (fs, F.generate_fact_table_pandas_df)):
        df = make(**kw)
        want = None
        for g in ([langs] if mixed else [[x] for x in langs]):
            try:
                want = [x.convert_to_dict(g, translations()[1]) for x in objs]
                break
            except Exception:
                pass
        assert len(df) == len(objs)
        for row, w in zip(df.to_dict("records"), want):
            assert {k: v for k, v in row.items() if k in w} == w
            assert all(v != v or v is None for k, v in row.items() if k not in w)
    rows = F.generate_labels_as_pandas_df().to_dict("records")
    want = [(x.get_content(), x.get_language(), x.get_role(), e.get_name()) for e in es for x in e.get_labels()]
    assert [(r["text"], r["language"], r["label_role"], r["report_element"]) for r in rows] == want
