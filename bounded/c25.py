from bounded.common import *

RULE = "random opened reports with labels, networks and roles; every table compared row by row with the objects"


def tables(env):
    from contracts import c25 as M
    r = env.rng
    R = report(env, networks=r.choice([0, 1]), labels=r.choice([0, 1, 1]), roles=1, nels=r.choice([6, 12]), nfacts=6)
    F = open_report(env, R)
    ls = r.sample(["en-US", "de-DE", "fr-FR", "ja-JP", "en", "de"], r.choice([0, 1, 1, 2]))
    default = r.random() < .7 or not ls
    mixed = r.random() < .6
    langs = ls + ([""] if default else [])
    kw = dict(languages=ls, allow_default=default, allow_system_language=False, allow_report_language=False, match_locale=True, allow_mixed=mixed)

    def component(c, g):
        t = lambda k: M.T(k, g)
        return [(t("literal:network-identifier"), c.get_URI()), (t("literal:info"), c.get_info()), (t("literal:presentation-network"), t(M.B(c.get_presentation_network() is not None))),
                (t("literal:calculation-network"), t(M.B(c.get_calculation_network() is not None))), (t("literal:definition-network"), t(M.B(c.get_definition_network() is not None)))]

    def fact(f, g):
        c = f.get_context()
        return [(M.LBL(a.get_labels(), g, a.get_name()), M.val(c.get_characteristic(a), g)) for a in c.get_aspects()] + [(M.T("literal:id", g), f.get_id() or M.T("literal:none", g)), (M.T("literal:value", g), str(f))]
    for name, objs, row in (("generate_report_elements_as_pandas_df", F.get_all_report_elements(), M.element_pairs), ("generate_components_as_pandas_df", F.get_all_components(), component),
                            ("generate_fact_table_pandas_df", F.get_all_facts(), fact), ("generate_core_fact_table_pandas_df", [f for f in F.get_all_facts() if f.is_core()], fact)):
        want = None
        for g in ([langs] if mixed else [[x] for x in langs]):
            try:
                want = [dict(row(x, g)) for x in objs]
                break
            except Exception:
                pass
        try: df = getattr(F, name)(**kw)
        except Exception as e:
            expect(mixed and want is None, "fails", "%s: %s" % (name, type(e).__name__), (kw, str(e)))
            continue
        if want is None:
            expect(not mixed and len(df) == 0, "untranslatable", name + " gives rows although something cannot be expressed", kw)
            continue
        expect(len(df) == len(want), "rows", name + ": number of rows", (len(df), len(want)))
        for got, w in zip(df.to_dict("records"), want):
            expect({k: v for k, v in got.items() if k in w} == w and all(v != v or v is None for k, v in got.items() if k not in w), "row", name + ": row", (kw, got, w))
    rows = F.generate_labels_as_pandas_df().to_dict("records")
    want = [(x.get_content(), x.get_language(), x.get_role(), e.get_name()) for e in F.get_all_report_elements() for x in e.get_labels()]
    expect([(x["text"], x["language"], x["label_role"], x["report_element"]) for x in rows] == want, "labels", "the table of labels differs", (rows, want))


CASES = dict(tables=tables)
