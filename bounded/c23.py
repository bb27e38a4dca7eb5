from lxml import etree
from bounded.common import *
from bounded.c07 import compare, observed
from bounded.c17 import build, flat

RULE = "random footnote links (in the instance or in linkbases, shared footnotes, fact-fact arcs, missing languages, dangling locators), and random inline footnotes, continuations and relationships"


def links(bad):
    def go(env):
        R = report(env, footnotes=1, badlinks=bad, nfacts=env.rng.choice([3, 8]), instances=[1, 1, 2])
        F = open_report(env, R)
        compare(env, R, F, ["footnote"])
        want = list(R.warned())
        for l in R.links:
            for x in l.nodes:
                if x.res is not None and getattr(x.res, "nolang", False): want.append("XML_MISSING_FOOTNOTE_LANGUAGE")
                if getattr(x, "dangling", None): want.append("XML_REFERENCED_LOCATOR_ELEMENT_NOT_FOUND")
        miss, extra = O.diff_multiset(want, codes(F.get_all_errors()))
        expect(not miss and not extra, "diagnostics", "footnote diagnostics", "missing %s surplus %s\n%s" % (miss, extra, [str(e) for e in F.get_all_errors()]))
        exp = [O.fkey(O.exp_fact(x)) for x in R.facts]
        obs = [O.fkey(O.obs_fact(x)) for x in F.get_all_facts()]
        miss, extra = O.diff_multiset(exp, obs)
        expect(not miss and not extra, "facts", "facts of a report with footnotes", "%s\n%s" % (miss[:3], extra[:3]))
    return go


def text_of(x):
    try:
        return "".join(etree.fromstring(x).itertext())
    except etree.XMLSyntaxError:
        return x


def inline(env, bad=0):
    """every relationship of an inline report becomes exactly the edges it names"""
    R, F = build(env, badfeet=bad, docs=env.rng.choice([1, 1, 2]), feet=1, chains=env.rng.choice([0, 1]), nfacts=env.rng.choice([2, 5]))
    LINK, NOTE = "http://www.xbrl.org/2003/role/link", "http://www.xbrl.org/2003/role/footnote"
    def tgt(t):
        if t.kind != "foot": return ("fact", t.id)
        return ("footnote", flat(t) + "".join(flat(c) for c in t.chain), t.lang or t.doclang, t.role or NOTE, t.title)
    def obs_tgt(n):
        if n.points_to() == "fact": return ("fact", n.get_fact().get_id())
        x = n.get_resource()
        return ("footnote", text_of(x.get_content()), x.get_language(), x.get_role(), x.get_title())
    exp = []
    for x in R.rels:
        for f in x.fr:
            for t in x.to:
                exp.append(("fact", f.id, tgt(t), x.role or LINK, x.arc or "http://www.xbrl.org/2003/arcrole/fact-footnote", float(x.order or 1)))
    obs, groups = [], {}
    for n in observed(F, "footnote", False):
        def walk(a):
            for b in a.get_children():
                obs.append(obs_tgt(a)[:2] + (obs_tgt(b), n.get_link_role(), b.get_arc_role(), float(b.get_order())))
                walk(b)
        for a in n.get_roots(): walk(a)
        for a in n.get_roots():
            expect(a.get_link_role() == n.get_link_role(), "role", "a node in a network of another role", (a.get_link_role(), n.get_link_role()))
    miss, extra = O.diff_multiset(sorted(set(map(repr, exp))), sorted(set(map(repr, obs))))
    expect(not miss and not extra, "inline", "the footnote relationships of an inline report", "missing %s\nsurplus %s" % (miss[:4], extra[:4]))
    errs = F.get_all_errors()
    miss, extra = O.diff_multiset([c for c, _ in R.diags], codes(errs))
    expect(not miss and not extra, "spurious" if not R.diags else "diagnosed", "diagnostics of inline footnotes", "missing %s surplus %s\n%s" % (miss[:4], extra[:4], [str(e) for e in errs[:4]]))


CASES = dict(good=links(0), bad=links(1), inline=inline, inline_bad=lambda env: inline(env, 1))
