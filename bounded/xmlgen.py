"""Random reports in the XML syntax, with an independent record of what they say.

A report is first generated as plain data (elements, contexts, units, facts, links, roles); the documents are written
from that data and everything expected of the reader is computed from the data, never from the documents."""
import os, random
from xml.sax.saxutils import escape, quoteattr

XBRLI = "http://www.xbrl.org/2003/instance"
LINK = "http://www.xbrl.org/2003/linkbase"
XLINK = "http://www.w3.org/1999/xlink"
XBRLDT = "http://xbrl.org/2005/xbrldt"
XBRLDI = "http://xbrl.org/2006/xbrldi"
XS = "http://www.w3.org/2001/XMLSchema"
NONNUM = "http://www.xbrl.org/dtr/type/non-numeric"
STDROLE = "http://www.xbrl.org/2003/role/link"
LABELROLES = ["http://www.xbrl.org/2003/role/label", "http://www.xbrl.org/2003/role/terseLabel", "http://www.xbrl.org/2003/role/verboseLabel",
              "http://www.xbrl.org/2003/role/totalLabel", "http://www.xbrl.org/2003/role/documentation", "http://acme.com/role/own"]
ARC = {"presentation": ["http://www.xbrl.org/2003/arcrole/parent-child"], "calculation": ["http://www.xbrl.org/2003/arcrole/summation-item"],
       "definition": ["http://xbrl.org/int/dim/arcrole/domain-member", "http://xbrl.org/int/dim/arcrole/dimension-domain", "http://xbrl.org/int/dim/arcrole/hypercube-dimension", "http://xbrl.org/int/dim/arcrole/all", "http://acme.com/arcrole/domain-member"],
       "label": ["http://www.xbrl.org/2003/arcrole/concept-label"], "reference": ["http://www.xbrl.org/2003/arcrole/concept-reference"],
       "footnote": ["http://www.xbrl.org/2003/arcrole/fact-footnote", "http://acme.com/arcrole/fact-fact"]}


class El:
    """a declaration: kind is what it must become (None: not a report element)"""
    def __init__(s, ns, name): s.ns, s.name, s.id, s.attrs, s.kind, s.bad, s.labels, s.typed = ns, name, None, {}, None, None, [], None
    @property
    def clark(s): return "{%s}%s" % (s.ns, s.name)


class Obj:
    def __init__(s, **k): s.__dict__.update(k)


class Doc:
    """text of one document; prefixes differ from document to document"""
    def __init__(s, rng, path, fixed, want):
        s.r, s.path, s.out, s.refs = rng, path, [], []
        s.fixed = dict(fixed)
        s.p = dict(fixed)
        alt = {XBRLI: ["xbrli", "i", "xi"], LINK: ["link", "l", "lb"], XLINK: ["xlink", "xlink", "xl"], XBRLDT: ["xbrldt", "xdt"], XBRLDI: ["xbrldi", "di"], XS: ["xs", "xsd"], NONNUM: ["nonnum", "dtr"]}
        for ns in want:
            s.p[ns] = rng.choice(alt[ns]) if rng.random() < .5 else alt[ns][0]
        s.default = None

    def q(s, ns, local, attr=False):
        if s.default == ns and not attr:
            return local
        return s.p[ns] + ":" + local

    def decls(s):
        d = [' xmlns:%s="%s"' % (p, ns) for ns, p in s.p.items()]
        if s.default:
            d.append(' xmlns="%s"' % s.default)
        s.r.shuffle(d)
        return "".join(d)

    def noise(s):
        x = s.r.random()
        if x < .55: return "\n"
        if x < .8: return "\n  "
        if x < .9: return "<!-- a comment -->"
        if x < .95: return "<?pi data?>"
        return ""

    def tag(s, name, attrs, content=None):
        a = list(attrs.items())
        s.r.shuffle(a)
        t = "<" + name + "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in a if v is not None)
        return t + ("/>" if content is None else ">" + content + "</" + name + ">")

    def text(s, v):
        x = s.r.random()
        if v and x < .1 and "]]>" not in v: return "<![CDATA[" + v + "]]>"
        if v and x < .18:
            k = s.r.randint(0, len(v))
            return escape(v[:k]) + s.r.choice(["<!-- c -->", "<?x y?>"]) + escape(v[k:])
        return escape(v)


class Report:
    def __init__(s, rng, **f):
        s.r = rng
        s.f = dict(networks=.0, footnotes=0, labels=0, malformed=0, instances=1, kinds=None, nels=10, nfacts=8, merge=False, roles=0, defs="plain", badlinks=0, baddecl=0, calcvals=False, usedon=0)
        s.f.update(f)
        s.bad = []        # malformed things: (expected code, ...)
        s.gen_taxonomy()
        s.gen_instances()
        s.gen_links()
        s.gen_roles()

    # ------------------------------------------------------------------ taxonomy
    def gen_taxonomy(s):
        r = s.r
        s.nss = []
        pre = r.choice([["a", "bb", "c-c"], ["a", "A", "aa"], ["t", "t1", "t10"], ["x_y", "x", "y"]])
        n = r.choice([1, 1, 2, 3])
        for i in range(n):
            s.nss.append(Obj(uri=r.choice(["http://t%d.com/a", "urn:x:%d", "http://t%d.com/a/2020#v"]) % i, prefix=pre[i], path=["tax/t0.xsd", "tax/sub/t1.xsd", "t2.xsd"][i]))
            if i and r.random() < .35:           # namespaces that are almost the same
                u = s.nss[0].uri
                u = r.choice([u + "/", u + "x", u.upper(), u[:-1] + u[-1].swapcase(), u + "0"])
                if not any(u == x.uri for x in s.nss): s.nss[-1].uri = u
        if n > 1 and r.random() < .3:
            s.nss[1].path = "other/t0.xsd"      # same file name in another folder
        s.els = []
        names = {}
        for k in range(s.f["nels"]):
            ns = r.choice(s.nss)
            e = El(ns.uri, "E%d" % k)
            if r.random() < .15 and s.els:       # same local name in different namespaces
                o = r.choice(s.els)
                if o.ns != ns.uri and not any(x.ns == ns.uri and x.name == o.name for x in s.els):
                    e.name = o.name
            elif r.random() < .12 and s.els:     # names that are almost the same
                nm = r.choice(s.els).name
                nm = r.choice([nm.swapcase(), nm + "_", nm + "." + nm, nm + "-1"])
                if not any(x.name == nm for x in s.els): e.name = nm
            e.id = "%s_%s_%d" % (ns.prefix, e.name, k)
            if k < 3: kind = "concept"
            elif k == 3: kind = "dimension"
            elif k == 4: kind = "member"
            elif s.f["baddecl"] and r.random() < .25: kind = "bad"
            else: kind = r.choice(["concept", "concept", "concept", "concept", "abstract", "lineitems", "hypercube", "dimension", "dimension", "member", "member", "none"])
            e.kind = kind
            s.els.append(e)
        for e in s.els:
            s.declare(e)
        # one identifier in two schemas (nothing refers to them)
        if not s.f["networks"] and not s.f["labels"] and not s.f["footnotes"] and r.random() < .3:
            x, y = r.choice(s.els), r.choice(s.els)
            if x.ns != y.ns and not x.typed and not y.typed: x.id = y.id
        s.badels = [e for e in s.els if e.bad]
        s.concepts = [e for e in s.els if e.kind == "concept"]
        s.dims = [e for e in s.els if e.kind == "dimension"]
        s.members = [e for e in s.els if e.kind == "member"]

    def declare(s, e):
        r = s.r
        e.abstract = r.choice([None, "false"])
        e.subst = (XBRLI, "item")
        e.type = (XBRLI, r.choice(["monetaryItemType", "stringItemType", "integerItemType", "booleanItemType", "decimalItemType", "sharesItemType", "dateItemType"]))
        e.period = r.choice(["instant", "duration"])
        e.balance = r.choice([None, "credit", "debit"]) if e.type[1] == "monetaryItemType" else None
        e.nillable = r.choice([None, "true", "false", "true"])
        if r.random() < .1:
            e.nillable = r.choice(["1", "0"])
        true = r.choice(["true", "true", "true", "1"])
        k = e.kind
        if k == "bad":
            e.bad = r.choice(["period", "period0", "balance", "nillable", "type"])
            e.kind = k = "none"
            if e.bad == "period": e.period = r.choice(["forever", "Instant", ""])
            if e.bad == "period0": e.period = None
            if e.bad == "balance": e.balance = r.choice(["Credit", "both", ""])
            if e.bad == "nillable": e.nillable = r.choice(["yes", "TRUE", ""])
            if e.bad == "type": e.type = None
            return
        if k == "concept":
            if r.random() < .15: e.name = e.name + "LineItems"
            if r.random() < .1: e.abstract = "0"
        elif k == "abstract": e.abstract = true; e.type = (XBRLI, "stringItemType")
        elif k == "lineitems": e.abstract = true; e.name = e.name + r.choice(["LineItems", "LineItemsX"]); e.type = (XBRLI, "stringItemType")
        if k in ("hypercube", "dimension", "member", "none") and r.random() < .12: e.name += r.choice(["LineItems", "Abstract", "Axis", "Member", "Table"])
        if k == "abstract" and r.random() < .2: e.name += r.choice(["Lineitems", "LineItem", "lineItems", "Axis", "Table", "Member"])
        if k == "hypercube": e.abstract = true; e.subst = (XBRLDT, "hypercubeItem"); e.type = (XBRLI, "stringItemType")
        elif k == "dimension":
            e.abstract = true; e.subst = (XBRLDT, "dimensionItem"); e.type = (XBRLI, "stringItemType")
            if r.random() < .45:
                dom = r.choice(s.nss)
                e.typed = Obj(ns=dom, name="dom%s%d" % (e.name, r.randint(0, 9)), tns=XS, tname=r.choice(["string", "integer", "date"]), form=r.choice(["type", "type", "anon"]))
        elif k == "member": e.abstract = r.choice([true, true, None]); e.type = (NONNUM, "domainItemType"); e.balance = None
        elif k == "none":
            x = r.random()
            if x < .5: e.subst = None; e.type = (XS, "string"); e.abstract = None
            else: e.subst = (XBRLI, "tuple"); e.abstract = None; e.type = None
        if k == "none" or (e.nillable and k != "concept" and r.random() < .5):
            e.nillable = None
        if k == "none":
            e.period = e.balance = None
        if k in ("abstract", "lineitems") and r.random() < .2: e.balance = None
        if r.random() < .08 and k not in ("none",) and not s.f["networks"] and not s.f["labels"] and not s.f["footnotes"]:
            e.id = None

    # ------------------------------------------------------------------ instances
    WORDS = ["100", "-5", "0", "3.14", "1e3", "true", "false", "TRUE", "abc", "a b", " padded ", "x < y & z", "multi\nline", "\u00e4\u4e2d", "12345678901234567890", "00012", "+7", "2020-01-01", "<b>html</b>", "1,000", ".5", "None", "100.00"]

    def mkctx(s, i, used):
        r = s.r
        c = Obj(id=r.choice(["c%d", "c%d", "C%d", "ctx-%d", "FY_%d", "c.%d", "c%d0"]) % r.choice([i, i, i // 2 if i < 900 else i]), bad=None)
        d = lambda: "%04d-%02d-%02d" % (r.choice([1999, 2019, 2020]), r.choice([1, 2, 12]), r.choice([1, 2, 28]))
        if r.random() < .5: c.period = ("i", d())
        else: c.period = ("d",) + tuple(sorted([d(), d()]))
        c.entity = (r.choice(["e1", "E1", "e2", "0000320193", "320193", "e 1"]), r.choice(["http://www.sec.gov/CIK", "http://www.sec.gov/CIK/", "http://www.sec.gov/cik", "https://www.sec.gov/CIK", "http://standards.iso.org/iso/17442"]))
        c.dims = []
        for dm in r.sample(s.dims, min(len(s.dims), r.choice([0, 0, 1, 1, 2, 3, 4]))):
            if dm.typed: c.dims.append((dm, "t", r.choice(["v1", "V1", "v11", "v2", "7", "07", "7.0", "some text", "some  text", "\u00e9", "E1", "e"])))
            elif s.members: c.dims.append((dm, "e", r.choice(s.members)))
        return c

    UNITNS = [("http://www.xbrl.org/2003/iso4217", "iso4217"), (XBRLI, None), ("http://acme.com/units", "au")]

    def mkunit(s, i):
        r = s.r
        m = lambda: r.choice([("http://www.xbrl.org/2003/iso4217", "USD"), ("http://www.xbrl.org/2003/iso4217", "EUR"), (XBRLI, "shares"), (XBRLI, "pure"), ("http://acme.com/units", "USD"), ("http://acme.com/units", "usd"), ("http://acme.com/units", "kWh")])
        u = Obj(id=r.choice(["u%d", "u%d", "U%d", "USD%d", "usd-per_%d"]) % r.choice([i, i, i // 2 if i < 900 else i]), bad=None, num=[m()], den=[])
        if r.random() < .4:
            u.num = [m() for _ in range(r.choice([1, 1, 2]))]
            u.den = [m() for _ in range(r.choice([1, 1, 2]))]
        return u

    def gen_instances(s):
        r = s.r
        s.insts = []
        fid = 0
        fids = set()
        for k in range(s.f["instances"] if isinstance(s.f["instances"], int) else r.choice(s.f["instances"])):
            inst = Obj(path=["inst.xml", "sub/inst2.xml", "i3.xml"][k], ctxs=[], units=[], facts=[])
            for i in range(r.choice([1, 2, 3, 5])):
                inst.ctxs.append(s.mkctx(i, inst))
            for i in range(r.choice([1, 2, 3])):
                inst.units.append(s.mkunit(i))
            for c, l in ((inst.ctxs, 1), (inst.units, 1)):
                seen = set()
                for x in list(c):
                    if x.id in seen: c.remove(x)
                    seen.add(x.id)
            for i in range(r.choice([0, 1, 3, s.f["nfacts"], s.f["nfacts"], s.f["nfacts"]])):
                fid += 1
                f = Obj(inst=inst, el=r.choice(s.concepts), ctx=r.choice(inst.ctxs), unit=None, id=None, value=r.choice(s.WORDS), dec=None, prec=None, bad=None, nil=False, attrs={})
                if r.random() < .6: f.unit = r.choice(inst.units)
                if r.random() < .65 or s.f["footnotes"]: 
                    f.id = r.choice(["f%d", "f%d", "F%d", "id-%d", "F.%d", "x_%d"]) % r.choice([fid, fid, fid // 2])
                    if f.id in fids: f.id = "y%d" % fid
                    fids.add(f.id)
                if r.random() < .5: f.dec = r.choice([("2", 2.0), ("-3", -3.0), ("INF", float("inf")), ("0", 0.0)])
                elif r.random() < .3: f.prec = r.choice([("4", 4.0), ("INF", float("inf")), ("1", 1.0)])
                if r.random() < .07: f.value = ""
                if r.random() < .05 and f.el.nillable in ("true", "1"): f.value, f.nil = "", True
                inst.facts.append(f)
            s.insts.append(inst)
        s.fid = fid
        if s.f["malformed"]:
            s.gen_malformed()
        s.facts = [f for i in s.insts for f in i.facts]

    MAL = ["ctx_noperiod", "ctx_noentity", "ent_noid", "ent_novalue", "ent_noscheme", "per_baddate", "per_baddate2", "per_noend", "per_nostart", "per_order", "dim_unknown", "dim_nomember", "dim_badmember", "dim_other",
           "typ_unknown", "typ_nochild", "typ_empty", "unit_two", "unit_nochild", "unit_nomeasure", "unit_divide1", "unit_emptynum", "unit_other", "fact_ctx", "fact_unit", "fact_concept", "fact_decimals", "fact_precision", "fact_novalue", "fact_ctxq", "ctx_dup_dim", "dim_notdim"]

    def gen_malformed(s):
        r = s.r
        for m in r.sample(s.MAL, r.choice([1, 2, 3, 5])):
            inst = r.choice(s.insts)
            s.fid += 1
            c, u = s.mkctx(900 + s.fid, inst), s.mkunit(900 + s.fid)
            f = Obj(inst=inst, el=r.choice(s.concepts), ctx=c, unit=None, id="bad%d" % s.fid, value="1", dec=None, prec=None, bad=m, nil=False, attrs={})
            if m.startswith(("ctx", "ent", "per", "dim", "typ")):
                c.bad = m
                inst.ctxs.insert(r.randint(0, len(inst.ctxs)), c)
            elif m.startswith("unit"):
                f.ctx = r.choice(inst.ctxs) if any(not x.bad for x in inst.ctxs) else c
                f.ctx = next((x for x in inst.ctxs if not x.bad), c)
                u.bad = m
                f.unit = u
                inst.units.insert(r.randint(0, len(inst.units)), u)
            else:
                f.ctx = next(x for x in inst.ctxs if not x.bad)
            if m == "fact_novalue":
                non = [e for e in s.concepts if e.nillable in (None, "false", "0")]
                if not non: continue
                f.el, f.value = r.choice(non), ""
            if m == "ctx_dup_dim":
                ex = [d for d in s.dims if not d.typed]
                if not ex or not s.members: inst.ctxs.remove(c); continue
                d = r.choice(ex)
                c.dims = [(d, "e", r.choice(s.members)), (d, "e", r.choice(s.members))]
            if m == "dim_badmember" or m == "dim_nomember":
                ex = [d for d in s.dims if not d.typed]
                if not ex: inst.ctxs.remove(c); continue
                c.dims = [(r.choice(ex), "e", None)]
            if m in ("typ_nochild", "typ_empty"):
                ex = [d for d in s.dims if d.typed]
                if not ex: inst.ctxs.remove(c); continue
                c.dims = [(r.choice(ex), "t", "v")]
            inst.facts.insert(r.randint(0, len(inst.facts)), f)
            s.bad.append(f)

    def warned(s):
        """diagnostics about facts without content whose concept is not nillable"""
        return ["MISSING_FACT_VALUE" for f in s.facts if not f.bad and f.value == "" and f.el.nillable not in ("true", "1")]

    # what must be said about it (any one of the codes)
    CODES = dict(ctx_noperiod=["MISSING_CONTEXT_PERIOD"], ctx_noentity=["MISSING_CONTEXT_ENTITY"], ent_novalue=["ENTITY_IDENTIFIER_MISSING_VALUE"], ent_noid=["ENTITY_MISSING_IDENTIFIER_ELEMENT"], ent_noscheme=["ENTITY_IDENTIFIER_MISSING_SCHEME"],
                 per_baddate=["INVALID_CONTEXT_PERIOD_DATE"], per_baddate2=["INVALID_CONTEXT_PERIOD_DATE"], per_noend=["DURATION_PERIOD_MISSING_END_DATE"], per_nostart=["DURATION_PERIOD_MISSING_START_DATE"], per_order=["DURATION_PERIOD_START_AFTER_END"],
                 dim_unknown=["INVALID_EXPLICIT_DIMENSION_VALUE"], dim_notdim=["INVALID_EXPLICIT_DIMENSION_VALUE"], dim_nomember=["MISSING_EXPLICIT_DIMENSION_MEMBER"], dim_badmember=["INVALID_EXPLICIT_DIMENSION_MEMBER"], dim_other=["INVALID_DIMENSION_TYPE"],
                 typ_unknown=["INVALID_TYPED_DIMENSION_VALUE"], typ_nochild=["NO_TYPED_DIMENSION_ELEMENT_CHILDREN"], typ_empty=["MISSING_TYPED_DIMENSION_VALUE"],
                 unit_two=["XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD"], unit_nochild=["XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD"], unit_nomeasure=["XML_MISSING_UNIT_MEASURE"], unit_divide1=["XML_DIVIDE_ELEMENT_WITHOUT_TWO_CHILDREN"],
                 unit_emptynum=["XML_MISSING_UNIT_MEASURE"], unit_other=["XML_INVALID_UNIT_ELEMENT_CHILDREN"], fact_ctx=["XML_INVALID_FACT_CONTEXT_ID"], fact_ctxq=["XML_INVALID_FACT_CONTEXT_ID"], fact_unit=["XML_INVALID_FACT_UNIT_ID"], fact_concept=["XML_FACT_INVALID_CONCEPT"],
                 fact_decimals=["INVALID_DECIMALS_ATTRIBUTE_VALUE"], fact_precision=["INVALID_PRECISION_ATTRIBUTE_VALUE"], fact_novalue=["MISSING_FACT_VALUE"], ctx_dup_dim=[])

    # ------------------------------------------------------------------ links
    def gen_links(s):
        r = s.r
        s.links = []
        if not (s.f["networks"] or s.f["labels"] or s.f["footnotes"]):
            return
        kinds = []
        if s.f["networks"]: kinds += s.f["kinds"] or ["presentation", "calculation", "definition", "label", "reference"]
        nroles = r.choice([1, 2, 3])
        roles = s.roleuris()[:nroles] + [STDROLE]
        k = 0
        used = set()
        for kind in kinds:
            for _ in range(r.choice([0, 1, 1, 2])):
                role = r.choice(roles)
                if kind in ("presentation", "calculation", "definition"):
                    if (kind, role) in used: continue
                    used.add((kind, role))
                    if s.f["merge"] and r.random() < .7:
                        s.links += s.merged(kind, role)
                    else:
                        l = s.tree(kind, role, logical=True)
                        if l: s.links.append(l)
                elif kind == "label": s.links.append(s.resources("label", role))
                elif kind == "reference": s.links.append(s.resources("reference", role))
        if s.f["labels"] and not any(l.kind == "label" for l in s.links):
            s.links.append(s.resources("label", STDROLE))
        if s.f["footnotes"]:
            for _ in range(r.choice([1, 1, 2])):
                l = s.footlink(r.choice(roles))
                if l: s.links.append(l)
        r.shuffle(s.links)
        for e in s.els: e.labels = []
        for l in s.links:
            if l.kind == "label":
                for a in l.arcs:
                    for x in l.nodes:
                        if x.label == a.frm:
                            for y in l.nodes:
                                if y.label == a.to and x.el and y.res: x.el.labels.append(y.res)

    ORDERS = ["1", "2", "10", "1.5", "0", "3", "-1", "0.25", "007", "1e1", "1.0001", "20", "100", "-10", "9"]
    WEIGHTS = ["1", "-1", "1.0", "0.5", "2", "0.333333", "0.001", "-0.25", "1e-3", "0"]

    def reals(s): return [e for e in s.els if e.kind != "none" and e.id]

    def tree(s, kind, role, logical):
        r = s.r
        pool = [e for e in (s.concepts if kind == "calculation" else s.reals()) if e.id]
        if not pool: return None
        l = Obj(kind=kind, role=role, nodes=[], arcs=[], name=kind + "Link", arcname=kind + "Arc")
        n = r.choice([1, 2, 3, 4, 6, 9])
        for i in range(n):
            # occasionally two locators for one element
            l.nodes.append(Obj(label=r.choice(["loc_%d", "n%d", "%d_x"]) % i if r.random() < .7 else "loc_%d" % i, el=r.choice(pool), res=None))
        labs = set()
        for x in l.nodes:
            while x.label in labs: x.label += "z"
            labs.add(x.label)
        if n > 2 and r.random() < .2:            # several locators under one label
            for i in range(2, n):
                if r.random() < .4 and l.nodes[i].el is not l.nodes[i - 1].el and not any(x.label == l.nodes[i - 1].label and x.el is l.nodes[i].el for x in l.nodes): l.nodes[i].label = l.nodes[i - 1].label
        for i in range(1, n):
            if r.random() < .8 and (i == 0 or l.nodes[i].label != l.nodes[i - 1].label) and not l.nodes[i].label == l.nodes[0].label:
                o = r.choice(s.ORDERS)
                arcrole = r.choice(ARC[kind]) if kind == "definition" else ARC[kind][0]
                w = r.choice(s.WEIGHTS) if kind == "calculation" else None
                pl = r.choice(LABELROLES) if kind == "presentation" and r.random() < .5 else None
                if r.random() < .1: o = None
                l.arcs.append(Obj(frm=l.nodes[r.randrange(i)].label, to=l.nodes[i].label, arcrole=arcrole, order=o, weight=w, pref=pl))
        # a node with a second parent (same arc attributes, see DESIGN.md)
        if l.arcs and r.random() < .2:
            a = r.choice(l.arcs)
            i = next(k for k, x in enumerate(l.nodes) if x.label == a.to)
            c = [x.label for x in l.nodes[:i] if x.label != a.frm]
            if c: l.arcs.append(Obj(**dict(a.__dict__, frm=r.choice(c))))
        r.shuffle(l.arcs)
        l.nodeorder = l.nodes[:]
        r.shuffle(l.nodeorder)
        return l

    def merged(s, kind, role):
        """several links of one role: a forest over distinct elements, its edges spread over the links"""
        r = s.r
        pool = [e for e in (s.concepts if kind == "calculation" else s.reals()) if e.id]
        r.shuffle(pool)
        pool = pool[:r.choice([3, 4, 6, 8])]
        edges = []
        for i in range(1, len(pool)):
            if r.random() < .8:
                edges.append((pool[r.randrange(i)], pool[i]))
        if not edges: return []
        nl = r.choice([2, 2, 3])
        parts = [[] for _ in range(nl)]
        for e in edges: r.choice(parts).append(e)
        again = r.random() < .25                 # the same relationship in several links
        if again:
            for e in r.sample(edges, r.choice([1, min(2, len(edges))])):
                for p in parts:
                    if e not in p and r.random() < .6: p.append(e)
        same = {}
        out = []
        for p in parts:
            if not p: continue
            l = Obj(kind=kind, role=role, nodes=[], arcs=[], name=kind + "Link", arcname=kind + "Arc", merged=True)
            es = []
            for a, b in p:
                for x in (a, b):
                    if x not in es: es.append(x)
            for i, x in enumerate(es): l.nodes.append(Obj(label="L%d" % i, el=x, res=None))
            lab = {id(n.el): n.label for n in l.nodes}
            arcrole = ARC[kind][0]
            for a, b in p:
                at = dict(arcrole=arcrole if kind != "definition" else r.choice(ARC[kind]), order=r.choice(s.ORDERS), weight=r.choice(s.WEIGHTS) if kind == "calculation" else None, pref=None)
                at = same.setdefault((id(a), id(b)), at)
                l.arcs.append(Obj(frm=lab[id(a)], to=lab[id(b)], **at))
                l.again = again
            l.nodeorder = l.nodes[:]
            r.shuffle(l.nodeorder); r.shuffle(l.arcs)
            out.append(l)
        return out

    TEXTS = ["Revenue", "Gewinn & Verlust", " spaced ", "", "x<y", "\u6587\u5b57", "Total"]

    def resources(s, kind, role):
        r = s.r
        l = Obj(kind=kind, role=role, nodes=[], arcs=[], name=kind + "Link", arcname=kind + "Arc")
        pool = s.reals()
        for i, e in enumerate(r.sample(pool, min(len(pool), r.choice([1, 2, 4, 6])))):
            l.nodes.append(Obj(label="loc%d" % i, el=e, res=None))
            group = "res%d" % i
            n = r.choice([0, 1, 1, 2, 3])
            for j in range(n):
                lab = group if r.random() < .6 else group + "_%d" % j
                if kind == "label":
                    res = Obj(kind="label", text=r.choice(s.TEXTS), lang=r.choice(["en", "de", "fr", "en-US"]), role=r.choice(LABELROLES), norole=r.random() < .15, nolang=False, inner=r.random() < .15)
                    if res.norole: res.role = LABELROLES[0]
                    if s.f["badlinks"] and r.random() < .1: res.nolang = True
                else:
                    res = Obj(kind="reference", parts={k: r.choice(["IFRS", "7", "a b"]) for k in r.sample(["Name", "Number", "Paragraph", "Section"], r.choice([0, 1, 2, 3]))}, role=r.choice(["http://www.xbrl.org/2003/role/reference", "http://www.xbrl.org/2003/role/disclosureRef"]), norole=r.random() < .15)
                    if res.norole: res.role = "http://www.xbrl.org/2003/role/reference"
                l.nodes.append(Obj(label=lab, el=None, res=res))
                if not any(a.frm == "loc%d" % i and a.to == lab for a in l.arcs) and (r.random() < .95):
                    o = r.choice([None, "1"]) if kind == "label" else r.choice(s.ORDERS)
                    l.arcs.append(Obj(frm="loc%d" % i, to=lab, arcrole=ARC[kind][0], order=o, weight=None, pref=None))
        for x in l.nodes:
            if x.res is not None and getattr(x.res, "nolang", False):
                s.bad_label = True
        r.shuffle(l.arcs)
        l.nodeorder = l.nodes[:]
        r.shuffle(l.nodeorder)
        return l

    def footlink(s, role):
        r = s.r
        inst = r.choice(s.insts)
        fs = [f for f in inst.facts if f.id and not f.bad]
        if not fs: return None
        l = Obj(kind="footnote", role=role, nodes=[], arcs=[], name="footnoteLink", arcname="footnoteArc", inst=inst)
        facts = r.sample(fs, min(len(fs), r.choice([1, 2, 3])))
        for i, f in enumerate(facts): l.nodes.append(Obj(label="fact%d" % i, el=None, res=None, fact=f))
        foots = []
        for j in range(r.choice([1, 2, 3])):
            res = Obj(kind="footnote", text=r.choice(s.TEXTS + ["A <b>bold</b> note"]), lang=r.choice(["en", "de"]), role="http://www.xbrl.org/2003/role/footnote", norole=r.random() < .3, nolang=s.f["badlinks"] and r.random() < .15, inner=r.random() < .2)
            x = Obj(label="foot%d" % j, el=None, res=res, fact=None)
            foots.append(x)
            l.nodes.append(x)
        # each footnote is the target of arcs with one set of attributes
        for x in foots:
            o = r.choice(s.ORDERS + [None])
            for f in r.sample(l.nodes[:len(facts)], r.choice([1, 1, min(2, len(facts))])):
                l.arcs.append(Obj(frm=f.label, to=x.label, arcrole=ARC["footnote"][0], order=o, weight=None, pref=None))
        if len(facts) > 1 and r.random() < .4:
            l.arcs.append(Obj(frm="fact0", to="fact1", arcrole=ARC["footnote"][1], order=r.choice(s.ORDERS), weight=None, pref=None))
        if s.f["badlinks"] and r.random() < .3:
            x = Obj(label="dangling", el=None, res=None, fact=None, dangling="nosuchfact")
            l.nodes.append(x)
            l.arcs.append(Obj(frm="dangling", to=foots[0].label, arcrole=ARC["footnote"][0], order=None, weight=None, pref=None))
            # the footnote is then also the target of this arc, with the attributes of whichever comes first
            for a in l.arcs:
                if a.to == foots[0].label: a.order = l.arcs[0].order if l.arcs[0].to == foots[0].label else a.order
            o = next(a.order for a in l.arcs if a.to == foots[0].label)
            for a in l.arcs:
                if a.to == foots[0].label: a.order = o
        r.shuffle(l.arcs)
        l.nodeorder = l.nodes[:]
        r.shuffle(l.nodeorder)
        return l

    def roleuris(s):
        """role identifiers, sometimes almost the same ones"""
        if not hasattr(s, "_roleuris"):
            s._roleuris = s.r.choice([["http://acme.com/role/R%d" % i for i in range(3)]] * 2 + [["http://acme.com/role/R1", "http://acme.com/role/R1/sub", "http://acme.com/role/R"], ["http://acme.com/role/R1", "http://acme.com/role/R10", "http://acme.com/role/r1"]])
            s.r.shuffle(s._roleuris)
        return s._roleuris

    def gen_roles(s):
        r = s.r
        s.roles = []
        if not s.f["roles"]: return
        uris = s.roleuris() + ["http://acme.com/role/unused"]
        for u in uris:
            if r.random() < .8:
                on = []
                for k in ("presentation", "calculation", "definition"):
                    if r.random() < .75: on.append(k + "Link")
                s.roles.append(Obj(uri=u, info=r.choice(["0001 - Statement", "Info & more", None, "x", ""]), used=on, ns=r.choice(s.nss), id="role_%d" % len(s.roles), otherused=r.random() < .3))
        r.shuffle(s.roles)

    # ------------------------------------------------------------------ writing
    def rel(s, frm, to):
        x = os.path.relpath(to, os.path.dirname(frm) or ".")
        if s.r.random() < .1: x = "./" + x
        return x

    def taxns(s): return {n.uri: n.prefix for n in s.nss}

    def write(s, root):
        r = s.r
        files = {}
        lbs = {}
        # linkbases: some links share a file
        paths = ["lb/one.xml", "two-lb.xml", "lb/deep/three.xml"]
        for l in s.links:
            if l.kind == "footnote":
                l.path = l.inst.path if r.random() < .7 else r.choice(paths)
            else:
                l.path = r.choice(paths)
                if r.random() < .1: l.path = s.nss[0].path      # links inside a schema
        for l in s.links: lbs.setdefault(l.path, []).append(l)
        lbfiles = [p for p in lbs if p in paths]
        for p in lbfiles:
            files[p] = s.linkbase(p, lbs[p])
        owner = {}
        for p in lbfiles: owner.setdefault(r.choice(s.nss).path, []).append(p)
        for n in s.nss:
            files[n.path] = s.schema(n, owner.get(n.path, []), lbs.get(n.path, []))
        for i in s.insts:
            files[i.path] = s.instance(i, lbs.get(i.path, []))
        for p, t in files.items():
            f = os.path.join(root, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w", encoding="utf-8") as h:
                h.write(t)
        s.files = files
        return root

    def schema(s, n, lbs, links):
        r = s.r
        d = Doc(r, n.path, s.taxns(), [XS, XBRLI, LINK, XLINK, XBRLDT, NONNUM])
        if r.random() < .3: d.default = XS
        body = []
        ap = []
        for p in lbs:
            ap.append(d.tag(d.q(LINK, "linkbaseRef"), {d.q(XLINK, "type", 1): "simple", d.q(XLINK, "href", 1): s.rel(n.path, p), d.q(XLINK, "arcrole", 1): "http://www.w3.org/1999/xlink/properties/linkbase"}))
        for ro in s.roles:
            if ro.ns is not n: continue
            kids = []
            if ro.info is not None: kids.append(d.tag(d.q(LINK, "definition"), {}, d.text(ro.info)))
            for u in ro.used: kids.append(d.tag(d.q(LINK, "usedOn"), {}, d.p[LINK] + ":" + u))
            if ro.otherused: kids.append(d.tag(d.q(LINK, "usedOn"), {}, d.p[LINK] + ":footnoteLink"))
            ap.append(d.tag(d.q(LINK, "roleType"), {"roleURI": ro.uri, "id": ro.id}, "".join(d.noise() + k for k in kids)))
        for l in links: ap.append(s.link(d, l))
        if ap:
            r.shuffle(ap)
            body.append(d.tag(d.q(XS, "annotation"), {}, d.tag(d.q(XS, "appinfo"), {}, "".join(d.noise() + x for x in ap))))
        for o in s.nss:
            if o is not n and (r.random() < .7):
                body.append(d.tag(d.q(XS, "import"), {"namespace": o.uri, "schemaLocation": s.rel(n.path, o.path)}))
        els = [e for e in s.els if e.ns == n.uri]
        r.shuffle(els)
        qn = lambda q: None if q is None else (q[1] if d.default == q[0] else d.p[q[0]] + ":" + q[1])
        for e in els:
            a = dict(name=e.name, id=e.id, abstract=e.abstract, substitutionGroup=qn(e.subst), type=qn(e.type), nillable=e.nillable)
            a[d.q(XBRLI, "periodType", 1)] = e.period
            a[d.q(XBRLI, "balance", 1)] = e.balance
            if e.typed:
                t = e.typed
                a[d.q(XBRLDT, "typedDomainRef", 1)] = ("" if t.ns is n else s.rel(n.path, t.ns.path)) + "#dom_" + e.id_or()
            e.decltype = a["type"]
            body.append(d.tag(d.q(XS, "element"), a))
        for e in s.els:
            if e.typed and e.typed.ns is n:
                t = e.typed
                a = dict(name=t.name, id="dom_" + e.id_or(), type=qn((t.tns, t.tname)) if t.form == "type" else None)
                if t.form == "type": body.append(d.tag(d.q(XS, "element"), a))
                else: body.append(d.tag(d.q(XS, "element"), a, d.tag(d.q(XS, "simpleType"), {}, d.tag(d.q(XS, "restriction"), {"base": qn((XS, "string"))}))))
        return '<?xml version="1.0" encoding="UTF-8"?>\n<%s%s targetNamespace=%s elementFormDefault="qualified">' % (d.q(XS, "schema"), d.decls(), quoteattr(n.uri)) + "".join(d.noise() + b for b in body) + "\n</%s>" % d.q(XS, "schema")

    def linkbase(s, path, links):
        d = Doc(s.r, path, s.taxns(), [LINK, XLINK])
        if s.r.random() < .4: d.default = LINK
        for l in links: l.path = path
        return '<?xml version="1.0" encoding="UTF-8"?>\n<%s%s>' % (d.q(LINK, "linkbase"), d.decls()) + "".join(d.noise() + s.link(d, l) for l in links) + "\n</%s>" % d.q(LINK, "linkbase")

    def link(s, d, l):
        r = s.r
        X = lambda n: d.q(XLINK, n, 1)
        kids = []
        inherit = None
        if l.kind == "label" and r.random() < .2: inherit = True
        for x in l.nodeorder:
            if x.el is not None or getattr(x, "fact", None) is not None or getattr(x, "dangling", None):
                if x.el is not None: href = s.rel(l.path, next(n.path for n in s.nss if n.uri == x.el.ns)) + "#" + x.el.id
                elif getattr(x, "dangling", None): href = "#" + x.dangling
                else: href = ("" if l.path == l.inst.path else s.rel(l.path, l.inst.path)) + "#" + x.fact.id
                kids.append(d.tag(d.q(LINK, "loc"), {X("type"): "locator", X("href"): href, X("label"): x.label}))
            else:
                q = x.res
                a = {X("type"): "resource", X("label"): x.label, X("role"): None if q.norole else q.role}
                if q.kind == "label" or q.kind == "footnote":
                    if not q.nolang: a["xml:lang"] = q.lang
                    t = d.text(q.text)
                    if q.inner and len(q.text) > 1:
                        t = escape(q.text[:1]) + '<h:span xmlns:h="http://www.w3.org/1999/xhtml">' + escape(q.text[1:-1]) + "</h:span>" + escape(q.text[-1:])
                    kids.append(d.tag(d.q(LINK, q.kind), a, t))
                else:
                    kids.append(d.tag(d.q(LINK, "reference"), a, "".join('<ref:%s xmlns:ref="http://www.xbrl.org/2006/ref">%s</ref:%s>' % (k, escape(v), k) for k, v in q.parts.items())))
        arcs = []
        for a in l.arcs:
            arcs.append(d.tag(d.q(LINK, l.arcname), {X("type"): "arc", X("from"): a.frm, X("to"): a.to, X("arcrole"): a.arcrole, "order": a.order, "weight": a.weight, "preferredLabel": a.pref}))
        # locators and arcs may be mixed
        allk = kids + arcs
        if r.random() < .4:
            pos = list(range(len(allk)))
            r.shuffle(pos)
            pos2 = sorted(pos[:len(kids)])
            out = [None] * len(allk)
            for p, k in zip(pos2, kids): out[p] = k
            it = iter(arcs)
            out = [x if x is not None else next(it) for x in out]
            allk = out
        return d.tag(d.q(LINK, l.name), {X("type"): "extended", X("role"): l.role}, "".join(d.noise() + k for k in allk))

    def instance(s, inst, links):
        r = s.r
        d = Doc(r, inst.path, dict(s.taxns(), **{"http://www.xbrl.org/2003/iso4217": "iso4217", "http://acme.com/units": "au", "http://www.w3.org/2001/XMLSchema-instance": "xsi"}), [XBRLI, LINK, XLINK, XBRLDI])
        if r.random() < .35: d.default = XBRLI
        parts = []
        for n in s.nss:
            parts.append(d.tag(d.q(LINK, "schemaRef"), {d.q(XLINK, "type", 1): "simple", d.q(XLINK, "href", 1): s.rel(inst.path, n.path)}))
        lbs = sorted({l.path for l in s.links if l.kind == "footnote" and l.path != inst.path})
        for p in lbs:
            parts.append(d.tag(d.q(LINK, "linkbaseRef"), {d.q(XLINK, "type", 1): "simple", d.q(XLINK, "href", 1): s.rel(inst.path, p)}))
        rest = [s.ctx(d, c) for c in inst.ctxs] + [s.unit(d, u) for u in inst.units]
        facts = [s.fact(d, f) for f in inst.facts]
        tup = next((e for e in s.els if e.kind == "none" and e.subst == (XBRLI, "tuple") and not e.bad), None)
        if tup and len(facts) > 2 and r.random() < .5:
            t = d.p[tup.ns] + ":" + tup.name
            n = r.choice([1, 1, 2, 4, 7])
            facts = facts[:1] + ["<%s>" % t * n + "".join(facts[1:3]) + "</%s>" % t * n] + facts[3:]
        foot = [s.link(d, l) for l in links]
        if r.random() < .5: rest = rest + facts
        elif r.random() < .5: rest = facts + rest
        else:
            # interleaved, the facts in order
            pos = sorted(r.sample(range(len(rest) + len(facts)), len(facts)))
            out, it, ft = [], iter(rest), iter(facts)
            for i in range(len(rest) + len(facts)): out.append(next(ft) if i in pos else next(it))
            rest = out
        parts += rest + foot
        return '<?xml version="1.0" encoding="UTF-8"?>\n<%s%s>' % (d.q(XBRLI, "xbrl"), d.decls()) + "".join(d.noise() + p for p in parts) + "\n</%s>" % d.q(XBRLI, "xbrl")

    def qname(s, d, ns, local):
        # a QName in content. the unprefixed form uses the default namespace
        x = (local if d.default == ns and s.r.random() < .5 else d.p[ns] + ":" + local)
        return s.r.choice([" ", "\n"]) + x + " " if s.r.random() < .12 else x

    def ctx(s, d, c):
        r = s.r
        I = lambda t, a, x=None: d.tag(d.q(XBRLI, t), a, x)
        b = c.bad
        seg = []
        for dm, k, v in c.dims:
            dq = d.p[dm.ns] + ":" + dm.name
            if k == "e":
                if b == "dim_nomember": seg.append(d.tag(d.q(XBRLDI, "explicitMember"), {"dimension": dq}, ""))
                elif b == "dim_badmember": seg.append(d.tag(d.q(XBRLDI, "explicitMember"), {"dimension": dq}, d.p[dm.ns] + ":NoSuchMember"))
                else: seg.append(d.tag(d.q(XBRLDI, "explicitMember"), {"dimension": dq}, s.qname(d, v.ns, v.name)))
            else:
                if b == "typ_nochild": seg.append(d.tag(d.q(XBRLDI, "typedMember"), {"dimension": dq}, ""))
                elif b == "typ_empty": seg.append(d.tag(d.q(XBRLDI, "typedMember"), {"dimension": dq}, d.tag(d.p[dm.typed.ns.uri] + ":" + dm.typed.name, {}, "")))
                else: seg.append(d.tag(d.q(XBRLDI, "typedMember"), {"dimension": dq}, s.ws() + d.tag(d.p[dm.typed.ns.uri] + ":" + dm.typed.name, {}, escape(v)) + s.ws()))
        ns0 = d.p[s.nss[0].uri]
        if b == "dim_unknown": seg.append(d.tag(d.q(XBRLDI, "explicitMember"), {"dimension": ns0 + ":NoSuchDim"}, ns0 + ":X"))
        if b == "dim_notdim": seg.append(d.tag(d.q(XBRLDI, "explicitMember"), {"dimension": d.p[s.concepts[0].ns] + ":" + s.concepts[0].name}, ns0 + ":X"))
        if b == "typ_unknown": seg.append(d.tag(d.q(XBRLDI, "typedMember"), {"dimension": ns0 + ":NoSuchDim"}, "<x>1</x>"))
        if b == "dim_other": seg.append("<%s:foo>1</%s:foo>" % (ns0, ns0))
        r.shuffle(seg)
        scen = []
        if seg and r.random() < .3:
            k = r.choice([0, r.randint(0, len(seg)), len(seg) // 2])
            seg, scen = seg[:k], seg[k:]
        ident = I("identifier", {"scheme": None if b == "ent_noscheme" else c.entity[1]}, "" if b == "ent_novalue" else escape(c.entity[0]))
        if b == "ent_noid": ident = ""
        ent = I("entity", {}, s.ws() + ident + (s.ws() + I("segment", {}, "".join(d.noise() + x for x in seg)) if seg else ""))
        if c.period[0] == "i": per = I("instant", {}, c.period[1])
        else: per = I("startDate", {}, c.period[1]) + s.ws() + I("endDate", {}, c.period[2])
        if b == "per_baddate": per = I("instant", {}, r.choice(["not-a-date", "2020-13-45", "2020-02-30", "", "99999999999999999999", "2020"]))
        if b == "per_baddate2": per = I("startDate", {}, "2020-01-01") + I("endDate", {}, r.choice(["soon", "2020-00-01", ""]))
        if b == "per_noend": per = I("startDate", {}, "2020-01-01")
        if b == "per_nostart": per = I("endDate", {}, "2020-01-01")
        if b == "per_order": per = I("startDate", {}, "2020-01-02") + I("endDate", {}, "2020-01-01")
        per = I("period", {}, s.ws() + per + s.ws())
        kids = [] if b == "ctx_noentity" else [ent]
        if b != "ctx_noperiod": kids.append(per)
        if scen: kids.append(I("scenario", {}, "".join(d.noise() + x for x in scen)))
        if r.random() < .2: kids.reverse()
        return I("context", {"id": c.id}, "".join(d.noise() + k for k in kids))

    def ws(s): return s.r.choice(["", "", "\n  ", " "])

    def unit(s, d, u):
        I = lambda t, a, x=None: d.tag(d.q(XBRLI, t), a, x)
        m = lambda q: I("measure", {}, s.qname(d, *q))
        b = u.bad
        if b == "unit_two": x = m(u.num[0]) + m((XBRLI, "pure"))
        elif b == "unit_nochild": x = ""
        elif b == "unit_nomeasure": x = I("measure", {}, "")
        elif b == "unit_other": x = I("foo", {}, "x")
        elif b == "unit_divide1": x = I("divide", {}, I("unitNumerator", {}, m(u.num[0])))
        elif b == "unit_emptynum": x = I("divide", {}, I("unitNumerator", {}, "") + I("unitDenominator", {}, m(u.num[0])))
        elif u.den or len(u.num) > 1:
            n, e = I("unitNumerator", {}, "".join(s.ws() + m(q) for q in u.num)), I("unitDenominator", {}, "".join(m(q) + s.ws() for q in u.den))
            x = I("divide", {}, s.ws() + (e + n if s.r.random() < .15 else n + s.ws() + e))
        else: x = m(u.num[0])
        return I("unit", {"id": u.id}, s.ws() + x + s.ws())

    def fact(s, d, f):
        r = s.r
        b = f.bad
        a = {"contextRef": f.ctx.id, "unitRef": f.unit.id if f.unit else None, "id": f.id, "decimals": f.dec and f.dec[0], "precision": f.prec and f.prec[0]}
        t = d.p[f.el.ns] + ":" + f.el.name
        if b == "fact_ctx": a["contextRef"] = "nosuch"
        if b == "fact_ctxq": a["contextRef"] = "it's"
        if b == "fact_unit": a["unitRef"] = "nosuch"
        if b == "fact_concept": t = d.p[f.el.ns] + ":NoSuchConcept"
        if b == "fact_decimals": a["decimals"] = r.choice(["x", "1.5.2", ""])
        if b == "fact_precision": a["precision"] = "many"
        if f.nil: a["xsi:nil"] = "true"
        if f.value == "": return d.tag(t, a, r.choice([None, ""]))
        if b is None and r.random() < .12:      # the prefix of the element may be declared anywhere
            t = "zz:" + f.el.name
            a["xmlns:zz"] = f.el.ns
        return d.tag(t, a, d.text(f.value))


def _id_or(e): return e.id or "noid_" + e.ns.replace("/", "_").replace(":", "_").replace("#", "_") + e.name
El.id_or = _id_or
