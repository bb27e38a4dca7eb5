"""Random inline reports with an independent record of what they say.

The body is a tree of plain data (text, markup, inline elements, excluded regions, comments); the document and everything
expected of the reader are both computed from that tree."""
import os
from xml.sax.saxutils import escape, quoteattr

IX = "http://www.xbrl.org/2013/inlineXBRL"
H = "http://www.w3.org/1999/xhtml"
XBRLI = "http://www.xbrl.org/2003/instance"
LINK = "http://www.xbrl.org/2003/linkbase"
XLINK = "http://www.w3.org/1999/xlink"
XBRLDI = "http://xbrl.org/2006/xbrldi"
XSI = "http://www.w3.org/2001/XMLSchema-instance"


class Node:
    """kind: text, html, exclude, comment, N (number), S (text fact), cont, foot, hidden"""
    def __init__(s, kind, kids=(), **k):
        s.kind, s.kids = kind, list(kids)
        s.text, s.tag, s.attrs, s.id = "", None, {}, None
        s.__dict__.update(k)


class Obj:
    def __init__(s, **k): s.__dict__.update(k)


def flat(n):
    """the displayed text inside a node, without excluded regions"""
    if n.kind == "text": return n.text
    if n.kind in ("exclude", "comment"): return ""
    return "".join(flat(k) for k in n.kids)


def inside(n, kinds):
    for k in n.kids:
        if k.kind in kinds: yield k
        yield from inside(k, kinds)


def tree(nodes):
    """canonical markup of a list of nodes: text and html elements, inline elements dissolved, excluded regions gone"""
    out = []
    def add(t):
        if not t: return
        if out and isinstance(out[-1], str): out[-1] += t
        else: out.append(t)
    def go(ns):
        for n in ns:
            if n.kind == "text": add(n.text)
            elif n.kind in ("exclude", "comment"): pass
            elif n.kind == "html": out.append((n.tag, tuple(sorted(n.attrs.items())), tree(n.kids)))
            else: go(n.kids)
    go(nodes)
    return tuple(out)


def parsed(e):
    """the same for a parsed element"""
    out = []
    def add(t):
        if not t: return
        if out and isinstance(out[-1], str): out[-1] += t
        else: out.append(t)
    add(e.text)
    for k in e:
        if isinstance(k.tag, str):
            out.append((k.tag.split("}")[-1], tuple(sorted(k.attrib.items())), parsed(k)))
        add(k.tail)
    return tuple(out)


class Inline:
    def __init__(s, rng, **f):
        s.r, s.f = rng, dict(docs=1, chains=0, badchains=0, feet=0, badrefs=0, badfeet=0, depth=3, nested=1, nfacts=6, format=0)
        s.f.update(f)
        s.n = 0
        s.diags = []       # expected diagnostics
        s.taxonomy()
        s.resources()
        s.body()
        s.relations()

    def uid(s, p):
        s.n += 1
        return "%s%d" % (p, s.n)

    # --------------------------------------------------------------- schema and resources
    def taxonomy(s):
        r = s.r
        s.nss = [Obj(uri="http://t%d.example/%d" % (i, i), prefix=["t", "acme", "a-b"][i], path=["t.xsd", "x/t.xsd", "u.xsd"][i], els=[]) for i in range(r.choice([1, 2, 3]))]
        s.concepts = []
        for i in range(r.choice([3, 6])):
            ns = r.choice(s.nss)
            c = Obj(ns=ns, name=r.choice(["Revenue", "Text", "Note", "Assets"]) + str(i), num=i % 2 == 0, kind="concept")
            c.clark = "{%s}%s" % (ns.uri, c.name)
            s.concepts.append(c); ns.els.append(c)
        s.dims = []
        for i in range(2):
            ns = r.choice(s.nss)
            d = Obj(ns=ns, name="Axis%d" % i, kind="dim", clark="{%s}Axis%d" % (ns.uri, i))
            m = Obj(ns=ns, name="Member%d" % i, kind="member", clark="{%s}Member%d" % (ns.uri, i))
            ns.els += [d, m]
            s.dims.append((d, m))

    def schema(s, ns):
        t = '<?xml version="1.0" encoding="utf-8"?>\n<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:xbrli="%s" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:nonnum="http://www.xbrl.org/dtr/type/non-numeric" targetNamespace="%s">\n' % (XBRLI, ns.uri)
        for e in ns.els:
            i = "%s_%s" % (ns.prefix, e.name)
            if e.kind == "concept": t += '<xs:element id="%s" name="%s" type="xbrli:%s" substitutionGroup="xbrli:item" xbrli:periodType="duration" nillable="true"/>\n' % (i, e.name, "decimalItemType" if e.num else "stringItemType")
            elif e.kind == "dim": t += '<xs:element id="%s" name="%s" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" abstract="true" xbrli:periodType="duration"/>\n' % (i, e.name)
            else: t += '<xs:element id="%s" name="%s" type="nonnum:domainItemType" substitutionGroup="xbrli:item" abstract="true" xbrli:periodType="duration"/>\n' % (i, e.name)
        return t + "</xs:schema>"

    def resources(s):
        r = s.r
        s.ctxs, s.units = [], []
        for i in range(r.choice([1, 2, 4])):
            y = r.randint(2000, 2030)
            p = ("i", "%d-%02d-%02d" % (y, r.randint(1, 12), r.randint(1, 28))) if r.random() < .4 else ("d", "%d-01-%02d" % (y, r.randint(1, 28)), "%d-12-%02d" % (y, r.randint(1, 31)))
            s.ctxs.append(Obj(id=r.choice(["c%d", "ctx-%d", "D%d_x"]) % i, period=p, entity=(r.choice(["E1", "0000123"]), r.choice(["http://scheme", "http://other/s"])), dims=r.sample(s.dims, r.choice([0, 0, 1, 2]))))
        for i, u in enumerate(r.sample([("iso4217", "http://www.xbrl.org/2003/iso4217", "EUR"), ("iso4217", "http://www.xbrl.org/2003/iso4217", "USD"), ("xbrli", XBRLI, "shares"), ("xbrli", XBRLI, "pure")], r.choice([1, 2]))):
            s.units.append(Obj(id="u%d" % i, m=u))

    def ctx_xml(s, c):
        per = "<xbrli:instant>%s</xbrli:instant>" % c.period[1] if c.period[0] == "i" else "<xbrli:startDate>%s</xbrli:startDate><xbrli:endDate>%s</xbrli:endDate>" % c.period[1:]
        seg = "".join('<xbrldi:explicitMember dimension="%s:%s">%s:%s</xbrldi:explicitMember>' % (d.ns.prefix, d.name, m.ns.prefix, m.name) for d, m in c.dims)
        if seg: seg = "<xbrli:segment>" + seg + "</xbrli:segment>"
        return '<xbrli:context id="%s"><xbrli:entity><xbrli:identifier scheme="%s">%s</xbrli:identifier>%s</xbrli:entity><xbrli:period>%s</xbrli:period></xbrli:context>' % (c.id, c.entity[1], c.entity[0], seg, per)

    def unit_xml(s, u):
        return '<xbrli:unit id="%s"><xbrli:measure>%s:%s</xbrli:measure></xbrli:unit>' % (u.id, u.m[0], u.m[2])

    # --------------------------------------------------------------- the body
    def words(s):
        r = s.r
        return r.choice(["lorem", "a & b", "x < y", "été", " ", "", "\n  ", "12", "\"q\" it's", "]]", "末", "w%d" % s.n, " tail ", "line\nbreak", "<p>", "&amp;"])

    def text(s):
        s.n += 1
        return Node("text", text=s.r.choice(["", " "]) + s.words() + s.r.choice(["", " "]))

    def content(s, depth, ix, room):
        """a list of nodes; ix: inline elements may appear; room: kinds of fact still allowed"""
        r, out = s.r, []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4]) if depth else 1):
            x = r.random()
            if x < .45 or depth <= 0: out.append(s.text())
            elif x < .68: out.append(Node("html", s.content(depth - 1, ix, room), tag=r.choice(["b", "span", "i", "div", "p", "td"]), attrs=r.choice([{}, {}, {"class": "k"}, {"style": "color:red", "title": "a \"b\" <c>"}])))
            elif x < .72: out.append(Node("html", [], tag=r.choice(["br", "hr"])))
            elif x < .82: out.append(Node("exclude", s.content(depth - 1, True, room)))
            elif x < .86: out.append(Node("comment", text=r.choice([" comment ", "note 12"]), pi=r.random() < .3))
            elif ix and room[0] > 0 and s.f["nested"]:
                room[0] -= 1
                out.append(s.fact(depth - 1, room))
            else: out.append(s.text())
        return out

    def fact(s, depth, room):
        r = s.r
        if r.random() < .4: return s.number()
        n = Node("S", concept=r.choice([c for c in s.concepts if not c.num] or s.concepts), ctx=r.choice(s.ctxs), unit=None, escape=r.choice([None, None, "true", "false"]), chain=[], bad=None)
        n.id = s.uid("f") if r.random() < .85 or s.f["feet"] else None
        n.kids = s.content(depth, True, room)
        n.dec = n.prec = None
        s.facts.append(n)
        return n

    def number(s):
        r = s.r
        n = Node("N", concept=r.choice([c for c in s.concepts if c.num]), ctx=r.choice(s.ctxs), unit=r.choice(s.units), bad=None, nil=False, dec=None, prec=None, sign=None)
        n.id = s.uid("f") if r.random() < .85 or s.f["feet"] else None
        k = r.random()
        if k < .45: n.dec = r.choice([("0", 0.0), ("-3", -3.0), ("2", 2.0), ("INF", float("inf"))])
        elif k < .7: n.prec = r.choice([("3", 3.0), ("INF", float("inf")), ("15", 15.0)])
        v = "%d" % r.randint(0, 10 ** r.choice([1, 4, 9]))
        n.kids = [Node("text", text=v)]
        n.value = v
        if r.random() < .25 and v != "0": n.sign, n.value = "-", "-" + v
        if k > .9:
            n.nil, n.kids, n.value, n.sign = True, [], "", None
        elif r.random() < .15:
            # the number is written in a nested inline number
            m = Node("N", concept=n.concept, ctx=r.choice(s.ctxs), unit=n.unit, bad=None, nil=False, dec=None, prec=None, sign=None, id=s.uid("f"), kids=n.kids, value=v)
            n.kids = [m]
            s.facts.append(m)
        elif r.random() < .15:
            k = r.randint(0, len(v))
            n.kids = [Node("text", text=v[:k]), Node("comment", text="c", pi=False), Node("text", text=v[k:])]
        s.facts.append(n)
        return n

    def body(s):
        r = s.r
        s.facts, s.conts, s.feet = [], [], []
        s.docs = [Obj(path=["r.html", "s.xhtml", "a.htm"][i], body=[], hidden=[], lang=r.choice([None, "en", "de-CH"])) for i in range(s.f["docs"])]
        for d in s.docs:
            for _ in range(r.choice([1, s.f["nfacts"]])):
                room = [r.choice([0, 0, 1, 3])]
                d.body += [Node("html", [s.text(), s.fact(s.f["depth"], room), s.text()], tag=r.choice(["p", "div", "td"]))] if r.random() < .8 else s.content(2, True, room)
            for _ in range(r.choice([0, 0, 1, 3])):
                d.hidden.append(s.fact(r.choice([1, 1, 2]), [r.choice([0, 0, 1, 2])]))
        for _ in range(s.f["feet"] and r.choice([1, 2, 4])):
            d = r.choice(s.docs)
            n = Node("foot", s.content(2, False, [0]) or [s.text()], id=s.uid("n"), lang=r.choice(["en", "de", "fr-FR"]) if d.lang is None or r.random() < .6 else None, role=r.choice([None, None, "http://acme.com/role/note", "http://www.xbrl.org/2003/role/footnote"]), title=r.choice([None, "T"]), chain=[], doclang=d.lang)
            s.feet.append(n)
            d.body.append(Node("html", [n], tag="p"))
        if s.f["chains"]: s.chains()
        if s.f["badchains"]: s.spoil_chains()
        if s.f["badrefs"]: s.spoil_refs()

    def chains(s):
        r = s.r
        heads = [f for f in s.facts if f.kind == "S" and not f.bad] + s.feet
        for h in r.sample(heads, min(len(heads), r.choice([1, 2, 3]))):
            prev = h
            for _ in range(r.choice([1, 1, 1, 2, 2, 4, 4, 12])):
                c = Node("cont", s.content(2, h.kind == "S", [r.choice([0, 0, 1])]) or [s.text()], id=s.uid("k"), next=None)
                prev.next = c.id
                h.chain.append(c)
                s.conts.append(c)
                prev = c
                d = r.choice(s.docs)
                d.body.insert(r.randint(0, len(d.body)), Node("html", [c], tag="div"))

    def spoil_chains(s):
        r = s.r
        d = r.choice(s.docs)
        S = [f for f in s.facts if f.kind == "S"]
        for k in r.sample(["unknown", "reused", "unused", "cycle", "self"], r.choice([1, 1, 2])):
            free = [f for f in S if not getattr(f, "next", None)]
            if k == "unused":
                c = Node("cont", [Node("text", text="unused text")], id=s.uid("k"), next=None)
                d.body.append(c)
                s.diags.append(("IXBRL_UNUSED_CONTINUATION_ELEMENTS", [c.id]))
                continue
            if not free: continue
            f = r.choice(free)
            if k == "unknown":
                f.next = s.uid("nowhere")
                s.diags.append(("IXBRL_INVALID_CONTINUATION_ID", [f.next] + ([f.id] if f.id else [])))
            elif k in ("cycle", "self"):
                n = 1 if k == "self" else r.choice([2, 3])
                cs = [Node("cont", [Node("text", text="cyclic%d" % s.n)], id=s.uid("k"), next=None) for _ in range(n)]
                for a, b in zip(cs, cs[1:] + cs[:1]): a.next = b.id
                f.next = cs[0].id
                f.chain += cs
                for c in cs: d.body.append(c)
                s.diags.append(("IXBRL_REUSED_CONTINUATION", [cs[0].id] + ([f.id] if f.id else [])))
            elif k == "reused":
                rest = [x for x in free if x is not f]
                if not rest: continue
                g = r.choice(rest)
                c = Node("cont", [Node("text", text="shared%d" % s.n)], id=s.uid("k"), next=None)
                f.next = g.next = c.id
                d.body.append(c)
                f.either = g.either = c      # one of the two
                s.pairs = getattr(s, "pairs", []) + [(f, g, c)]
                s.diags.append(("IXBRL_REUSED_CONTINUATION", [c.id]))

    def spoil_refs(s):
        r = s.r
        for f in r.sample(s.facts, min(len(s.facts), r.choice([1, 1, 2]))):
            nests = f.kind == "N" and (any(k.kind == "N" for k in f.kids) or any(f in g.kids for g in s.facts if g.kind == "N"))
            k = r.choice(["noname", "concept", "noctx", "ctx"] + (["unit"] if f.kind == "N" and not nests else []))
            f.bad = k
            i = [str(f.id)]
            if k == "noname": s.diags.append(("IXBRL_FACT_WITHOUT_CONCEPT_NAME", i))
            elif k == "concept":
                ns = r.choice(s.nss)
                f.badname = ns.prefix + ":" + r.choice(["Nothing", "Axis0", "Member0", f.concept.name + "x"])
                s.diags.append(("IXBRL_FACT_INVALID_CONCEPT", i + [f.badname]))
            elif k == "noctx": s.diags.append(("IXBRL_FACT_WITHOUT_CONTEXT", i))
            elif k == "ctx": s.diags.append(("IXBRL_INVALID_FACT_CONTEXT_ID", ["nowhere"]))
            elif k == "unit": s.diags.append(("IXBRL_INVALID_FACT_UNIT_ID", i + ["nounit"]))

    # --------------------------------------------------------------- footnote relationships
    def relations(s):
        r = s.r
        s.rels = []
        if not s.f["feet"]: return
        ok = [f for f in s.facts if not f.bad and f.id]
        if not ok: return
        used = {}
        for _ in range(r.choice([1, 2, 3])):
            role = r.choice([None, None, "http://acme.com/role/l1", "http://acme.com/role/l2", "http://acme.com/role/L1"])
            arc = r.choice([None, None, "http://acme.com/arcrole/x", "http://acme.com/arcrole/X"])
            order = r.choice([None, "1", "2.5", "10", "0", "-1"])
            fr = r.sample(ok, min(len(ok), r.choice([1, 1, 2])))
            # facts refer to later facts only: no cycles
            later = ok[max(ok.index(f) for f in fr) + 1:]
            if r.random() < .6: to = r.sample(s.feet, min(len(s.feet), r.choice([1, 1, 2])))
            else: to = r.sample(later, min(len(later), r.choice([1, 2])))
            key = (role, arc)
            # one order for each target, no repeated relationship in one network
            to = [t for t in to if used.get((key, t.id), (order, ()))[0] == order and not set(used.get((key, t.id), (None, ()))[1]) & {f.id for f in fr}]
            x = Obj(role=role, arc=arc, order=order, fr=fr, to=to, nofr=[], noto=[])
            if s.f["badfeet"] and to and r.random() < .7: s.spoil_relation(x, ok, used, key)
            to = x.to
            if not to: continue
            for t in to:
                o, y = used.get((key, t.id), (order, ()))
                used[key, t.id] = (order, tuple(y) + tuple(f.id for f in fr))
            s.rels.append(x)

    def spoil_relation(s, x, ok, used, key):
        """ends that do not exist, or that are on both sides, or facts next to footnotes"""
        r = s.r
        k = r.choice(["from", "to", "both", "mixed", "role", "arc", "order"])
        if k == "from":
            x.nofr = r.sample(["nofact", "nix"] + [t.id for t in s.feet if t not in x.to][:1], r.choice([1, 2]))
            s.diags.append(("IXBRL_RELATIONSHIP_INVALID_FACT_ID_IN_FROMREFS", []))
        elif k == "to":
            x.noto = r.sample(["nofact", "nix"], r.choice([1, 2]))
            s.diags.append(("IXBRL_RELATIONSHIP_INVALID_FACT_OR_FOOTNOTE_ID_IN_TOREFS", []))
        elif k == "both":
            x.noto = [r.choice(x.fr).id]
            s.diags.append(("IXBRL_RELATIONSHIP_REPEATED_ID", []))
        elif k == "mixed":
            foot = any(t.kind == "foot" for t in x.to)
            other = [t for t in (ok[max(ok.index(f) for f in x.fr) + 1:] if foot else s.feet) if (key, t.id) not in used]
            if not other: return
            x.to = x.to + [r.choice(other)]
            s.diags.append(("IXBRL_RELATIONSHIP_MIXED_FACT_AND_FOOTNOTES_IN_TOREFS", []))
        elif k == "role" and x.role is None:
            x.badrole = r.choice(["//", "http://"])
            s.diags.append(("IXBRL_RELATIONSHIP_INVALID_LINKROLE", []))
        elif k == "arc" and x.arc is None:
            x.badarc = "http://"
            s.diags.append(("IXBRL_RELATIONSHIP_INVALID_ARCROLE", []))
        elif k == "order" and x.order is None:
            x.badorder = r.choice(["one", "1,5"])
            s.diags.append(("IXBRL_RELATIONSHIP_INVALID_ORDER", []))

    # --------------------------------------------------------------- writing
    def xml(s, n, ctxattr=True):
        e = lambda t: escape(t)
        if n.kind == "text": return e(n.text)
        if n.kind == "comment": return "<?note %s?>" % n.text if n.pi else "<!--%s-->" % n.text
        kids = "".join(s.xml(k) for k in n.kids)
        def tag(t, attrs):
            a = [(k, v) for k, v in attrs if v is not None]
            s.r2.shuffle(a)
            a = "".join(" %s=%s" % (k, quoteattr(v)) for k, v in a)
            return "<%s%s>%s</%s>" % (t, a, kids, t) if kids or not s.r2.random() < .5 else "<%s%s/>" % (t, a)
        ix = s.ixp
        if n.kind == "html": return tag(s.hp + n.tag, list(n.attrs.items()))
        if n.kind == "exclude": return tag(ix + ":exclude", [])
        if n.kind == "cont": return tag(ix + ":continuation", [("id", n.id), ("continuedAt", n.next)])
        if n.kind == "foot": return tag(ix + ":footnote", [("id", n.id), ("footnoteRole", n.role), ("xml:lang", n.lang), ("title", n.title), ("continuedAt", getattr(n, "next", None))])
        a = [("id", n.id), ("name", n.badname if n.bad == "concept" else None if n.bad == "noname" else s.alias.get(n.concept.ns.uri, n.concept.ns.prefix) + ":" + n.concept.name), ("contextRef", "nowhere" if n.bad == "ctx" else None if n.bad == "noctx" else n.ctx.id)]
        if n.kind == "S":
            return tag(ix + ":nonNumeric", a + [("escape", n.escape), ("continuedAt", getattr(n, "next", None))])
        return tag(ix + ":nonFraction", a + [("unitRef", "nounit" if n.bad == "unit" else n.unit.id), ("decimals", n.dec and n.dec[0]), ("precision", n.prec and n.prec[0]), ("sign", n.sign), ("xsi:nil", "true" if n.nil else None)])

    def write(s, folder):
        r = s.r
        import random
        s.r2 = random.Random(r.random())
        s.ixp, s.hp = r.choice(["ix", "ix", "inline"]), r.choice(["", "", "h:"])
        s.files = {}
        refs = list(s.nss)
        rd = [Obj(refs=[], ctxs=[], units=[], rels=[]) for _ in s.docs]
        for x in refs: r.choice(rd).refs.append(x)
        for x in s.ctxs: r.choice(rd).ctxs.append(x)
        for x in s.units: r.choice(rd).units.append(x)
        for x in s.rels: r.choice(rd).rels.append(x)
        for d, q in zip(s.docs, rd):
            ns = {IX: s.ixp, XBRLI: "xbrli", LINK: "link", XLINK: "xlink", XBRLDI: "xbrldi", XSI: "xsi", "http://www.xbrl.org/2003/iso4217": "iso4217"}
            ns.update({x.uri: x.prefix for x in s.nss})
            # names of facts may be written with prefixes that mean something else in the next document
            s.alias = dict(zip(r.sample([x.uri for x in s.nss], len(s.nss)), ["q1", "q2", "q3"])) if r.random() < .4 else {}
            decl = "".join(' xmlns:%s="%s"' % (p, u) for u, p in list(ns.items()) + list(s.alias.items())) + (' xmlns="%s"' % H if not s.hp else ' xmlns:h="%s"' % H)
            h = s.hp
            hidden = "<%s:hidden>%s</%s:hidden>" % (s.ixp, "".join(s.xml(k) for k in d.hidden), s.ixp) if d.hidden else ""
            rf = "".join('<link:schemaRef xlink:type="simple" xlink:href="%s"/>' % x.path for x in q.refs)
            rf = "<%s:references>%s</%s:references>" % (s.ixp, rf, s.ixp) if rf else ""
            rels = "".join("<%s:relationship%s/>" % (s.ixp, "".join(" %s=%s" % (k, quoteattr(v)) for k, v in [("linkRole", getattr(x, "badrole", x.role)), ("arcrole", getattr(x, "badarc", x.arc)), ("order", getattr(x, "badorder", x.order)), ("fromRefs", " ".join(r.sample([f.id for f in x.fr] + x.nofr, len(x.fr) + len(x.nofr)))), ("toRefs", r.choice([" ", "  ", "\n"]).join(r.sample([t.id for t in x.to] + x.noto, len(x.to) + len(x.noto))))] if v is not None)) for x in q.rels)
            items = [s.ctx_xml(c) for c in q.ctxs] + [s.unit_xml(u) for u in q.units] + ([rels] if rels else [])
            r.shuffle(items)
            rs = "<%s:resources>%s</%s:resources>" % (s.ixp, "".join(items), s.ixp)
            header = "<%sdiv style=\"display:none\"><%s:header>%s%s%s</%s:header></%sdiv>" % (h, s.ixp, hidden, rf, rs, s.ixp, h)
            body = "".join(s.xml(k) for k in d.body)
            d.text = '<?xml version="1.0" encoding="utf-8"?>\n<%shtml%s%s><%shead><%stitle>t</%stitle></%shead><%sbody>%s%s</%sbody></%shtml>' % (h, decl, ' xml:lang="%s"' % d.lang if d.lang else "", h, h, h, h, h, header, body, h, h)
            s.files[d.path] = d.text
        for x in s.nss: s.files[x.path] = s.schema(x)
        for p, t in s.files.items():
            p = os.path.join(folder, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w", encoding="utf-8").write(t)

    # --------------------------------------------------------------- expectations
    def aspects(s, f):
        c = f.ctx
        out = [("concept", f.concept.clark), ("period",) + c.period, ("entity", "{%s}%s" % (c.entity[1], c.entity[0]), c.entity[1])]
        if f.kind == "N": out.append(("unit", f.unit.id, ("{%s}%s" % f.unit.m[1:],), ()))
        out += [("explicit", d.clark, m.clark) for d, m in c.dims]
        return tuple(sorted(out))

    def good(s): return [f for f in s.facts if not f.bad]
