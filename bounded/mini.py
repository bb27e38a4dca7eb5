"""a small report for the demonstrations"""
import os, tempfile

XB = 'xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:iso4217="http://www.xbrl.org/2003/iso4217" xmlns:ex="http://ex.com/t" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"'


def concept(name, more='', type="xbrli:monetaryItemType", period="instant"):
    return '<xs:element name="%s" id="ex_%s" type="%s" substitutionGroup="xbrli:item" xbrli:periodType="%s" nillable="true" %s/>' % (name, name, type, period, more)


def abstract(name, group="xbrli:item", more='', type="xbrli:stringItemType"):
    return '<xs:element name="%s" id="ex_%s" abstract="true" type="%s" substitutionGroup="%s" xbrli:periodType="duration" %s/>' % (name, name, type, group, more)


def member(name): return abstract(name, type="nonnum:domainItemType")


def ctx(id, period="<xbrli:instant>2020-12-31</xbrli:instant>", seg="", scheme="http://s", ent="e"):
    return '<xbrli:context id="%s"><xbrli:entity><xbrli:identifier scheme="%s">%s</xbrli:identifier>%s</xbrli:entity><xbrli:period>%s</xbrli:period></xbrli:context>' % (id, scheme, ent, "<xbrli:segment>%s</xbrli:segment>" % seg if seg else "", period)


def unit(id, m="iso4217:USD"): return '<xbrli:unit id="%s"><xbrli:measure>%s</xbrli:measure></xbrli:unit>' % (id, m)


def fact(name, value, c="c1", u="u1", more=""):
    return '<ex:%s contextRef="%s" %s %s>%s</ex:%s>' % (name, c, 'unitRef="%s"' % u if u else "", more, value, name)


def link(kind, role, body): return '<link:%sLink xlink:type="extended" xlink:role="%s">%s</link:%sLink>' % (kind, role, body, kind)
def loc(name, label=None): return '<link:loc xlink:type="locator" xlink:href="../t.xsd#ex_%s" xlink:label="%s"/>' % (name, label or name)


def arc(kind, a, b, role=None, more='order="1"'):
    role = role or dict(presentation="http://www.xbrl.org/2003/arcrole/parent-child", calculation="http://www.xbrl.org/2003/arcrole/summation-item", label="http://www.xbrl.org/2003/arcrole/concept-label", definition="http://xbrl.org/int/dim/arcrole/domain-member", footnote="http://www.xbrl.org/2003/arcrole/fact-footnote", reference="http://www.xbrl.org/2003/arcrole/concept-reference")[kind]
    return '<link:%sArc xlink:type="arc" xlink:from="%s" xlink:to="%s" xlink:arcrole="%s" %s/>' % (kind, a, b, role, more)


def write(files):
    d = tempfile.mkdtemp()
    for p, t in files.items():
        f = os.path.join(d, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        open(f, "w", encoding="utf-8").write(t)
    return d


def schema(decls="", app="", ns="http://ex.com/t", lb=()):
    app = app + "".join('<link:linkbaseRef xlink:type="simple" xlink:href="%s"/>' % p for p in lb)
    return '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:nonnum="http://www.xbrl.org/dtr/type/non-numeric" targetNamespace="%s" %s>%s%s</xs:schema>' % (ns, XB, "<xs:annotation><xs:appinfo>%s</xs:appinfo></xs:annotation>" % app if app else "", decls)


def files(body="", decls=None, links="", app="", schemas=("t.xsd",)):
    decls = decls if decls is not None else concept("A") + concept("B") + concept("C")
    f = {"t.xsd": schema(decls, app, lb=["lb/l.xml"] if links else []), "i.xml": '<xbrli:xbrl %s>%s%s</xbrli:xbrl>' % (XB, "".join('<link:schemaRef xlink:type="simple" xlink:href="%s"/>' % s for s in schemas), body)}
    if links: f["lb/l.xml"] = '<link:linkbase %s>%s</link:linkbase>' % (XB, links)
    return f


