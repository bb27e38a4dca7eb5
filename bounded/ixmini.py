"""a small inline filing whose facts are given one by one (C15, C16)"""
import os
from xml.sax.saxutils import escape, quoteattr

XSD = """<?xml version="1.0" encoding="utf-8"?>
<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:t="http://t.example/t" targetNamespace="http://t.example/t">
<xs:element name="N" id="t_N" type="xbrli:decimalItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration" nillable="true"/>
<xs:element name="S" id="t_S" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration" nillable="true"/>
</xs:schema>"""

HEAD = """<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:ixt="http://www.xbrl.org/inlineXBRL/transformation/2022-02-16" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:iso4217="http://www.xbrl.org/2003/iso4217" xmlns:t="http://t.example/t" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">
<head><title>x</title></head><body><div style="display:none"><ix:header><ix:references><link:schemaRef xlink:type="simple" xlink:href="t.xsd"/></ix:references>
<ix:resources><xbrli:context id="c"><xbrli:entity><xbrli:identifier scheme="http://s">e</xbrli:identifier></xbrli:entity><xbrli:period><xbrli:startDate>2020-01-01</xbrli:startDate><xbrli:endDate>2020-12-31</xbrli:endDate></xbrli:period></xbrli:context>
<xbrli:unit id="u"><xbrli:measure>iso4217:EUR</xbrli:measure></xbrli:unit></ix:resources></ix:header></div>
"""


def fact(i, kind, text, **attrs):
    """kind N (number) or S (text)"""
    a = "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in attrs.items() if v is not None)
    tag, extra = ("ix:nonFraction", ' unitRef="u"') if kind == "N" else ("ix:nonNumeric", "")
    return '<p><%s id="%s" name="t:%s" contextRef="c"%s%s>%s</%s></p>' % (tag, i, kind, extra, a, escape(text), tag)


def write(env, facts):
    d = os.path.join(env.dir, "r")
    os.makedirs(d)
    doc = HEAD + "\n".join(facts) + "\n</body></html>"
    open(os.path.join(d, "t.xsd"), "w", encoding="utf-8").write(XSD)
    open(os.path.join(d, "r.html"), "w", encoding="utf-8").write(doc)
    env.files = {"t.xsd": XSD, "r.html": doc}
    return os.path.join(d, "r.html")
