"""What an opened report says, as plain data (only through the public accessors)."""


def qn(q):
    return "{%s}%s" % (q.get_URL(), q.get_local_name())


def obs_aspects(f):
    """the aspects of a fact as plain data"""
    from brel.characteristics import (ConceptCharacteristic, PeriodCharacteristic, EntityCharacteristic, UnitCharacteristic, ExplicitDimensionCharacteristic, TypedDimensionCharacteristic)
    out = []
    for a in f.get_aspects():
        c = f.get_characteristic(a)
        if isinstance(c, ConceptCharacteristic): out.append(("concept", qn(c.get_value().get_name())))
        elif isinstance(c, PeriodCharacteristic):
            out.append(("period", "i", str(c.get_instant_period())) if c.is_instant() else ("period", "d", str(c.get_start_period()), str(c.get_end_period())))
        elif isinstance(c, EntityCharacteristic): out.append(("entity", c.get_value(), c.get_schema()))
        elif isinstance(c, UnitCharacteristic): out.append(("unit", c.get_value(), tuple(sorted(qn(q) for q in c.get_numerators())), tuple(sorted(qn(q) for q in c.get_denominators()))))
        elif isinstance(c, ExplicitDimensionCharacteristic): out.append(("explicit", qn(c.get_dimension().get_name()), qn(c.get_member().get_name())))
        elif isinstance(c, TypedDimensionCharacteristic): out.append(("typed", qn(c.get_dimension().get_name()), c.get_value()))
        else: out.append(("other", str(c)))
    return tuple(sorted(out))


def obs_fact(f):
    return dict(id=f.get_id(), value=str(f), decimals=f.get_decimals(), precision=f.get_precision(), aspects=obs_aspects(f))


def exp_aspects(f):
    out = [("concept", f.el.clark)]
    c = f.ctx
    out.append(("period",) + tuple(c.period))
    out.append(("entity", "{%s}%s" % (c.entity[1], c.entity[0]), c.entity[1]))
    if f.unit:
        out.append(("unit", f.unit.id, tuple(sorted("{%s}%s" % q for q in f.unit.num)), tuple(sorted("{%s}%s" % q for q in f.unit.den))))
    for d, k, v in c.dims:
        out.append(("explicit", d.clark, v.clark) if k == "e" else ("typed", d.clark, v))
    return tuple(sorted(out))


def exp_fact(f):
    return dict(id=f.id, value=f.value, decimals=f.dec and f.dec[1], precision=f.prec and f.prec[1], aspects=exp_aspects(f))


def fkey(d):
    return repr(sorted(d.items(), key=lambda kv: kv[0]))


def diff_multiset(exp, obs):
    """(missing, surplus)"""
    from collections import Counter
    e, o = Counter(exp), Counter(obs)
    return list((e - o).elements()), list((o - e).elements())


# ------------------------------------------------------------------ networks
def target(n):
    k = n.points_to()
    if k == "report element": return ("el", qn(n.get_report_element().get_name()))
    if k == "fact": return ("fact", n.get_fact().get_id())
    x = n.get_resource()
    t = type(x).__name__
    if t == "BrelLabel": return ("label", x.get_content(), x.get_language(), x.get_role())
    if t == "BrelFootnote": return ("footnote", x.get_content(), x.get_language(), x.get_role())
    return ("reference", tuple(sorted(x.get_content().items())), x.get_role())


def exp_target(x):
    if x.el is not None: return ("el", x.el.clark)
    if getattr(x, "fact", None) is not None: return ("fact", x.fact.id)
    q = x.res
    if q.kind == "reference": return ("reference", tuple(sorted(q.parts.items())), q.role)
    return (q.kind, q.text, q.lang, q.role)


LINKNS = "http://www.xbrl.org/2003/linkbase"


def canon(n, root=True, kind=None):
    """a node with everything below it. the arc name and order of roots are not specified"""
    w = n.get_weight() if hasattr(n, "get_weight") else None
    p = n.get_preferred_label_role() if hasattr(n, "get_preferred_label_role") else None
    ch = [canon(c, False, kind) for c in n.get_children()]
    head = (target(n), n.get_link_role(), qn(n.get_link_name()))
    if not root:
        head += (n.get_arc_role(), qn(n.get_arc_name()), None if kind == "label" else float(n.get_order()), w, p)
    return (head, tuple(sorted(ch, key=repr)))


def ordered(n):
    """children in ascending order, everywhere below n"""
    o = [float(c.get_order()) for c in n.get_children()]
    return all(a <= b for a, b in zip(o, o[1:])) and all(ordered(c) for c in n.get_children())


def exp_networks(l, logical):
    """the networks one extended link must give: [(arcrole or None, [canonical roots])]"""
    kind = l.kind
    fullname = "{%s}%s" % (LINKNS, l.name)
    arcname = "{%s}%s" % (LINKNS, l.arcname)
    nodes = [x for x in l.nodeorder if not getattr(x, "dangling", None) and not (x.res is not None and getattr(x.res, "nolang", False))]
    roles = sorted({a.arcrole for a in l.arcs}) if not logical else [None]

    def arcs(role): return [a for a in l.arcs if role is None or a.arcrole == role]

    def build(x, role, inc):
        head = (exp_target(x), l.role, fullname)
        if inc is not None:
            order = float(inc.order) if inc.order is not None else 1.0
            w = (float(inc.weight) if inc.weight is not None else 0.0) if kind == "calculation" else None
            p = None
            if kind == "presentation": p = inc.pref or "http://www.xbrl.org/2003/role/label"
            head += (inc.arcrole, arcname, None if kind == "label" else order, w, p)
        ch = []
        for a in arcs(role):
            if a.frm == x.label:
                for y in nodes:
                    if y.label == a.to: ch.append(build(y, role, a))
        return (head, tuple(sorted(ch, key=repr)))

    out = []
    alone = []
    for role in roles:
        rs = []
        for x in nodes:
            mine = [a for a in arcs(role) if x.label in (a.frm, a.to)]
            if mine and not any(a.to == x.label for a in mine):
                rs.append(build(x, role, None))
        out.append((role, rs))
    for x in nodes:
        if not any(x.label in (a.frm, a.to) for a in l.arcs):
            alone.append(build(x, None, None))
    if logical:
        rs = out[0][1] + alone
        return [(None, sorted(rs, key=repr))] if rs else []
    res = [(role if any(x[1] for x in rs) else "unknown", sorted(rs, key=repr)) for role, rs in out if rs]
    if alone: res.append(("unknown", sorted(alone, key=repr)))
    return res
