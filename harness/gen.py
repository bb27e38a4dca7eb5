"""Random real objects of the library, by type annotation (used to *execute* the contracts in CPython).

Small pools are used on purpose: keys collide, objects are shared, equal-but-distinct objects occur."""
import typing, types, datetime
import random as _random


class Gen:
    def __init__(self, rng: _random.Random):
        self.r = rng
        self.pools = {}
        self.size = rng.choice([1, 2, 3, 4, 6, 8])
        self.nets_share = rng.random() < 0.3

    # ---- scalars
    STR = ["", "a", "b", "c", "ab", "a:b", "x:y", "1", "-2", "3.5", "true", "FALSE", " TRUE ", "0", "1e3", " 7 ", "en", "de", "fr", "en-US", "zh-Hans-CN", "zh", "zh-TW", "eng",
           "http://a/", "http://a/b", "http://a/b/c", "http://c", "entity", "unit", "concept", "period", "literal:none", "_1", "1_0", "nan", "inf", "http://www.xbrl.org/2003/role/label", "None"]

    # keys that occur in the objects below
    KEYS = ["c1", "c2", "c3", "C1", "f1", "f2", "f3", "f4", "a", "b", "F1", "p:ax", "q:ax", "p:by", "zz", "http://role/1", "http://role/2", "http://role/3", "http://role/1/sub", "usd"]

    def str_(self):
        r = self.r
        if r.random() < 0.25:
            return r.choice(self.KEYS)
        if r.random() < 0.9:
            return r.choice(self.STR)
        return "".join(r.choice("ab:/{}#. 0") for _ in range(r.randint(0, 5)))

    def ident(self):
        return self.r.choice(["f1", "f2", "f3", "f4", "a", "b", "F1", "f11"])

    def opt(self, f, p=0.4):
        return None if self.r.random() < p else f()

    def make(self, t):
        r = self.r
        o = typing.get_origin(t)
        a = typing.get_args(t)
        if t is typing.Any or t is object:
            return r.choice([self.str_(), r.randint(-3, 3), None, r.random() < .5])
        if o in (typing.Union, types.UnionType):
            return self.make(r.choice(a))
        if t is type(None) or t is None:
            return None
        if o in (list, typing.Iterable) or str(o) == "collections.abc.Iterable" or str(o) == "collections.abc.Sequence":
            n = r.choice([0, 1, 1, 2, 3, 4, self.size])
            return [self.make(a[0]) for _ in range(n)]
        if o is tuple:
            if len(a) == 2 and a[1] is Ellipsis:
                return tuple(self.make(a[0]) for _ in range(r.randint(0, 3)))
            return tuple(self.make(x) for x in a)
        if o is dict:
            return {self.make(a[0]): self.make(a[1]) for _ in range(r.randint(0, 4))}
        if o is set:
            return {self.make(a[0]) for _ in range(r.randint(0, 4))}
        if o is typing.Literal:
            return r.choice(a)
        if t is str:
            return self.str_()
        if t is bool:
            return r.random() < 0.5
        if t is int:
            return r.choice([0, 1, 2, 3, -1, -2, 10, 7])
        if t is float:
            return r.choice([0.0, 1.0, 2.0, -1.0, 0.5, 10.0, -0.25])
        if t is datetime.date:
            return datetime.date(2000 + r.randint(0, 3), r.randint(1, 12), r.randint(1, 28))
        import enum
        if isinstance(t, type) and issubclass(t, enum.Enum):
            return r.choice(list(t))
        name = t.__name__
        f = getattr(self, "mk_" + name, None)
        if f is None:
            raise NotImplementedError("no generator for %s" % name)
        return self.pooled(name, f)

    def pooled(self, name, f, cap=None):
        p = self.pools.setdefault(name, [])
        cap = cap or self.size + 2
        if p and (len(p) >= cap or self.r.random() < 0.45):
            return self.r.choice(p)
        v = f()
        p.append(v)
        return v

    # ---- names and labels
    def mk_QName(self):
        from brel import QName
        r = self.r
        return QName(r.choice(["http://a", "http://b", "http://a", "http://a/", "http://A"]), r.choice(["p", "q", "p", "P"]), r.choice(["x", "y", "z", "w", "v", "X", "xx"]))

    def mk_BrelLabel(self):
        from brel.resource import BrelLabel
        r = self.r
        return BrelLabel(r.choice(["Text A", "Text B", "", "T"]), "lab", r.choice(["en", "de", "fr", "en-US", "en-us", "ja", "zh-Hans-CN", "zh-TW", "eng", "de-CH", "en-GB"]),
                         r.choice(self.ROLES))
    ROLES = ["http://www.xbrl.org/2003/role/label", "http://www.xbrl.org/2003/role/verboseLabel", "http://www.xbrl.org/2003/role/terseLabel",
             "http://www.xbrl.org/2003/role/totalLabel", "http://www.xbrl.org/2003/role/documentation", "http://x/role/mine"]

    def labels(self):
        return [self.make_b("BrelLabel") for _ in range(self.r.choice([0, 0, 1, 2, 3, 5]))]

    def make_b(self, name):
        return self.pooled(name, getattr(self, "mk_" + name))

    def mk_BrelReference(self):
        from brel.resource import BrelReference
        return BrelReference({"Name": "n"}, "l", "r")

    def mk_BrelFootnote(self):
        from brel.resource.brel_footnote import BrelFootnote
        r = self.r
        return BrelFootnote(self.str_(), r.choice(["l1", "l2"]), r.choice(["en", "de"]), r.choice(["http://r/1", "http://www.xbrl.org/2003/role/footnote"]),
                            self.opt(self.ident), self.opt(self.str_))

    def mk_IResource(self):
        return self.make_b(self.r.choice(["BrelLabel", "BrelReference", "BrelFootnote"]))

    # ---- aspects
    def mk_Aspect(self):
        from brel.characteristics import Aspect
        r = self.r
        if r.random() < 0.45:
            return r.choice([Aspect.CONCEPT, Aspect.PERIOD, Aspect.ENTITY, Aspect.UNIT])
        return Aspect(r.choice(["p:ax", "p:by", "q:ax", "entity", "zz", "A", "unit", "p:axis", "P:ax", "ax", "Period", "CONCEPT", "p", "Unit", ""]), self.labels())

    # ---- report elements
    def _re(self, cls):
        return cls(self.make_b("QName"), self.opt(self.ident), self.labels())

    def mk_Concept(self):
        from brel.reportelements import Concept
        r = self.r
        return Concept(self.make_b("QName"), self.opt(self.ident), self.labels(), r.choice(["instant", "duration"]),
                       r.choice(["credit", "debit", "credit", "debit", None]), r.random() < .5,
                       r.choice(["xbrli:monetaryItemType", "xbrli:integerItemType", "xbrli:booleanItemType", "xbrli:stringItemType",
                                 "dtr:percentItemType", "monetaryItemType", "x:yItemType", "xbrli:decimalItemType", "xbrli:sharesItemType", "xbrli:dateItemType"]))

    def mk_Abstract(self):
        from brel.reportelements import Abstract
        return self._re(Abstract)

    def mk_LineItems(self):
        from brel.reportelements import LineItems
        return self._re(LineItems)

    def mk_Hypercube(self):
        from brel.reportelements import Hypercube
        return self._re(Hypercube)

    def mk_Member(self):
        from brel.reportelements import Member
        return self._re(Member)

    def mk_Dimension(self):
        from brel.reportelements import Dimension
        d = self._re(Dimension)
        if self.r.random() < .4:
            d.make_typed(self.make_b("QName"))
        return d

    def mk_IReportElement(self):
        return self.make_b(self.r.choice(["Concept", "Concept", "Abstract", "LineItems", "Hypercube", "Member", "Dimension"]))

    # ---- characteristics
    def mk_PeriodCharacteristic(self):
        from brel.characteristics import PeriodCharacteristic as P
        r = self.r
        d = sorted("%04d-%02d-%02d" % (r.choice([2020, 2021]), r.choice([1, 2]), r.choice([1, 2, 28])) for _ in range(2))
        return P._instant(d[0]) if r.random() < .5 else P._duration(d[0], d[1])

    def mk_EntityCharacteristic(self):
        from brel.characteristics import EntityCharacteristic as E
        return E(self.r.choice(["e1", "e2", "E1"]), self.r.choice(["http://s1", "http://s2", "http://s1/", "HTTP://s1"]))

    def mk_UnitCharacteristic(self):
        from brel.characteristics import UnitCharacteristic as U
        r = self.r
        return U(r.choice(["usd", "eur", "usdPerShare", "USD"]), [self.make_b("QName") for _ in range(r.choice([1, 1, 2, 0]))],
                 [self.make_b("QName") for _ in range(r.choice([0, 0, 1, 2]))])

    def mk_ConceptCharacteristic(self):
        from brel.characteristics import ConceptCharacteristic as C
        return C(self.make_b("Concept"))

    def mk_ExplicitDimensionCharacteristic(self):
        from brel.characteristics import ExplicitDimensionCharacteristic as X
        return X(self.make_b("Dimension"), self.make_b("Member"), self.dim_aspect())

    def mk_TypedDimensionCharacteristic(self):
        from brel.characteristics import TypedDimensionCharacteristic as T
        return T(self.make_b("Dimension"), self.r.choice(["1", "2", "v", "V", "1.0"]), self.dim_aspect())

    def dim_aspect(self):
        from brel.characteristics import Aspect
        return self.pooled("DimAspect", lambda: Aspect(self.r.choice(["p:ax", "p:by", "q:ax", "zz", "p:axis", "P:ax", "ax", "Entity", "UNIT"]), self.labels()), 4)

    def mk_ICharacteristic(self):
        return self.make_b(self.r.choice(["PeriodCharacteristic", "EntityCharacteristic", "UnitCharacteristic", "ConceptCharacteristic",
                                          "ExplicitDimensionCharacteristic", "TypedDimensionCharacteristic"]))

    # ---- contexts and facts
    def mk_Context(self):
        from brel import Context
        r = self.r
        c = Context(r.choice(["c1", "c2", "c3", "C1"]))
        cs = [self.make_b("ConceptCharacteristic")]
        for n, p in [("PeriodCharacteristic", .8), ("EntityCharacteristic", .8), ("UnitCharacteristic", .6),
                     ("ExplicitDimensionCharacteristic", .3), ("TypedDimensionCharacteristic", .3), ("ExplicitDimensionCharacteristic", .2)]:
            if r.random() < p:
                cs.append(self.make_b(n))
        r.shuffle(cs)
        for x in cs:
            c._add_characteristic(x)
        return c

    def mk_Fact(self):
        from brel import Fact
        r = self.r
        return Fact(self.make_b("Context"), self.str_() if r.random() < .5 else r.choice(["1", "2", "3", "0", "-1", "5", "10"]), self.opt(self.ident),
                    self.opt(lambda: r.choice([0.0, -3.0, 2.0])), self.opt(lambda: r.choice([1.0, 5.0])))

    # ---- networks
    ROLE = ["http://role/1", "http://role/2", "http://role/3", "http://role/1/sub", "http://ROLE/1"]
    ARCS = ["http://arc/1", "http://arc/2", "http://other/arc/1"]

    def _nodes(self, cls, depth, common):
        r = self.r
        if depth <= 0:
            n = 0
        else:
            n = r.choice([0, 1, 1, 2, 3] + [7] * (depth == 1)) if depth < 3 else r.choice([1, 2, 3])
        ch = []
        pool = self.pools.setdefault("node:" + cls.__name__ + str(depth), [])
        for _ in range(n):
            if self.nets_share and pool and r.random() < .3:
                ch.append(r.choice(pool))
            else:
                x = self._node(cls, self._nodes(cls, depth - 1, common), common)
                pool.append(x)
                ch.append(x)
        return ch

    def _node(self, cls, children, common):
        r = self.r
        role, lname = common
        n = cls.__name__
        arc = r.choice(self.ARCS)
        an = self.make_b("QName")
        order = float(r.choice([1, 2, 3, 0.5, 10, 0, -1]))
        if n == "CalculationNetworkNode":
            return cls(self.make_b("Concept"), children, arc, an, role, lname, r.choice([1.0, -1.0, 0.0, 2.0, 1.0, 1.0]), order)
        if n == "PresentationNetworkNode":
            return cls(self.mk_IReportElement(), children, arc, an, role, lname, self.opt(lambda: r.choice(self.ROLES)), order)
        if n == "DefinitionNetworkNode":
            return cls(self.mk_IReportElement(), children, arc, an, role, lname, order)
        if n == "FootnoteNetworkNode":
            return cls(self.make_b(r.choice(["Fact", "BrelFootnote", "Concept"])), children, arc, an, role, lname, order)
        if n == "ReferenceNetworkNode":
            return cls(self.make_b(r.choice(["BrelReference", "Concept"])), children, arc, an, role, lname, order)
        if n == "LabelNetworkNode":
            x = cls(self.make_b(r.choice(["BrelLabel", "Concept"])), arc, an, role, lname)
            for c in children:
                x._add_child(c)
            return x
        raise NotImplementedError(n)

    def _net(self, kind):
        import brel.networks as N
        r = self.r
        cls = getattr(N, kind + "Network")
        ncls = getattr(N, kind + "NetworkNode")
        common = (r.choice(self.ROLE), self.make_b("QName"))
        depth = r.choice([0, 1, 2, 3])
        roots = [self._node(ncls, self._nodes(ncls, depth, common), common) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        return cls(roots, common[0], common[1], r.random() < .5)

    def mk_CalculationNetwork(self): return self._net("Calculation")
    def mk_PresentationNetwork(self): return self._net("Presentation")
    def mk_DefinitionNetwork(self): return self._net("Definition")
    def mk_FootnoteNetwork(self): return self._net("Footnote")
    def mk_ReferenceNetwork(self): return self._net("Reference")
    def mk_LabelNetwork(self): return self._net("Label")

    def mk_INetwork(self):
        return self.make_b(self.r.choice(["CalculationNetwork", "PresentationNetwork", "DefinitionNetwork", "FootnoteNetwork", "LabelNetwork"]))

    def _onenode(self, kind):
        import brel.networks as N
        ncls = getattr(N, kind + "NetworkNode")
        common = (self.r.choice(self.ROLE), self.make_b("QName"))
        return self._node(ncls, self._nodes(ncls, self.r.choice([0, 1, 2, 3]), common), common)

    def mk_CalculationNetworkNode(self): return self._onenode("Calculation")
    def mk_PresentationNetworkNode(self): return self._onenode("Presentation")
    def mk_DefinitionNetworkNode(self): return self._onenode("Definition")
    def mk_FootnoteNetworkNode(self): return self._onenode("Footnote")
    def mk_ReferenceNetworkNode(self): return self._onenode("Reference")
    def mk_LabelNetworkNode(self): return self._onenode("Label")
    def mk_INetworkNode(self): return self._onenode(self.r.choice(["Calculation", "Presentation", "Definition", "Footnote", "Label"]))

    def mk_Component(self):
        from brel.brel_component import Component
        r = self.r
        return Component(r.choice(self.ROLE), r.choice(["info", "", "i2"]), self.opt(lambda: self.make_b("PresentationNetwork")),
                         self.opt(lambda: self.make_b("CalculationNetwork")), self.opt(lambda: self.make_b("DefinitionNetwork")))

    # ---- errors
    def mk_ErrorInstance(self):
        from brel.errors.error_instance import ErrorInstance
        from brel.errors.severity import Severity
        from brel.errors.area import Area
        r = self.r
        return ErrorInstance(r.choice(list(Severity)), r.choice(list(Area)), str(r.randint(0, 5)), "m", self.opt(lambda: "h"), None)
