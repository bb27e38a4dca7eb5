"""Symbolic execution of Python functions (AST) into proof obligations.

Loops over lists of unknown length are summarised by *folds* (uninterpreted functions of the list prefix processed so
far) and related to one another by induction over that prefix; recursive functions by uninterpreted functions of their
arguments, related by induction over the recursion (partial correctness)."""
import ast, time, builtins as _bi, fractions, datetime
import z3
from .smt import *
from . import smt
from .loader import *
from .values import *

NILL = L.nil


def sv(s):
    return V.s(z3.StringVal(s))


def clsv(q):
    return V.cls(z3.StringVal(q))


class Fold:
    pass


class RecInfo:
    def __init__(self):
        self.ty, self.excs, self.done = None, set(), False


class Ctx:
    def __init__(self, prefix, key):
        self.prefix, self.taken, self.pending, self.key, self.ops = prefix, [], [], key, 0


BUILTIN_EXC = {n for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}
FROZEN_KINDS = ("flist", "rec", "fdict")

# lxml / datetime observers: pure functions of the (immutable) external object
T_AT = Ty("ext", cls="lxml.etree._Attrib")
T_EL = Ty("ext", cls="lxml.etree._Element")
EXT_METHODS = {
    ("_Element", "get"): union([STR, NONE]), ("_Attrib", "get"): union([STR, NONE]),
    ("_Element", "find"): union([T_EL, NONE]),
    ("_Element", "findall"): Ty("list", [T_EL]),
    ("_Element", "xpath"): Ty("list", [T_EL]),
    ("_Element", "itertext"): Ty("list", [STR]),
    ("_Element", "getchildren"): Ty("list", [T_EL]),
    ("_Element", "getparent"): union([T_EL, NONE]),
    ("_Element", "iterchildren"): Ty("list", [T_EL]), ("_Element", "iterdescendants"): Ty("list", [T_EL]),
    ("date", "isoformat"): STR, ("date", "strftime"): STR,
    ("datetime", "date"): Ty("ext", cls="datetime.date"),
}
EXT_FUNCS = {       # deterministic library functions, uninterpreted
    "locale.getdefaultlocale": Ty("tuple", [union([STR, NONE]), union([STR, NONE])]),
    "os.path.join": STR, "os.path.basename": STR, "os.path.dirname": STR, "os.path.normpath": STR, "os.path.abspath": STR, "posixpath.normpath": STR, "os.path.isfile": BOOL, "os.path.isdir": BOOL,
    "urllib.parse.urljoin": STR,
    "urllib.parse.urlparse": Ty("ext", cls="urllib.parse.ParseResult"),
    "io.BytesIO": Ty("ext", cls="io.BytesIO"),
    "datetime.datetime": Ty("ext", cls="datetime.datetime"),
}
EXT_ATTRS = {
    ("_Element", "text"): union([STR, NONE]), ("_Element", "tail"): union([STR, NONE]), ("_Element", "tag"): STR,
    ("_Element", "prefix"): union([STR, NONE]),
    ("ParseResult", "path"): STR,
    ("date", "year"): INT, ("date", "month"): INT, ("date", "day"): INT,
}


class Interp:
    def __init__(self, loader, contracts=None, observers=(), budget=60.0, externals=None):
        self.ld = loader
        self.contracts = contracts or {}
        self.observers = set(observers)
        self.noeffect, self.effective = {}, set()
        self.explorations = 0
        self.use_witness = False
        self.pure = set((contracts or {}).get('$pure', ()))
        self.externals = externals or {}
        self.memo, self.force = {}, set()
        self.inc = Inc()
        self.deadline = time.time() + budget
        self.clsids, self.idcls = {}, []
        self.static_ids = {}
        self.obligations = []
        self.assumptions = set()
        self.int_texts = {}          # texts str(n) of integers
        self.under_contract = set()
        self.called = set()
        self.verifying = None
        self.depth = 0
        self.st = State()
        self.ctx = Ctx((), ())
        self.axdone = set()
        self.keep = []
        self.readlog = set()

    # ------------------------------------------------------------------ exploration
    def ctxkey(self, tag):
        self.ctx.ops += 1
        return (self.ctx.key, tag, tuple(self.ctx.taken), self.ctx.ops)

    def explore(self, st0, run, tag, limit=4000):
        res, stack = [], [()]
        if tag == "law" or tag == "sortkey":
            k = self.ctxkey("explore:" + tag)
        else:
            # the result is remembered and the exploration skipped when a path is run again: its key must not disturb (or meet) the numbering of the path's own keys
            self.explorations += 1
            k = (self.ctx.key, "explore:" + tag, self.explorations)
        n = 0
        while stack:
            pref = stack.pop()
            saved = (self.st, self.ctx)
            self.st, self.ctx = st0.clone(), Ctx(pref, k)
            try:
                out = run()
                res.append((self.st, out))
            except Infeasible:
                pass
            finally:
                pend = self.ctx.pending
                self.st, self.ctx = saved
            stack.extend(pend)
            n += 1
            if n > limit:
                raise Unsupported("more than %d paths in %s" % (limit, tag))
        return res

    def tick(self):
        if time.time() > self.deadline:
            raise Timeout("time budget exhausted")

    def branch(self, c):
        """decide a boolean term, forking when both outcomes are possible"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.tick()
        st, ctx = self.st, self.ctx
        nc = z3.simplify(z3.Not(c))
        if c.get_id() in st.pcset:
            return True
        if nc.get_id() in st.pcset:
            return False
        i = len(ctx.taken)
        if i < len(ctx.prefix):
            d = ctx.prefix[i]
            ctx.taken.append(d)
        else:
            ft = self.inc.feasible(st.pc, c)
            if not ft:
                # ctx decisions stay deterministic: record forced outcome too
                d = False
                if not self.inc.feasible(st.pc, nc):
                    raise Infeasible()
            elif not self.inc.feasible(st.pc, nc):
                d = True
            else:
                d = True
                ctx.pending.append(tuple(ctx.taken) + (False,))
            ctx.taken.append(d)
        st.assume(c if d else nc)
        return d

    def fresh(self, prefix, sort=V):
        self.st.n += 1
        return z3.Const("%s_%d" % (prefix, self.st.n), sort)

    # ------------------------------------------------------------------ classes and types
    def cid(self, c):
        if c.qual not in self.clsids:
            self.clsids[c.qual] = len(self.clsids) + 1
            self.idcls.append(c)
        return self.clsids[c.qual]

    def inst_cond(self, t, classes):
        ids = [self.cid(c) for c in classes]
        if not ids:
            return z3.BoolVal(False)
        return z3.And(V.is_o(t), z3.Or([clsof(V.ov(t)) == i for i in ids]))

    def typefact(self, t, ty):
        k = ty.kind
        if k == "none":
            return t == V.none
        if k == "int":
            return V.is_i(t)
        if k == "str":
            return V.is_s(t)
        if k == "bool":
            return V.is_b(t)
        if k == "float":
            return z3.Or(V.is_r(t), V.is_i(t)) if False else V.is_r(t)
        if k == "cls":
            if ty.cls.is_enum():
                return z3.Or([t == clsv("enum:%s.%s" % (ty.cls.qual, m)) for m in ty.cls.attrs])
            cs = ty.cls.concrete_subclasses()
            f = z3.And(V.is_o(t), V.ov(t) <= 0)
            return z3.And(f, z3.Or([clsof(V.ov(t)) == self.cid(c) for c in cs])) if cs else f
        if k in ("list", "dict", "set"):
            return z3.And(V.is_o(t), V.ov(t) <= 0)
        if k == "flist":
            return V.is_fl(t)
        if k == "fdict":
            return V.is_fd(t)
        if k == "rec":
            return V.is_rec(t)
        if k == "tuple":
            f = [V.is_tup(t)]
            l = V.tv(t)
            for a in reversed(ty.args):
                f.append(L.is_snoc(l))
                f.append(self.typefact(L.last(l), a))
                l = L.init(l)
            f.append(l == NILL)
            return z3.And(f)
        if k == "ext":
            return V.is_dt(t) if self.is_date(ty) else V.is_ext(t)
        if k == "type":
            cs = self.type_cands(ty)
            return z3.And(V.is_cls(t), z3.Or([t == clsv(c.qual) for c in cs])) if cs else V.is_cls(t)
        if k == "union":
            return z3.Or([self.typefact(t, m) for m in ty.args])
        if k == "aobj":
            return V.is_o(t)
        return z3.BoolVal(True)

    def type_cands(self, ty):
        a = ty.args[0] if ty.args else ANY
        if a.kind == "cls":
            return [c for c in self.ld.all_classes() if c.subclass_of(a.cls)]
        return []

    def is_date(self, ty):
        return ty.kind == "ext" and ty.cls.split(".")[-1] in ("date", "datetime") and ty.cls.startswith("datetime")

    def sym(self, t, ty):
        """symbolic value of a declared type; the type fact becomes an assumption on the path"""
        t = z3.simplify(t)
        if ty.kind != "any":
            self.st.assume(self.typefact(t, ty))
        return self.norm(Sym(t, ty))

    def norm(self, s):
        """constant symbolic terms become python values"""
        t = s.t
        if z3.is_app(t):
            d = t.decl().name()
            if d == "none":
                return None
            if d == "b" and t.num_args() == 1:
                if z3.is_true(t.arg(0)):
                    return True
                if z3.is_false(t.arg(0)):
                    return False
            if d == "i" and t.num_args() == 1 and z3.is_int_value(t.arg(0)):
                return t.arg(0).as_long()
            if d == "s" and t.num_args() == 1 and z3.is_string_value(t.arg(0)):
                return self.pystr(t.arg(0))
            if d == "o" and t.num_args() == 1 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() in self.st.objs:
                return Ref(t.arg(0).as_long())
            if d == "cls" and t.num_args() == 1 and z3.is_string_value(t.arg(0)):
                q = self.pystr(t.arg(0))
                v = self.cls_by_qual(q)
                if v is not None:
                    return v
            if d == "tup" and t.num_args() == 1:
                out, l = [], t.arg(0)
                while z3.is_app(l) and l.decl().name() == "snoc":
                    out.append(l.arg(1))
                    l = l.arg(0)
                if z3.is_app(l) and l.decl().name() == "nil":
                    tys = s.ty.args if s.ty.kind == "tuple" and len(s.ty.args) == len(out) else [ANY] * len(out)
                    return tuple(self.norm(Sym(x, ty)) for x, ty in zip(reversed(out), tys))
        return s

    def pystr(self, t):
        s = t.as_string()
        import re
        return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)

    def cls_by_qual(self, q):
        if q.startswith("enum:"):
            cq, m = q[5:].rsplit(".", 1)
            mod, n = cq.split(":")
            r = self.ld.lookup(self.ld.module(mod), n)
            return EnumVal(r[1], m)
        if q.startswith("builtin:"):
            return BCls(q[8:])
        if ":" in q:
            mod, n = q.split(":")
            m = self.ld.module(mod)
            r = m and self.ld.lookup(m, n)
            if r and r[0] == "class":
                return ClassVal(r[1])
        return None

    def typeof(self, v):
        if v is None:
            return NONE
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return INT
        if isinstance(v, (float, fractions.Fraction)):
            return FLOAT
        if isinstance(v, str):
            return STR
        if isinstance(v, datetime.date):
            return Ty("ext", cls="datetime.date")
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, tuple):
            return Ty("tuple", [self.typeof(x) for x in v])
        if isinstance(v, EnumVal):
            return Ty("cls", cls=v.c)
        if isinstance(v, ClassVal):
            return Ty("type", [Ty("cls", cls=v.c)])
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            if isinstance(o, ListObj):
                e = [p[2] if p[0] == "l" else self.typeof(p[1]) for p in o.parts]
                return Ty("flist", [union(e) if e else ANY])
            if isinstance(o, DictObj):
                return Ty("fdict")
            if isinstance(o, Inst):
                return Ty("rec", cls=o.cls)
        return ANY

    # ------------------------------------------------------------------ terms
    def term(self, v, base=None):
        """V-term of a value. Objects allocated at or after `base` are frozen into structural values."""
        if v is None:
            return V.none
        if isinstance(v, bool):
            return V.b(z3.BoolVal(v))
        if isinstance(v, int):
            return V.i(z3.IntVal(v))
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return V.r(z3.Real("float_" + str(v)))      # some number of which nothing is known
            return V.r(z3.RealVal(str(fractions.Fraction(v))))
        if isinstance(v, fractions.Fraction):
            return V.r(z3.RealVal(str(v)))
        if isinstance(v, str):
            return sv(v)
        if isinstance(v, datetime.date):
            return V.dt(z3.IntVal(v.toordinal()))
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, tuple):
            t = NILL
            for x in v:
                t = L.snoc(t, self.term(x, base))
            return V.tup(t)
        if isinstance(v, EnumVal):
            return clsv("enum:%s.%s" % (v.c.qual, v.name))
        if isinstance(v, ClassVal):
            return clsv(v.c.qual)
        if isinstance(v, BCls):
            return clsv("builtin:" + v.name)
        if isinstance(v, Ref):
            if base is None or v.id < base:
                return V.o(z3.IntVal(v.id))
            o = self.st.objs[v.id]
            if isinstance(o, ListObj):
                return V.fl(self.to_l(o.parts, base))
            if isinstance(o, DictObj) and o.items is not None:
                t = NILL
                for k, x in o.items:
                    t = L.snoc(L.snoc(t, self.term(k, base)), self.term(x, base))
                return V.fd(t)
            if isinstance(o, DictObj):
                raise Unsupported("freeze symbolic dict")
            if isinstance(o, Inst):
                t = NILL
                for f in sorted(o.fields):
                    t = L.snoc(t, self.term(o.fields[f], base))
                return V.rec(z3.StringVal(o.cls.qual), t)
            raise Unsupported("freeze set")
        raise Unsupported("no term for %r" % (v,))

    def to_l(self, parts, base=None):
        t = NILL
        for p in parts:
            if p[0] == "e":
                t = L.snoc(t, self.term(p[1], base))
            else:
                if z3.is_app(t) and t.decl().name() == "nil":
                    t = p[1]
                else:
                    t = self.cat(t, p[1])
        return t

    def cat(self, a, b):
        b = z3.simplify(b)
        if b.decl().name() == "nil":
            return a
        if b.decl().name() == "snoc":
            return L.snoc(self.cat(a, b.arg(0)), b.arg(1))
        if z3.simplify(a).decl().name() == "nil":
            return b
        c = lcat(a, b)
        self.st.assume(z3.Implies(b == NILL, c == a))
        self.st.assume(z3.Implies(a == NILL, c == b))
        return c

    def lenof(self, l):
        l = z3.simplify(l)
        n = 0
        while l.decl().name() == "snoc":
            l, n = l.arg(0), n + 1
        if l.decl().name() == "nil":
            return z3.IntVal(n)
        if l.decl().name().startswith("sort_"):
            return self.lenof(l.arg(1)) + n
        t = llen(l)
        self.st.assume(t >= 0)
        self.st.assume((t == 0) == (l == NILL))
        if l.decl().name() == "lcat":
            self.st.assume(t == self.lenof(l.arg(0)) + self.lenof(l.arg(1)))
        # length one / more
        self.st.assume(z3.Implies(t == 1, l == L.snoc(NILL, lnth(l, z3.IntVal(0)))))
        return t + n if n else t

    # ------------------------------------------------------------------ heap
    def alloc(self, o):
        i = self.st.nid
        self.st.nid += 1
        self.st.objs[i] = o
        return Ref(i)

    def new_list(self, vals):
        return self.alloc(ListObj([("e", v) for v in vals]))

    def wrote(self, key):
        self.st.wlog.add(key)
        self.bump(key)

    def bump(self, key):
        st = self.st
        if key[0] in ("cont", "fld"):
            st.over[key[1]] = st.over.get(key[1], 0) + 1
        else:
            st.ver += 1

    def list_obj(self, ref, write=False):
        o = self.st.objs[ref.id]
        if write:
            o.prov = None
            self.wrote(("cont", ref.id))
        return o

    # ------------------------------------------------------------------ truth
    def truth_t(self, v):
        """python bool or z3 Bool"""
        if v is None or isinstance(v, (bool, int, float, str, tuple, fractions.Fraction, datetime.date)):
            return bool(v)
        if isinstance(v, Sym):
            conds = []
            for m in v.ty.members() if v.ty.kind != "any" else [ANY]:
                conds += self._truth_member(v.t, m)
            return z3.simplify(z3.Or(conds)) if conds else False
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            if isinstance(o, ListObj):
                if any(p[0] == "e" for p in o.parts):
                    return True
                return z3.Or([p[1] != NILL for p in o.parts]) if o.parts else False
            if isinstance(o, DictObj):
                return bool(o.items) if o.items is not None else o.keys != NILL
            if isinstance(o, SetObj):
                if o.items is not None:
                    return bool(o.items)
                raise Unsupported("truth of symbolic set")
            if isinstance(o, Inst):
                c, m = o.cls.find_method("__bool__")
                if m is not None:
                    return self.truth_t(self.call(self.getattr(v, "__bool__"), [], {}))
                c, m = o.cls.find_method("__len__")
                if m is not None:
                    return self.truth_t(self.call(self.getattr(v, "__len__"), [], {}))
                return True
        return True

    def _truth_member(self, t, m):
        k = m.kind
        if k == "none":
            return []
        if k == "bool":
            return [z3.And(V.is_b(t), V.bv(t))]
        if k == "int":
            return [z3.And(V.is_i(t), V.iv(t) != 0)]
        if k == "float":
            return [z3.And(V.is_r(t), V.rv(t) != 0)]
        if k == "str":
            return [z3.And(V.is_s(t), V.sv(t) != z3.StringVal(""))]
        if k == "cls":
            if m.cls.is_enum():
                return [V.is_cls(t)]
            for c in m.cls.concrete_subclasses():
                if c.find_method("__bool__")[1] is not None or c.find_method("__len__")[1] is not None:
                    b = self.call(self.getattr(Sym(t, m), "__bool__"), [], {})
                    return [z3.And(V.is_o(t), self.as_bool_term(self.truth_t(b)))]
            return [V.is_o(t)]
        if k == "list":
            return [z3.And(V.is_o(t), z3.Select(self.st.larr, V.ov(t)) != NILL)]
        if k == "flist":
            return [z3.And(V.is_fl(t), V.lv(t) != NILL)]
        if k in ("ext", "type", "rec", "aobj", "callable"):
            return [z3.And(t != V.none)]
        if k == "dict":
            return [z3.And(V.is_o(t), z3.Select(self.st.dkeys, V.ov(t)) != NILL)]
        if k == "tuple":
            return [z3.BoolVal(bool(m.args))]
        if k == "any":
            if self.is_const_tag(t):
                pass
            raise Unsupported("truth value of a value of unknown type")
        raise Unsupported("truth of " + k)

    def is_const_tag(self, t):
        return False

    def as_bool_term(self, b):
        return z3.BoolVal(b) if isinstance(b, bool) else b

    def test(self, v):
        return self.branch(self.truth_t(v))

    def mkbool(self, c):
        if isinstance(c, bool):
            return c
        return self.norm(Sym(z3.simplify(V.b(c)), BOOL))

    # ------------------------------------------------------------------ narrowing
    def narrow(self, v):
        """for a union-typed symbolic value: fork on the kind so that one member remains"""
        if not isinstance(v, Sym) or v.ty.kind != "union":
            return v
        ms = v.ty.members()
        for i, m in enumerate(ms):
            if i == len(ms) - 1:
                self.st.assume(self.typefact(v.t, m))
                return self.norm(Sym(v.t, m))
            if m.kind == "cls" and any(o.kind == "cls" for o in ms[i + 1:]) and not m.cls.is_enum():
                # keep class members together
                rest = [o for o in ms if o.kind == "cls"]
                c = z3.Or([self.typefact(v.t, o) for o in rest])
                if self.branch(c):
                    return self.norm(Sym(v.t, union(rest)) if len(rest) > 1 else Sym(v.t, rest[0]))
                return self.narrow(Sym(v.t, union([o for o in ms if o.kind != "cls"])))
            if self.branch(self.typefact(v.t, m)):
                return self.norm(Sym(v.t, m))
        return v

    def excl(self, name):
        return PyRaise(ExcVal(name))

    # ------------------------------------------------------------------ equality
    def eq(self, a, b):
        """value of a == b as python bool or z3 Bool"""
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("comparison of an unsummarised loop variable")
        sc = (bool, int, float, str, type(None), fractions.Fraction)
        if isinstance(a, sc) and isinstance(b, sc):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = [self.eq(x, y) for x, y in zip(a, b)]
            if any(c is False for c in cs):
                return False
            cs = [c for c in cs if c is not True]
            return z3.And(cs) if cs else True
        if isinstance(a, tuple) and isinstance(b, Sym) or isinstance(a, Sym) and isinstance(b, tuple):
            return self.term(a) == self.term(b)
        if isinstance(a, (ClassVal, EnumVal, BCls)) and isinstance(b, (ClassVal, EnumVal, BCls)):
            return z3.simplify(self.term(a) == self.term(b)).eq(z3.BoolVal(True))
        if isinstance(a, FuncVal) or isinstance(b, FuncVal):
            raise Unsupported("function equality")
        # objects with their own __eq__
        for x, y in ((a, b), (b, a)):
            r = self.custom_eq(x, y)
            if r is not None:
                return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.st.objs[a.id], self.st.objs[b.id]
            if a.id == b.id:
                return True
            if isinstance(oa, ListObj) and isinstance(ob, ListObj):
                if all(p[0] == "e" for p in oa.parts + ob.parts):
                    return self.eq(tuple(p[1] for p in oa.parts), tuple(p[1] for p in ob.parts))
                return self.to_l(oa.parts, 1 << 60) == self.to_l(ob.parts, 1 << 60)
            if isinstance(oa, DictObj) and isinstance(ob, DictObj):
                return self.dict_eq(oa, ob)
            if isinstance(oa, SetObj) and isinstance(ob, SetObj):
                return self.set_arr(oa) == self.set_arr(ob)
            return False
        if isinstance(a, Ref) or isinstance(b, Ref):
            r, o = (a, b) if isinstance(a, Ref) else (b, a)
            ob = self.st.objs[r.id]
            if isinstance(ob, ListObj) and isinstance(o, Sym) and o.ty.kind in ("list", "flist"):
                lt = z3.Select(self.st.larr, V.ov(o.t)) if o.ty.kind == "list" else V.lv(o.t)
                return self.to_l(ob.parts) == lt
            if isinstance(ob, (ListObj, DictObj, SetObj)) and isinstance(o, Sym) and o.ty.kind in ("union", "any"):
                o2 = self.narrow(o)
                if o2 is not o:
                    return self.eq(r, o2)
                raise Unsupported("list equality with a value of unknown type")
            if isinstance(o, Sym):
                return self.term(r) == o.t
            return False
        num = lambda v: isinstance(v, (int, float, fractions.Fraction)) and not isinstance(v, bool) or isinstance(v, Sym) and v.ty.kind in ("int", "float")
        if num(a) and num(b):
            ka, kb = self.typeof(a).kind, self.typeof(b).kind
            if ka == kb == "int":
                return self.as_int(a) == self.as_int(b)
            if any(isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))) for x in (a, b)):
                return self.term(a) == self.term(b)
            return self.as_real(a) == self.as_real(b)
        if isinstance(a, Sym) and isinstance(b, Sym) and a.ty.kind == b.ty.kind == "list":
            la, lb = z3.Select(self.st.larr, V.ov(a.t)), z3.Select(self.st.larr, V.ov(b.t))
            return z3.Or(a.t == b.t, la == lb)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.ty.kind == "str" and isinstance(y, str) and z3.simplify(self.as_str(x)).get_id() in self.int_texts and not y.lstrip("-").isdecimal():
                return False                # the text of an integer
        ta, tb = self.term(a), self.term(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.ty.kind in ("any", "union") and isinstance(y, (int, float)) and not isinstance(y, bool) and y == y and y not in (float("inf"), float("-inf")):
                return z3.Or(x.t == V.i(z3.IntVal(int(y))) if y == int(y) else False, x.t == V.r(z3.RealVal(str(fractions.Fraction(y)))))
        return ta == tb

    def dict_eq(self, a, b):
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return False
            cs = []
            for (k, v) in a.items:
                hit = None
                for (k2, v2) in b.items:
                    c = self.eq(k, k2)
                    if c is True:
                        hit = v2
                    elif c is not False:
                        raise Unsupported("dict equality with symbolic keys")
                if hit is None:
                    if not any(self.eq(k, k2) is True for k2, _ in b.items):
                        return False
                cs.append(self.as_bool_term(self.eq(v, hit)))
            return z3.simplify(z3.And(cs)) if cs else True
        a2, b2 = self.dict_sym(a), self.dict_sym(b)
        return a2[0] == b2[0]

    def custom_eq(self, a, b):
        """a.__eq__(b) when a's class defines it; None if identity semantics apply"""
        if isinstance(a, Ref):
            o = self.st.objs[a.id]
            if not isinstance(o, Inst):
                return None
            classes = [o.cls]
        elif isinstance(a, Sym) and a.ty.kind in ("cls", "union"):
            classes = []
            for m in a.ty.members():
                if m.kind == "cls" and not m.cls.is_enum():
                    classes += m.cls.concrete_subclasses() or [m.cls]
        else:
            return None
        has = [c for c in classes if c.find_method("__eq__")[1] is not None or c.is_dataclass]
        if not has:
            return None
        if isinstance(a, Sym) and isinstance(b, Sym) and a.t.eq(b.t):
            self.assumptions.add("__eq__ methods are reflexive (checked separately in C24/C03 laws)")
            return True
        if isinstance(a, Sym) and a.ty.kind == "union":
            if isinstance(b, (type(None), str, int, bool)) and not isinstance(b, Ref):
                pass
            n = self.narrow(a)
            if not (isinstance(n, Sym) and n.ty.kind == "cls"):
                return self.eq(n, b) if not (isinstance(n, Sym) and n.ty.kind == "union") else None
            a = n
            classes = a.ty.cls.concrete_subclasses()
        if len(set(id(c.find_method("__eq__")[1]) for c in classes)) > 1 and isinstance(a, Sym) and a.ty.kind == "cls" and any("%s.__eq__" % k.name in self.observers for k in a.ty.cls.mro()):
            self.assumptions.add("%s.__eq__ is a total function of the two objects, whatever their classes (contract of the interface)" % a.ty.cls.name)
            f = UF("eq_" + a.ty.cls.name, V, V, B)
            return f(self.term(a), self.term(b))
        if len(classes) > 1:
            # dispatch on the dynamic class
            r = self.dispatch_class(a)
            if isinstance(r, Sym) and r.ty.kind == "cls":
                classes = [r.ty.cls] if r.ty.cls in classes else classes
                a = r
        c = classes[0]
        if c.find_method("__eq__")[1] is not None:
            v = self.call(self.getattr(a, "__eq__"), [b], {})
            return self.truth_t(v)
        if c.is_dataclass:
            b = self.narrow(b)
            cb = self.class_of(b)
            if cb is None:
                if isinstance(b, Sym) and b.ty.kind == "any":
                    raise Unsupported("dataclass equality with a value of unknown type")
                return False
            if cb is not c:
                return False
            cs = [self.as_bool_term(self.eq(self.getattr(a, n), self.getattr(b, n))) for n, _, _, cmp_, _ in c.dc_fields() if cmp_]
            return z3.simplify(z3.And(cs)) if cs else True
        return None

    def class_of(self, v):
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            return o.cls if isinstance(o, Inst) else None
        if isinstance(v, Sym) and v.ty.kind == "cls":
            cs = v.ty.cls.concrete_subclasses()
            if len(cs) == 1:
                return cs[0]
            r = self.dispatch_class(v)
            return r.ty.cls
        return None

    def dispatch_class(self, v):
        """fork on the dynamic class of a symbolic object"""
        cs = v.ty.cls.concrete_subclasses()
        for i, c in enumerate(cs):
            if i == len(cs) - 1 or self.branch(clsof(V.ov(v.t)) == self.cid(c)):
                self.st.assume(clsof(V.ov(v.t)) == self.cid(c))
                return Sym(v.t, Ty("cls", cls=c))
        return v

    def keyterm(self, v):
        """canonical term of a dictionary / set key (respects __eq__/__hash__)"""
        v = self.narrow(v) if isinstance(v, Sym) and v.ty.kind == "union" and any(m.kind == "cls" for m in v.ty.members()) else v
        if isinstance(v, tuple):
            t = NILL
            for x in v:
                t = L.snoc(t, self.keyterm(x))
            return V.tup(t)
        c = None
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            if not isinstance(o, Inst):
                raise self.excl("TypeError")
            c = o.cls
        elif isinstance(v, Sym) and v.ty.kind == "cls" and not v.ty.cls.is_enum():
            cs = v.ty.cls.concrete_subclasses()
            if any(x.is_dataclass or x.find_method("__hash__")[1] is not None or x.find_method("__eq__")[1] is not None for x in cs):
                c = self.class_of(v)
        if c is None:
            if isinstance(v, bool):
                return V.i(z3.IntVal(int(v)))
            return self.term(v)
        if c.is_dataclass:
            t = NILL
            for n, _, _, cmp_, _ in c.dc_fields():
                if cmp_:
                    t = L.snoc(t, self.keyterm(self.getattr(v, n)))
            return V.rec(z3.StringVal("key:" + c.qual), t)
        hc, hm = c.find_method("__hash__")
        ec, em = c.find_method("__eq__")
        if hm is None and em is None:
            return self.term(v)
        if hm is None:
            raise self.excl("TypeError")
        # hash(<expr>) : the key is <expr>, provided __eq__ compares the same expression (law C24/C03 proves it)
        ret = [s for s in hm.body if isinstance(s, ast.Return)]
        if len(ret) == 1 and isinstance(ret[0].value, ast.Call) and isinstance(ret[0].value.func, ast.Name) and ret[0].value.func.id == "hash":
            fr = self.push_frame({"self": v}, None, hc.module, hc, None)
            try:
                kv = self.in_frame(fr, lambda: self.eval(ret[0].value.args[0]))
            finally:
                pass
            return V.rec(z3.StringVal("key:" + c.qual), L.snoc(NILL, self.keyterm(kv)))
        raise Unsupported("hash of " + c.qual)

    # ------------------------------------------------------------------ numbers and strings
    def as_int(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, Sym):
            if v.ty.kind == "int":
                return V.iv(v.t)
            if v.ty.kind == "bool":
                return z3.If(V.bv(v.t), z3.IntVal(1), z3.IntVal(0))
        raise Unsupported("not an int: %r" % (v,))

    def as_real(self, v):
        if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
            raise Unsupported("arithmetic with infinity")
        if isinstance(v, (float, fractions.Fraction)):
            return z3.RealVal(str(fractions.Fraction(v)))
        if isinstance(v, Sym) and v.ty.kind == "float":
            return V.rv(v.t)
        return z3.ToReal(self.as_int(v))

    def as_str(self, v):
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, Sym):
            v = self.narrow(v)
            if isinstance(v, str):
                return z3.StringVal(v)
            if isinstance(v, Sym) and v.ty.kind == "str":
                return V.sv(v.t)
            if isinstance(v, Sym) and v.ty.kind == "any":
                raise Unsupported("string operation on a value of unknown type")
        raise self.excl("TypeError")

    def mkstr(self, t):
        return self.norm(Sym(z3.simplify(V.s(t)), STR))

    def mkint(self, t):
        return self.norm(Sym(z3.simplify(V.i(t)), INT))

    def mkreal(self, t):
        return Sym(z3.simplify(V.r(t)), FLOAT)

    def str_of(self, v):
        """str(v)"""
        if isinstance(v, str):
            return v
        if v is None or isinstance(v, (bool, int)):
            return str(v)
        if isinstance(v, Sym):
            if v.ty.kind == "union":
                v = self.narrow(v)
                return self.str_of(v) if not isinstance(v, Sym) or v.ty.kind != "union" else self.str_dispatch(v)
            if v.ty.kind == "str":
                return v
            if v.ty.kind == "cls" and not v.ty.cls.is_enum():
                return self.str_dispatch(v)
            if v.ty.kind == "ext" and v.ty.cls == "datetime.date":
                return self.isoformat(v.t)
            if v.ty.kind == "int":
                # int(str(n)) == n
                self.st.assume(z3.And(UF("int_ok", S, B)(str_of(v.t)), UF("int_val", S, I)(str_of(v.t)) == V.iv(v.t)))
                x = z3.simplify(str_of(v.t))
                self.int_texts[x.get_id()] = x
            return self.mkstr(str_of(v.t))
        if isinstance(v, Ref) and isinstance(self.st.objs[v.id], Inst):
            return self.str_dispatch(v)
        if isinstance(v, (EnumVal, float, ClassVal, tuple)):
            return self.mkstr(str_of(self.term(v)))
        if isinstance(v, ExcVal):
            return self.mkstr(self.fresh("excmsg", S))
        if isinstance(v, Ref) and isinstance(self.st.objs[v.id], ListObj):
            ps = self.st.objs[v.id].parts
            if all(m.kind in ("str", "int", "none") for p in ps for m in (self.typeof(p[1]) if p[0] == "e" else p[2]).members()):
                return self.mkstr(UF("str_of_list", L, S)(self.to_l(ps)))
        raise Unsupported("str() of %r" % (v if not isinstance(v, Ref) else getattr(self.st.objs[v.id], "parts", None),))

    def isoformat(self, t):
        """ISO text of a date: ten characters, no '/', and different dates have different texts"""
        self.assumptions.add("date.isoformat is injective, has ten characters and no '/'; str(date) is its isoformat")
        x = UF("date_iso", I, S)(V.dtv(t))
        self.st.assume(z3.And(UF("date_of_iso", S, I)(x) == V.dtv(t), UF("is_iso_date", S, B)(x), z3.Length(x) == 10, z3.Not(z3.Contains(x, z3.StringVal("/")))))
        return self.mkstr(x)

    def parse_date(self, args, kw):
        """dateutil.parser.parse: a partial function of the text and the default that reads the ISO text of a date as that date"""
        args = [self.narrow(x) for x in args]
        if len(args) != 1 or set(kw) - {"default"} or self.typeof(args[0]).kind != "str":
            raise Unsupported("dateutil.parser.parse of something else than a text")
        self.assumptions.add("dateutil.parser.parse is a partial function of its arguments (ValueError or OverflowError otherwise); it reads the isoformat text of every date as that date, whatever the default (checked for all 3652059 dates)")
        x = self.as_str(args[0])
        d = self.term(kw["default"]) if "default" in kw else V.none
        ok, res = UF("dateparse_ok", S, V, B)(x, d), V.dt(UF("dateparse", S, V, I)(x, d))
        iso = UF("is_iso_date", S, B)(x)
        day = UF("ext_datetime_date_0", I, V)(V.dtv(res))
        self.st.assume(z3.Implies(iso, z3.And(ok, day == V.dt(UF("date_of_iso", S, I)(x)))))
        if not self.branch(ok):
            if self.branch(UF("dateparse_overflow", S, V, B)(x, d)):
                raise self.excl("OverflowError")
            raise self.excl("ValueError")
        return self.sym(res, Ty("ext", cls="datetime.datetime"))

    def str_dispatch(self, v):
        m = self.getattr(v, "__str__", None)
        if m is None:
            return self.mkstr(str_of(self.term(v)))
        return self.call(m, [], {})

    def binop(self, op, a, b):
        a, b = self.narrow(a), self.narrow(b)
        n = type(op).__name__
        py = (bool, int, str, tuple)
        if isinstance(a, py) and isinstance(b, py):
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Mod": lambda: a % b, "FloorDiv": lambda: a // b,
                        "Pow": lambda: a ** b, "Div": lambda: fractions.Fraction(a) / b, "BitOr": lambda: a | b, "BitAnd": lambda: a & b}[n]()
            except KeyError:
                raise Unsupported("operator " + n)
            except ZeroDivisionError:
                raise self.excl("ZeroDivisionError")
            except TypeError:
                raise self.excl("TypeError")
        ka, kb = self.typeof(a).kind, self.typeof(b).kind
        if n == "Add" and (ka == "str" or kb == "str"):
            if ka == "str" and kb == "str":
                return self.mkstr(z3.Concat(self.as_str(a), self.as_str(b)))
            if "any" in (ka, kb):
                raise Unsupported("+ on unknown type")
            raise self.excl("TypeError")
        if n == "Add" and (self.is_listy(a) and self.is_listy(b)):
            return self.alloc(ListObj(self.parts_of(a) + self.parts_of(b)))
        if n == "BitOr" and isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.st.objs[a.id], SetObj):
            return self.container_method("set", a, "union", [b], {})
        if n == "Sub" and isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.st.objs[a.id], SetObj):
            return self.container_method("set", a, "difference", [b], {})
        if n == "Mod" and ka == "str":
            raise Unsupported("% formatting")
        if n == "Mult" and {ka, kb} in ({"str", "int"}, {"str", "bool"}):
            x, k = (a, b) if ka == "str" else (b, a)
            return self.str_repeat(self.as_str(x), self.as_int(k))
        num = ("int", "float", "bool")
        if ka in num and kb in num:
            if "float" in (ka, kb) or n == "Div":
                x, y = self.as_real(a), self.as_real(b)
                if n == "Add":
                    return self.mkreal(x + y)
                if n == "Sub":
                    return self.mkreal(x - y)
                if n == "Mult":
                    return self.mkreal(x * y)
                if n == "Div":
                    if self.branch(y == 0):
                        raise self.excl("ZeroDivisionError")
                    return self.mkreal(x / y)
                raise Unsupported("real operator " + n)
            x, y = self.as_int(a), self.as_int(b)
            if n == "Add":
                return self.mkint(x + y)
            if n == "Sub":
                return self.mkint(x - y)
            if n == "Mult":
                return self.mkint(x * y)
            raise Unsupported("int operator " + n)
        if "any" in (ka, kb):
            raise Unsupported("%s on a value of unknown type" % n)
        raise self.excl("TypeError")

    def str_repeat(self, x, k):
        r = UF("str_repeat", S, I, S)(x, k)
        self.st.assume(z3.Implies(k <= 0, r == z3.StringVal("")))
        self.st.assume(z3.Implies(k > 0, z3.Length(r) == z3.Length(x) * k))
        if z3.is_string_value(x) and len(x.as_string()) == 1:
            self.st.assume(z3.InRe(r, z3.Star(z3.Re(x))))
        return self.mkstr(r)

    def compare(self, op, a, b):
        n = type(op).__name__
        if n == "Eq":
            return self.mkbool(self.eq(a, b))
        if n == "NotEq":
            e = self.eq(a, b)
            return self.mkbool((not e) if isinstance(e, bool) else z3.Not(e))
        if n in ("Is", "IsNot"):
            e = self.ident(a, b)
            if n == "IsNot":
                e = (not e) if isinstance(e, bool) else z3.Not(e)
            return self.mkbool(e)
        if n in ("In", "NotIn"):
            e = self.contains(b, a)
            if n == "NotIn":
                e = (not e) if isinstance(e, bool) else z3.Not(e)
            return self.mkbool(e)
        a, b = self.narrow(a), self.narrow(b)
        ka, kb = self.typeof(a).kind, self.typeof(b).kind
        num = ("int", "float", "bool")
        f = {"Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "GtE": lambda x, y: x >= y}[n]
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            try:
                return f(a, b)
            except TypeError:
                raise self.excl("TypeError")
        if ka in num and kb in num:
            if "float" in (ka, kb):
                return self.mkbool(f(self.as_real(a), self.as_real(b)))
            return self.mkbool(f(self.as_int(a), self.as_int(b)))
        if ka == kb == "str":
            x, y = self.as_str(a), self.as_str(b)
            return self.mkbool({"Lt": x < y, "LtE": x <= y, "Gt": y < x, "GtE": y <= x}[n])
        if self.is_date(self.typeof(a)) and self.is_date(self.typeof(b)):
            return self.mkbool(f(V.dtv(self.term(a)), V.dtv(self.term(b))))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.compare_tuples(op, a, b)
        if "any" in (ka, kb):
            raise Unsupported("ordering of values of unknown type")
        raise self.excl("TypeError")

    def compare_tuples(self, op, a, b):
        """lexicographic: the first components that differ decide, then the lengths"""
        r = self.as_bool_term(self.truth_t(self.compare(op, len(a), len(b))))
        for x, y in reversed(list(zip(a, b))):
            try:
                r = z3.If(self.as_bool_term(self.eq(x, y)), r, self.as_bool_term(self.truth_t(self.compare(op, x, y))))
            except PyRaise:
                raise Unsupported("ordering of tuples with components of different kinds")
        return self.mkbool(z3.simplify(r))

    def ident(self, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("identity of an unsummarised loop variable")
        for x, y in ((a, b), (b, a)):
            if y is None:
                if x is None:
                    return True
                if isinstance(x, Sym):
                    return x.t == V.none
                return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        return self.term(a) == self.term(b)

    # ------------------------------------------------------------------ containers
    def is_listy(self, v):
        return isinstance(v, Ref) and isinstance(self.st.objs[v.id], ListObj) or isinstance(v, Sym) and v.ty.kind in ("list", "flist")

    def parts_of(self, v):
        if isinstance(v, tuple):
            return [("e", x) for x in v]
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            if isinstance(o, ListObj):
                return list(o.parts)
        if isinstance(v, Sym):
            if v.ty.kind == "list":
                return [("l", z3.simplify(z3.Select(self.st.larr, V.ov(v.t))), v.ty.args[0] if v.ty.args else ANY)]
            if v.ty.kind == "flist":
                return [("l", z3.simplify(V.lv(v.t)), v.ty.args[0] if v.ty.args else ANY)]
        raise Unsupported("not a list: %r" % (v,))

    def set_arr(self, o):
        if o.items is None:
            return o.arr
        a = z3.K(V, z3.BoolVal(False))
        for x in o.items:
            a = z3.Store(a, self.keyterm(x), z3.BoolVal(True))
        return a

    def dict_sym(self, o):
        """(array, keys L) of a dictionary object; converts it to symbolic mode"""
        if o.items is not None:
            arr, keys = z3.K(V, V.absent), NILL
            kt, vt = [], []
            for k, v in o.items:
                arr = z3.Store(arr, self.keyterm(k), self.term(v))
                keys = L.snoc(keys, self.term(k))
                kt.append(self.typeof(k))
                vt.append(self.typeof_elem(v))
            return arr, keys, union(kt) if kt else None, union(vt) if vt else None
        return o.arr, o.keys, o.kty, o.vty

    def typeof_elem(self, v):
        if isinstance(v, Ref):
            return Ty("aobj")
        return self.typeof(v)

    def to_sym_dict(self, o):
        if o.items is not None:
            arr, keys, kt, vt = self.dict_sym(o)
            o.arr, o.keys, o.items = arr, keys, None
            o.kty = kt
            o.vty = vt

    def jty(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return union([a, b])

    def dict_find(self, o, k):
        """concrete mode: index of the entry equal to k or -1; raises Unsupported->None if undecided"""
        for i, (k2, _) in enumerate(o.items):
            e = self.keq(k, k2)
            if e is True:
                return i
            if e is not False:
                if self.branch(e):
                    return i
        return -1

    def keq(self, a, b):
        if isinstance(a, (str, int, type(None))) and isinstance(b, (str, int, type(None))):
            return a == b
        if isinstance(a, EnumVal) and isinstance(b, EnumVal):
            return a.c is b.c and a.name == b.name
        c = z3.simplify(self.keyterm(a) == self.keyterm(b))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return c

    def symdict(self, v):
        """(array, keys, kty, vty) view of a symbolic (initial) dictionary"""
        i = V.ov(v.t)
        kt, vt = (v.ty.args + (ANY, ANY))[:2]
        return z3.Select(self.st.darr, i), z3.Select(self.st.dkeys, i), kt, vt

    def dict_get(self, d, k):
        """(present: bool/Bool, value thunk)"""
        if isinstance(d, Ref):
            o = self.st.objs[d.id]
            if o.items is not None:
                if self.is_concrete_keys(o, k) or len(o.items) <= 6:
                    i = self.dict_find(o, k)
                    return (True, lambda: o.items[i][1]) if i >= 0 else (False, None)
            arr, keys, kt, vt = self.dict_sym(o)
        else:
            arr, keys, kt, vt = self.symdict(d)
        kt_ = self.keyterm(k)
        self.observe(arr, kt_)
        t = z3.simplify(z3.Select(arr, kt_))
        return z3.simplify(t != V.absent), lambda: self.elem(t, vt)

    def elem(self, t, ty):
        t = z3.simplify(t)
        if ty is None:
            ty = ANY
        if ty.kind == "aobj" or ty.kind == "any" or ty.kind == "union" and any(m.kind == "aobj" for m in ty.members()):
            return self.norm(Sym(t, ty))
        # values stored by the code itself carry no declared type fact for allocated objects
        return self.norm(Sym(t, ty))

    def is_concrete_keys(self, o, k):
        c = (str, int, type(None), EnumVal)
        return isinstance(k, c) and all(isinstance(x, c) for x, _ in o.items)

    def dict_set(self, d, k, v):
        if isinstance(d, Sym):
            if d.ty.kind != "dict" or self.fold_base() is not None:
                raise Unsupported("write to a dictionary of unknown origin")
            arr, keys, kt, vt = self.symdict(d)
            i, kt_ = V.ov(d.t), self.keyterm(k)
            self.st.dkeys = z3.Store(self.st.dkeys, i, z3.simplify(z3.If(z3.Select(arr, kt_) == V.absent, L.snoc(keys, self.term(k)), keys)))
            self.st.darr = z3.Store(self.st.darr, i, z3.Store(arr, kt_, self.term(v)))
            self.wrote(("darr",))
            return
        o = self.st.objs[d.id]
        self.wrote(("cont", d.id))
        if o.items is not None:
            if self.is_concrete_keys(o, k) or len(o.items) <= 4 and not self.has_sym(k):
                i = self.dict_find(o, k)
                if i >= 0:
                    o.items[i] = (o.items[i][0], v)
                else:
                    o.items.append((k, v))
                return
            if not o.items:
                o.items.append((k, v))
                return
            if len(o.items) <= 4:
                i = self.dict_find(o, k)
                if i >= 0:
                    o.items[i] = (o.items[i][0], v)
                else:
                    o.items.append((k, v))
                return
            self.to_sym_dict(o)
        kt = self.keyterm(k)
        o.keys = z3.simplify(z3.If(z3.Select(o.arr, kt) == V.absent, L.snoc(o.keys, self.term(k)), o.keys))
        o.arr = z3.Store(o.arr, kt, self.term(v, self.fold_base()))
        o.kty, o.vty = self.jty(o.kty, self.typeof(k)), self.jty(o.vty, self.typeof_elem(v) if not (isinstance(v, Ref) and self.fold_base() and v.id >= self.fold_base()) else self.typeof(v))

    def fold_base(self):
        return getattr(self, "_fold_base", None)

    def has_sym(self, k):
        if isinstance(k, tuple):
            return any(self.has_sym(x) for x in k)
        return isinstance(k, Sym)

    def contains(self, c, x):
        if isinstance(c, Sym):
            c = self.narrow(c)
        if isinstance(c, Sym) and c.ty.kind == "ext" and c.ty.cls.endswith("_Attrib"):
            return UF("ext__Element_get_1", I, V, V)(V.ev(c.t), self.term(x)) != V.none
        if isinstance(c, (str,)) or isinstance(c, Sym) and c.ty.kind == "str":
            x = self.narrow(x)
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return z3.Contains(self.as_str(c), self.as_str(x))
        if isinstance(c, Ref):
            o = self.st.objs[c.id]
            if isinstance(o, DictObj):
                p, _ = self.dict_get(c, x)
                return p
            if isinstance(o, SetObj):
                if o.items is not None:
                    cs = []
                    for y in o.items:
                        e = self.keq(x, y)
                        if e is True:
                            return True
                        if e is not False:
                            cs.append(e)
                    return z3.Or(cs) if cs else False
                kt_ = self.keyterm(x)
                self.observe(o.arr, kt_, True)
                return z3.Select(o.arr, kt_)
        if isinstance(c, Sym) and c.ty.kind == "dict":
            p, _ = self.dict_get(c, x)
            return p
        if isinstance(c, Sym) and c.ty.kind == "set":
            return z3.Select(z3.Select(self.st.sarr, V.ov(c.t)), self.keyterm(x))
        if isinstance(c, Sym) and c.ty.kind not in ("list", "flist", "tuple"):
            if c.ty.kind == "any":
                raise Unsupported("membership in a value of unknown type")
            raise self.excl("TypeError")
        # list / tuple / lazy: an existential loop
        if isinstance(c, (tuple,)) or isinstance(c, Ref) and all(p[0] == "e" for p in self.st.objs[c.id].parts):
            vals = c if isinstance(c, tuple) else [p[1] for p in self.st.objs[c.id].parts]
            cs = []
            for y in vals:
                e = self.eq(x, y)
                if e is True:
                    return True
                if e is not False:
                    cs.append(e)
            return z3.Or(cs) if cs else False
        cell = self.cell(res=False)

        def body(y):
            if self.branch(self.eq(y, x)):
                self.cset(cell, "res", True)
                raise Brk()
        try:
            self.iterate(c, body)
        except Brk:
            pass
        return self.truth_t(self.cget(cell, "res"))

    # cells: interpreter-internal variables that take part in loop summaries
    def cell(self, **vs):
        f = self.push_frame(dict(vs), None, None, None, None, activate=False)
        return f

    def cset(self, cell, n, v):
        self.st.frames[cell].vars[n] = v
        self.st.wlog.add(("var", cell, n))

    def cget(self, cell, n):
        return self.read(cell, n)

    def read(self, fid, n):
        v = self.st.frames[fid].vars[n]
        self.readlog.add((fid, n))
        if isinstance(v, Poison):
            self.poisoned(v)
        return v

    def poisoned(self, p):
        raise NeedComp(p.fold, p.key)
