"""Statement and expression semantics, calls, built-ins."""
import ast, datetime, builtins as _bi
import z3
from .smt import *
from .loader import *
from .values import *
from .interp import Interp, NILL, sv, clsv, BUILTIN_EXC, EXT_METHODS, EXT_ATTRS, EXT_FUNCS, T_EL, T_AT
from . import regex
from .folds import Interp2

_MISSING = object()


class Effect(Exception):
    pass


class Prov:
    """a list that is known to be the (pure) image of a lazy pipeline; usable as long as nothing the pipeline read changed"""
    def __init__(self, drive, ver, vals, nid, rid):
        self.drive, self.ver, self.vals, self.nid, self.rid = drive, ver, vals, nid, rid

    def ver_ok(self, it):
        v, ov = it.st.ver, it.st.over
        if self.ver[0] != v:
            return False
        for i, c in ov.items():
            if i < self.nid and i != self.rid and self.ver[1].get(i, 0) != c:
                return False
        for (fid, n), v in self.vals.items():
            f = it.st.frames.get(fid)
            if f is None or f.vars.get(n) is not v:
                return False
        return True


class Engine(Interp2):

    # ------------------------------------------------------------------ frames
    def push_frame(self, vars, parent, module, cls, func, activate=True):
        st = self.st
        fid = st.nfid
        st.nfid += 1
        st.frames[fid] = Frame(vars, parent, module, cls, func)
        st.frames[fid].pclen = len(st.pc)
        return fid

    def in_frame(self, fid, thunk):
        old = getattr(self, "fid", None)
        self.fid = fid
        try:
            return thunk()
        finally:
            self.fid = old

    def heapver(self):
        return (self.st.ver, dict(self.st.over))

    def lookup(self, name):
        fid = self.fid
        while fid is not None:
            f = self.st.frames[fid]
            if name in f.vars:
                return self.read(fid, name)
            fid = f.parent
        f = self.st.frames[self.fid]
        if f.func is None and f.cls is not None and name in f.cls.attrs:
            # the scope of a class body (default values of parameters, class attributes)
            return self.static((f.cls.module.name, f.cls.name, name), f.cls.attrs[name], f.cls.module, f.cls)
        m = f.module
        while m is None:
            f = self.st.frames[f.parent]
            m = f.module
        return self.global_name(m, name)

    def global_name(self, m, name):
        r = self.ld.lookup(m, name)
        if r is not None:
            return self.global_value(r, name, m)
        p = self.prim(name)
        if p is not None:
            return p
        self.note("NameError " + name)
        raise self.excl("NameError")

    def global_value(self, r, name, m):
        if r[0] == "func":
            if r[2].name == "contracts.dsl" and hasattr(self, "p_" + r[1].name):
                return self.prim(r[1].name)
            return self.mkfunc(Func(r[1], r[2]))
        if r[0] == "class":
            return ClassVal(r[1])
        if r[0] == "module":
            return ModVal(r[1])
        if r[0] == "ext":
            return self.extval(r[1])
        if r[0] == "expr":
            return self.static((r[2].name, name), r[1], r[2], None)
        raise Unsupported("global " + name)

    def mkfunc(self, f):
        return FuncVal(f, None)

    def extval(self, n):
        last = n.split(".")[-1]
        alias = {"typing.cast": "cast", "collections.defaultdict": "defaultdict", "functools.reduce": "reduce", "itertools.chain": "chain",
                 "dataclasses.field": "field", "copy.copy": "copy", "itertools.chain.from_iterable": "chain_from_iterable"}
        if n in alias:
            return self.prim(alias[n])
        if n.startswith("contracts.dsl."):
            return self.prim(last)
        return ExtVal(n)

    def static(self, key, expr, module, cls):
        st = self.st
        if key in st.statics:
            return st.statics[key]
        # module-level expressions are evaluated in an isolated id range so that every path sees the same objects
        if key not in self.static_ids:
            self.static_ids[key] = 10_000_000 + 10_000 * len(self.static_ids)
        saved_nid, st.nid = st.nid, self.static_ids[key]
        saved_w = set(st.wlog)
        sv_ver = (st.ver, dict(st.over))
        fid = self.push_frame({}, None, module, cls, None)
        try:
            v = self.in_frame(fid, lambda: self.eval(expr))
            st.statics[key] = v
            # effects of module initialisation on class-level objects:  Cls.ATTR.method()
            self.module_effects(key, v, module)
        finally:
            st.nid = saved_nid
            st.wlog = saved_w
            st.ver, st.over = sv_ver
        return v

    def module_effects(self, key, v, module):
        for s in module.tree.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
                tgt = s.value.func.value
                if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and (tgt.value.id, tgt.attr) == key[1:]:
                    fid = self.push_frame({}, None, module, None, None)
                    self.in_frame(fid, lambda: self.eval(s.value))
                elif isinstance(tgt, ast.Name) and len(key) == 2 and tgt.id == key[1]:
                    fid = self.push_frame({}, None, module, None, None)
                    self.in_frame(fid, lambda: self.eval(s.value))

    # ------------------------------------------------------------------ attributes
    def getattr(self, v, name, default=_MISSING):
        if isinstance(v, Poison):
            self.poisoned(v)
        if isinstance(v, Sym):
            return self.sym_getattr(v, name, default)
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            if isinstance(o, Inst):
                return self.inst_getattr(v, o, name, default)
            kind = {ListObj: "list", DictObj: "dict", SetObj: "set"}[type(o)]
            return Prim("%s.%s" % (kind, name), lambda a, k: self.container_method(kind, v, name, a, k))
        if isinstance(v, ClassVal):
            return self.class_getattr(v.c, name)
        if isinstance(v, EnumVal):
            if name == "value":
                cc, e = v.c.find_attr(v.name)
                return self.static((cc.module.name, cc.name, v.name), e, cc.module, cc)
            if name == "name":
                return v.name
            c, m = v.c.find_method(name)
            if m is not None:
                return self.bind(v, c, m)
        if isinstance(v, ModVal):
            r = self.ld.lookup(v.m, name)
            if r is None:
                raise Unsupported("module attribute " + name)
            return self.global_value(r, name, v.m)
        if isinstance(v, ExtVal):
            return self.extval(v.name + "." + name)
        if isinstance(v, str):
            return Prim("str." + name, lambda a, k: self.str_method(v, name, a, k))
        if isinstance(v, SuperVal):
            mro = v.cls.mro()
            oc = self.class_of(v.self) or v.cls
            full = oc.mro()
            after = full[full.index(v.cls) + 1:] if v.cls in full else mro[1:]
            for c in after:
                if name in c.methods:
                    return self.bind(v.self, c, c.methods[name])
            if name == "__init__":
                return Prim("object.__init__", lambda a, k: None)
            raise self.excl("AttributeError")
        if isinstance(v, BCls):
            if v.name == "dict" and name == "fromkeys":
                return Prim("dict.fromkeys", lambda a, k: self.dict_fromkeys(a))
            if v.name == "str":
                return Prim("str." + name, lambda a, k: self.str_method(a[0], name, a[1:], k))
        if isinstance(v, datetime.date) and name in ("year", "month", "day"):
            return getattr(v, name)
        if isinstance(v, Prim) and v.name == "chain" and name == "from_iterable":
            return self.prim("chain_from_iterable")
        if v is None or isinstance(v, (bool, int, float, tuple)):
            if default is not _MISSING:
                return default
            if isinstance(v, int) and name in ("real",):
                return v
            raise self.excl("AttributeError")
        if isinstance(v, ExcVal):
            if name == "args":
                return tuple(v.args)
        if isinstance(v, MatchVal):
            if name in ("group", "__getitem__"):
                return Prim("match.group", lambda a, k: self.match_group(v, a[0] if a else 0))
            if name == "groups":
                return Prim("match.groups", lambda a, k: tuple(self.match_group(v, i) for i in range(1, len(v.groups) + 1)))
        raise Unsupported("attribute %s of %r" % (name, v))

    def decorators(self, m):
        return {(d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else d.func.id if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) else "?") for d in m.decorator_list}

    def bind(self, self_v, c, m):
        ds = self.decorators(m) - {"abstractmethod", "final", "override", "overload"}
        f = FuncVal(Func(m, c.module, c))
        if ds == {"property"} or ds == {"cached_property"}:
            return self.call(Bound(self_v, f), [], {})
        if ds == {"staticmethod"}:
            return f
        if ds == {"classmethod"}:
            cc = self.class_of(self_v) if isinstance(self_v, (Ref, Sym)) else None
            return Bound(ClassVal(cc or c), f)
        if ds:
            raise Unsupported("decorator %s" % sorted(ds))
        return Bound(self_v, f)

    def inst_getattr(self, v, o, name, default=_MISSING):
        if name in o.fields:
            x = o.fields[name]
            if isinstance(x, Poison):
                self.poisoned(x)
            return x
        if name == "__class__":
            return ClassVal(o.cls)
        c, m = o.cls.find_method(name)
        if m is not None:
            return self.bind(v, c, m)
        c, e = o.cls.find_attr(name)
        if e is not None:
            return self.static((c.module.name, c.name, name), e, c.module, c)
        if default is not _MISSING:
            return default
        if name in ("__eq__", "__str__"):
            return Prim(name, lambda a, k: self.mkbool(self.ident(v, a[0])) if name == "__eq__" else self.mkstr(str_of(self.term(v))))
        raise self.excl("AttributeError")

    def class_getattr(self, c, name):
        if c.is_enum() and name in c.attrs:
            return EnumVal(c, name)
        if c.is_enum() and name == "__members__":
            raise Unsupported("enum members")
        cc, m = c.find_method(name)
        if m is not None:
            ds = self.decorators(m)
            f = FuncVal(Func(m, cc.module, cc))
            if "classmethod" in ds:
                return Bound(ClassVal(c), f)
            return f
        cc, e = c.find_attr(name)
        if e is not None:
            return self.static((cc.module.name, cc.name, name), e, cc.module, cc)
        if name == "__name__":
            return c.name
        raise self.excl("AttributeError")

    def observer(self, cls, name):
        for k in cls.mro():
            q = "%s.%s" % (k.name, name)
            if q in self.observers:
                return k, q
        return None, None

    def sym_getattr(self, v, name, default=_MISSING):
        v = self.narrow(v)
        if not isinstance(v, Sym):
            return self.getattr(v, name, default)
        k = v.ty.kind
        if k == "cls":
            c0 = v.ty.cls
            if c0.is_enum():
                for mname in list(c0.attrs)[:-1]:
                    if self.branch(v.t == clsv("enum:%s.%s" % (c0.qual, mname))):
                        return self.getattr(EnumVal(c0, mname), name)
                return self.getattr(EnumVal(c0, list(c0.attrs)[-1]), name)
            if c0.is_dataclass and name in c0.annots:
                return self.sym_field(v, c0, name)
            oc, q = self.observer(c0, name) if len(c0.concrete_subclasses()) > 1 else (None, None)
            if q is not None:
                self.assumptions.add("%s is a function of the object, whatever its class (contract of the interface)" % q)
                cc, m = oc.find_method(name)
                rt = self.ld.type_of(m.returns, cc.module, cc) if m is not None else STR if name == "__str__" else ANY
                if m is not None and "property" in self.decorators(m):
                    return self.obs_apply(q, v, [], rt)
                return Prim("obs." + q, lambda a, kw: self.obs_apply(q, v, a, rt))
            cs = c0.concrete_subclasses() or [c0]
            # group by what the name resolves to
            groups = {}
            for c in cs:
                mc, m = c.find_method(name)
                if m is not None:
                    groups.setdefault(("m", mc.qual), (mc, m, []))[2].append(c)
                elif name in c.all_fields():
                    groups.setdefault(("f",), (None, None, []))[2].append(c)
                else:
                    ac, e = c.find_attr(name)
                    if e is not None:
                        groups.setdefault(("a", ac.qual), (ac, e, []))[2].append(c)
                    elif name == "__class__":
                        groups.setdefault(("t", c.qual), (c, None, []))[2].append(c)
                    else:
                        groups.setdefault(("x",), (None, None, []))[2].append(c)
            gs = list(groups.items())
            if len(gs) > 1 and all(g[0][0] == "m" for g in gs):
                mg = self.merge_getters(v, gs, name)
                if mg is not None:
                    return mg
            for i, (gk, (mc, m, members)) in enumerate(gs):
                if i == len(gs) - 1 or self.branch(self.inst_cond(v.t, members)):
                    if len(gs) > 1:
                        self.st.assume(self.inst_cond(v.t, members))
                    vv = Sym(v.t, Ty("cls", cls=members[0])) if len(members) == 1 else v
                    if gk[0] == "m":
                        return self.bind(vv, mc, m)
                    if gk[0] == "f":
                        return self.sym_field(vv, members[0], name)
                    if gk[0] == "a":
                        return self.static((mc.module.name, mc.name, name), m, mc.module, mc)
                    if gk[0] == "t":
                        return ClassVal(members[0])
                    if default is not _MISSING:
                        return default
                    if name in ("__str__", "__eq__"):
                        return Prim(name, lambda a, kw: self.mkstr(str_of(v.t)) if name == "__str__" else self.mkbool(self.ident(v, a[0])))
                    raise self.excl("AttributeError")
        if k == "str" and name == "__str__":
            return Prim("str.__str__", lambda a, kw: v)
        if k == "str":
            return Prim("str." + name, lambda a, kw: self.str_method(v, name, a, kw))
        if k in ("list", "flist"):
            return Prim("list." + name, lambda a, kw: self.container_method("list", v, name, a, kw))
        if k == "dict":
            return Prim("dict." + name, lambda a, kw: self.container_method("dict", v, name, a, kw))
        if k == "set":
            return Prim("set." + name, lambda a, kw: self.container_method("set", v, name, a, kw))
        if k == "ext":
            last = v.ty.cls.split(".")[-1]
            ev = V.dtv(v.t) if self.is_date(v.ty) else V.ev(v.t)
            if last == "_Element" and name == "attrib":
                return Sym(v.t, T_AT)
            if last == "_Element" and name == "nsmap":
                # lxml builds a new dictionary on every access
                return self.alloc(DictObj(None, UF("ext_nsmap", I, z3.ArraySort(V, V))(ev), UF("ext_nsmap_keys", I, L)(ev), union([STR, NONE]), STR))
            if (last, name) in EXT_ATTRS:
                return self.sym(UF("ext_%s_%s" % (last, name), I, V)(ev), EXT_ATTRS[(last, name)])
            if v.ty.cls == "datetime.date" and name in ("isoformat", "__str__"):
                return Prim("date.isoformat", lambda a, kw: self.isoformat(v.t))
            if (last, name) in EXT_METHODS:
                return Prim("ext.%s.%s" % (last, name), lambda a, kw: self.ext_method(last, name, ev, a, kw))
            raise Unsupported("external attribute %s.%s" % (v.ty.cls, name))
        if k == "rec":
            c = v.ty.cls
            fs = sorted(c.all_fields())
            if name in fs:
                l = V.rf(v.t)
                for _ in range(len(fs) - 1 - fs.index(name)):
                    l = L.init(l)
                return self.elem(z3.simplify(L.last(l)), ANY if True else c.field_type(name)) if False else self.sym_rec_field(l, c, name)
            mc, m = c.find_method(name)
            if m is not None:
                return self.bind(v, mc, m)
        if k == "type":
            if name == "__name__":
                return self.mkstr(UF("type_name", V, S)(v.t))
        if k in ("none", "int", "bool", "float", "tuple"):
            if default is not _MISSING:
                return default
            raise self.excl("AttributeError")
        raise Unsupported("attribute %s of a value of type %r" % (name, v.ty))

    def sym_rec_field(self, l, c, name):
        ty = c.field_type(name)
        t = z3.simplify(L.last(l))
        if ty.kind in ("list", "dict", "set"):
            ty = Ty("flist", ty.args) if ty.kind == "list" else ANY
        return self.norm(Sym(t, ty))

    def merge_getters(self, v, gs, name):
        """several trivial getters (return self.field / constant): one ite term instead of a fork"""
        alts = []
        for (_, (mc, m, members)) in gs:
            body = [s for s in m.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None or len(m.args.args) != 1 or m.decorator_list:
                return None
            e = body[0].value
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
                f = mangle(e.attr, mc)
                if f not in members[0].all_fields():
                    return None
                alts.append((members, z3.Select(self.st.field(f), V.ov(v.t)), members[0].field_type(f)))
            elif isinstance(e, ast.Constant):
                alts.append((members, self.term(e.value), self.typeof(e.value)))
            else:
                return None
        tys = {a[2].key(): a[2] for a in alts}
        ty = union(list(tys.values()))
        if len(tys) > 1 and any(t.kind == "list" for t in tys.values()):
            return None

        def go(a, kw):
            t = alts[-1][1]
            for members, x, _ in alts[:-1]:
                t = z3.If(z3.Or([clsof(V.ov(v.t)) == self.cid(c) for c in members]), x, t)
            return self.sym(t, ty)
        return Prim("getter." + name, go)

    def sym_field(self, v, c, name):
        t = z3.simplify(z3.Select(self.st.field(name), V.ov(v.t)))
        return self.sym(t, c.field_type(name))

    def obs_apply(self, q, v, args, rt):
        f = UF("obs_" + q, *([I] + [V] * len(args) + [V]))
        return self.sym(f(V.ov(v.t), *[self.term_arg(a) for a in args]), rt)

    def ext_method(self, last, name, ev, args, kw):
        if last == "_Element" and name in ("getchildren", "iterchildren") and not args and not kw:
            return self.new_list_of(UF("ext_children", I, L)(ev), T_EL)
        if last == "_Element" and name in ("find", "findall"):
            # find(path), find("./path"), find(path, None) and find(path, namespaces=None) are the same
            kw = {k: x for k, x in kw.items() if x is not None}
            args = list(args)[:1] + [x for x in list(args)[1:] if x is not None]
            if isinstance(args[0], str) and args[0].startswith("./") and not args[0].startswith(".//"):
                args[0] = args[0][2:]
        kws = sorted(kw)
        vals = list(args) + [kw[k] for k in kws]
        ts = []
        for a in vals:
            try:
                ts.append(self.term_arg(a))
            except Unsupported:
                ts.append(sv("opaque"))
        rt = EXT_METHODS[(last, name)]
        if name == "xpath" and args and args[0] == "text()":
            rt = Ty("list", [STR])
        if name == "get" and last == "_Attrib":
            last = "_Element"
        if name == "get" and len(args) == 2:
            base = self.sym(UF("ext__Element_get_1", I, V, V)(ev, ts[0]), rt)
            if self.branch(base is None if not isinstance(base, Sym) else base.t == V.none):
                return args[1]
            return self.norm(Sym(base.t, STR))
        return self.sym(UF("ext_%s_%s_%d" % (last, name, len(ts)) + "".join("_" + k for k in kws), *([I] + [V] * len(ts) + [V]))(ev, *ts), rt)

    def setattr(self, v, name, x):
        v = self.narrow(v) if isinstance(v, Sym) else v
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            if isinstance(o, Inst):
                if o.cls.dc_frozen:
                    raise self.excl("FrozenInstanceError")
                o.fields[name] = x
                self.wrote(("fld", v.id, name))
                return
        if isinstance(v, Sym) and v.ty.kind == "cls":
            self.st.farr[name] = z3.Store(self.st.field(name), V.ov(v.t), self.term(x))
            self.wrote(("farr", name))
            return
        if isinstance(v, ClassVal):
            cc, e = v.c.find_attr(name)
            if cc is None:
                raise Unsupported("class attribute creation")
            k = (cc.module.name, cc.name, name)
            self.static(k, e, cc.module, cc)
            self.st.statics[k] = x
            self.wrote(("static",) + k)
            return
        raise Unsupported("attribute assignment on %r" % (v,))

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw):
        self.tick()
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Unsupported("call depth")
        try:
            return self._call(f, args, kw)
        finally:
            self.depth -= 1

    def _call(self, f, args, kw):
        if isinstance(f, Prim):
            return f.fn(args, kw)
        if isinstance(f, Bound):
            return self.call_func(f.fn, [f.self] + args, kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f.c, args, kw)
        if isinstance(f, BCls):
            return self.call_bcls(f.name, args, kw)
        if isinstance(f, ExtVal):
            return self.call_ext(f.name, args, kw)
        if isinstance(f, Ref):
            m = self.getattr(f, "__call__")
            return self.call(m, args, kw)
        if isinstance(f, Sym):
            f = self.narrow(f)
            if isinstance(f, Sym) and f.ty.kind == "type":
                cs = self.type_cands(f.ty)
                for i, c in enumerate(cs):
                    if i == len(cs) - 1 or self.branch(f.t == clsv(c.qual)):
                        return self.instantiate(c, args, kw)
            if f is None:
                raise self.excl("TypeError")
        if f is None or isinstance(f, (str, int, tuple)):
            raise self.excl("TypeError")
        raise Unsupported("call of %r" % (f,))

    def new_list_of(self, l, ty):
        return self.alloc(ListObj([("l", l, ty)]))

    def call_ext(self, name, args, kw):
        if name in self.externals:
            return self.externals[name](self, args, kw)
        if name in ("re.match", "re.fullmatch") and len(args) == 2 and not kw:
            return self.regex_match(args[0], args[1], name == "re.fullmatch")
        if name == "re.search" and len(args) == 2 and not kw:
            return self.regex_search(args[0], args[1])
        if name == "functools.cmp_to_key" and len(args) == 1 and not kw:
            p = Prim("cmp_to_key", None)
            p.cmp = args[0]
            return p
        if name == "decimal.Decimal" and len(args) == 1 and not kw and self.typeof(self.narrow(args[0])).kind in ("int", "float"):
            self.assumptions.add("decimal.Decimal arithmetic is exact (no rounding to 28 digits)")
            return self.mkreal(self.as_real(self.narrow(args[0])))
        if name == "datetime.date" and len(args) == 3 and not kw and all(type(x) is int for x in args):
            try:
                return datetime.date(*args)
            except ValueError:
                raise self.excl("ValueError")
        if name == "dateutil.parser.parse":
            return self.parse_date(args, kw)
        rt = EXT_FUNCS.get(name)
        if rt is not None:
            self.assumptions.add("%s is a function of its arguments" % name)
            ts = [self.term(x) for x in args] + [self.term(kw[k]) for k in sorted(kw)]
            return self.sym(UF("extf_%s_%d" % (name, len(ts)) + "".join("_" + k for k in sorted(kw)), *([V] * (len(ts) + 1)))(*ts), rt)
        raise Unsupported("external function " + name)

    def is_recursive(self, f):
        n = f.node
        r = getattr(n, "_is_rec", None)
        if r is None:
            name = getattr(n, "name", None)
            r = False
            if name:
                for s in n.body if isinstance(n.body, list) else []:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Call):
                            if isinstance(x.func, ast.Name) and x.func.id == name and f.cls is None:
                                r = True
                            if isinstance(x.func, ast.Attribute) and x.func.attr == name and f.cls is not None and not (isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == "super"):
                                # only self-recursion through the same class family
                                if not self.calls_another_class(f, x.func):
                                    r = True
            n._is_rec = r
        return r

    def calls_another_class(self, f, func):
        """self.<field>.m() where no object the field may hold resolves m to f itself"""
        v = func.value
        if not (isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self"):
            return False
        ty = f.cls.field_type(mangle(v.attr, f.cls))
        if ty is None or ty.kind != "cls" or not isinstance(ty.cls, Class):
            return False
        return all(c.find_method(func.attr)[1] is not f.node for c in [ty.cls] + list(ty.cls.concrete_subclasses()))

    def call_func(self, fv, args, kw):
        f = fv.f
        if f.module.name.startswith("brel"):
            self.called.add(f.qual)
        spec = self.contracts.get(f.qual)
        if spec is not None and self.verifying != f.qual:
            self.under_contract.add(f.qual)
            return self.call_func(FuncVal(spec), args, kw)
        vals, frame = self.bind_args(fv, args, kw)
        if f.qual in self.pure and self.verifying != f.qual:
            # contract of the callee: it returns a value of its declared type which is a function of its arguments, raises nothing, changes nothing
            self.under_contract.add(f.qual)
            self.assumptions.add("%s: total, pure function of its arguments (contract assumed here)" % f.qual)
            ts = [self.term(v) for v in vals]
            return self.sym(UF("pure_%s_%d" % (f.qual, len(ts)), *([V] * (len(ts) + 1)))(*ts), self.ld.type_of(f.node.returns, f.module, f.cls))
        if self.is_recursive(f) and isinstance(f.node, ast.FunctionDef):
            if self.rec_applicable(f, vals):
                names = list(frame)
                return self.rec_call(fv, vals, frame)
        return self.run_func(fv, frame)

    def rec_applicable(self, f, vals):
        """concrete receivers are simply unrolled"""
        if f.cls is not None:
            return isinstance(vals[0], Sym)
        return any(isinstance(v, Sym) and v.ty.kind in ("cls", "union", "ext") for v in vals)

    def call_body(self, fv, vals):
        names = self.arg_names(fv.f.node)
        return self.run_func(fv, dict(zip(names, vals)))

    def arg_names(self, n):
        a = n.args
        r = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            r.append(a.vararg.arg)
        r += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            r.append(a.kwarg.arg)
        return r

    def bind_args(self, fv, args, kw):
        n = fv.f.node
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        frame = {}
        kw = dict(kw)
        if len(args) > len(pos) and not a.vararg:
            raise self.excl("TypeError")
        for name, v in zip(pos, args):
            frame[name] = v
        if a.vararg:
            frame[a.vararg.arg] = tuple(args[len(pos):])
        dflt = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for name in pos + [x.arg for x in a.kwonlyargs]:
            if name in kw:
                if name in frame:
                    raise self.excl("TypeError")
                frame[name] = kw.pop(name)
            elif name not in frame:
                if name in dflt:
                    d = dflt[name]
                    if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
                        frame[name] = self.static((fv.f.module.name, fv.f.qual, "default", name), d, fv.f.module, fv.f.cls)
                    else:
                        fid = self.push_frame({}, fv.fid, fv.f.module, fv.f.cls, None)
                        frame[name] = self.in_frame(fid, lambda: self.eval(d))
                else:
                    raise self.excl("TypeError")
        if kw:
            if a.kwarg:
                frame[a.kwarg.arg] = self.alloc(DictObj(items=list(kw.items())))
            else:
                raise self.excl("TypeError")
        elif a.kwarg:
            frame[a.kwarg.arg] = self.alloc(DictObj(items=[]))
        # static types of symbolic arguments: the declared parameter type refines an unknown one
        names = self.arg_names(n)
        return [frame[x] for x in names], frame

    def run_func(self, fv, frame):
        f = fv.f
        n = f.node
        fid = self.push_frame(frame, fv.fid, f.module, f.cls, f)
        if isinstance(n, ast.Lambda):
            return self.in_frame(fid, lambda: self.eval(n.body))
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in n.body for x in self.own_nodes(s)):
            return Lazy(lambda emit: self.run_gen(fid, n, emit))
        old = getattr(self, "fid", None)
        self.fid = fid
        try:
            self.exec_block(n.body)
            return None
        except Ret as r:
            if getattr(r, "frame", fid) != fid:
                raise
            return r.v
        finally:
            self.fid = old

    def own_nodes(self, s):
        todo = [s]
        while todo:
            x = todo.pop()
            yield x
            if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(x))

    def run_gen(self, fid, n, emit):
        old, self.fid = getattr(self, "fid", None), fid
        oe = self.st.frames[fid].vars.get("$emit")
        saved = getattr(self, "_emit", {})
        self._emit = dict(saved)
        self._emit[fid] = (emit, old)
        try:
            self.exec_block(n.body)
        except Ret:
            pass
        finally:
            self.fid = old
            self._emit = saved

    def instantiate(self, c, args, kw):
        if c.is_enum():
            raise Unsupported("enum lookup by value")
        if self.is_exc(c):
            return ExcVal(c.name, c, tuple(args))
        if any(e.split(".")[-1] == "TypedDict" for k in c.mro() for e in k.ext_bases):
            return self.call_bcls("dict", args, kw)
        if c.is_abstract():
            raise self.excl("TypeError")
        for e in c.ext_bases:
            b = e.split("[")[0].split(".")[-1]
            if b not in [k.name for k in c.mro()] and b not in ("ABC", "object", "Protocol", "Generic"):
                raise Unsupported("instantiating subclass of " + e)
        r = self.alloc(Inst(c, {}))
        ic, im = c.find_method("__init__")
        if im is not None:
            self.call_func(FuncVal(Func(im, ic.module, ic)), [r] + args, kw)
        elif c.is_dataclass:
            fs = c.dc_fields()
            kw = dict(kw)
            o = self.st.objs[r.id]
            if len(args) > len(fs):
                raise self.excl("TypeError")
            for i, (n, _, d, _, dc) in enumerate(fs):
                if i < len(args):
                    o.fields[n] = args[i]
                elif n in kw:
                    o.fields[n] = kw.pop(n)
                elif d is not None:
                    fid = self.push_frame({}, None, dc.module, dc, None)
                    o.fields[n] = self.in_frame(fid, lambda: self.eval(d))
                else:
                    raise self.excl("TypeError")
            if kw:
                raise self.excl("TypeError")
            pc, pm = c.find_method("__post_init__")
            if pm is not None:
                self.call_func(FuncVal(Func(pm, pc.module, pc)), [r], {})
        elif args or kw:
            raise self.excl("TypeError")
        return r

    def is_exc(self, c):
        return any(e.split(".")[-1] in BUILTIN_EXC for k in c.mro() for e in k.ext_bases)

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        if isinstance(e.value, bytes):
            return self.sym(UF("bytes_%s" % e.value.hex(), V)(), Ty("ext", cls="builtins.bytes"))
        if isinstance(e.value, complex) or e.value is Ellipsis:
            raise Unsupported("constant")
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def curcls(self):
        fid = self.fid
        while fid is not None:
            f = self.st.frames[fid]
            if f.cls is not None:
                return f.cls
            fid = f.parent
        return None

    def e_Attribute(self, e):
        v = self.eval(e.value)
        return self.getattr(v, mangle(e.attr, self.curcls()))

    def e_JoinedStr(self, e):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value)
                if p.format_spec is not None or p.conversion not in (-1, 115):
                    parts.append(self.mkstr(UF("fmt_" + ast.unparse(p)[:40], V, S)(self.term(v))))
                else:
                    parts.append(self.str_of(v))
        r = ""
        for p in parts:
            r = self.binop(ast.Add(), r, p)
        return r

    def e_BoolOp(self, e):
        last = None
        for i, x in enumerate(e.values):
            last = self.eval(x)
            if i == len(e.values) - 1:
                return last
            t = self.truth_t(last)
            b = self.branch(t)
            if isinstance(e.op, ast.And) and not b or isinstance(e.op, ast.Or) and b:
                return last
        return last

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth_t(v)
            return self.mkbool((not t) if isinstance(t, bool) else z3.Not(t))
        v = self.narrow(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if self.typeof(v).kind == "int":
                return self.mkint(-self.as_int(v))
            if self.typeof(v).kind == "float":
                return self.mkreal(-self.as_real(v))
        raise Unsupported("unary operator")

    def e_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))

    def e_Compare(self, e):
        l = self.eval(e.left)
        r = True
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            y = self.eval(x)
            r = self.compare(op, l, y)
            if i < len(e.ops) - 1:
                if not self.test(r):
                    return r
            l = y
        return r

    def e_IfExp(self, e):
        return self.eval(e.body) if self.test(self.eval(e.test)) else self.eval(e.orelse)

    def e_Lambda(self, e):
        f = self.st.frames[self.fid]
        return FuncVal(Func(e, self.curmodule(), self.curcls()), self.fid)

    def curmodule(self):
        fid = self.fid
        while fid is not None:
            f = self.st.frames[fid]
            if f.module is not None:
                return f.module
            fid = f.parent
        raise Unsupported("no module")

    def e_Tuple(self, e):
        return tuple(self.eval_star(e.elts))

    def eval_star(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                out += self.concrete_elems(v)
            else:
                out.append(self.eval(x))
        return out

    def concrete_elems(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref) and isinstance(self.st.objs[v.id], ListObj) and all(p[0] == "e" for p in self.st.objs[v.id].parts):
            return [p[1] for p in self.st.objs[v.id].parts]
        if isinstance(v, Ref) and isinstance(self.st.objs[v.id], SetObj) and self.st.objs[v.id].items is not None and len(self.st.objs[v.id].items) <= 1:
            return list(self.st.objs[v.id].items)
        if isinstance(v, Sym) and v.ty.kind == "tuple":
            return list(self.untuple(v))
        raise Unsupported("unpacking a sequence of unknown length")

    def e_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.eval(x.value)
                    if isinstance(v, Lazy):
                        v = self.materialise(v)
                    parts += self.parts_of(v)
                else:
                    parts.append(("e", self.eval(x)))
            return self.alloc(ListObj(parts))
        return self.new_list([self.eval(x) for x in e.elts])

    def e_Set(self, e):
        r = self.alloc(SetObj(items=[]))
        for x in e.elts:
            self.set_add(r, self.eval(x))
        return r

    def e_Dict(self, e):
        r = self.alloc(DictObj(items=[]))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.container_method("dict", r, "update", [self.eval(v)], {})
            else:
                kk = self.eval(k)
                self.dict_set(r, kk, self.eval(v))
        return r

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Subscript(self, e):
        f = e.value
        if (isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.op, ast.USub) and isinstance(e.slice.operand, ast.Constant) and e.slice.operand.value == 1
                and isinstance(f, ast.Call) and isinstance(f.func, ast.Attribute) and f.func.attr == "split" and len(f.args) == 1 and not f.keywords):
            # x.split(sep)[-1] without enumerating the pieces
            x = self.narrow(self.eval(f.func.value))
            if isinstance(x, Sym) and x.ty.kind == "str":
                sep = self.narrow(self.eval(f.args[0]))
                if isinstance(sep, str) and sep:
                    t = self.as_str(x)
                    r = UF("str_last_piece", S, S, S)(t, z3.StringVal(sep))
                    self.st.assume(z3.Implies(z3.Not(z3.Contains(t, z3.StringVal(sep))), r == t))
                    return self.mkstr(r)
        v = self.eval(e.value)
        if isinstance(e.slice, ast.Slice):
            return self.slice(v, e.slice)
        return self.index(v, self.eval(e.slice))

    def match_group(self, m, i):
        if isinstance(i, str):
            i = next((k for k, n in m.names.items() if n == i), None)
        if i == 0 and m.whole is not None:
            return m.whole
        if not isinstance(i, int) or m.groups.get(i) is None:
            raise Unsupported("group %r of a match" % (i,))
        g = m.groups[i]
        if isinstance(g, tuple):          # an optional group that cannot match the empty text
            return None if self.branch(g[1] == z3.StringVal("")) else self.mkstr(g[1])
        return g

    def regex_search(self, pat, s):
        pat, s = self.narrow(pat), self.narrow(s)
        if isinstance(pat, str) and pat.startswith("^") and "|" not in regex.top_level(pat):
            return self.regex_match(pat, s, False)
        if not isinstance(pat, str):
            raise Unsupported("regular expression that is not a literal")
        if s is None or isinstance(s, (int, bool, tuple)):
            raise self.excl("TypeError")
        seq, end, lang, names, count = regex.parse(pat, False)
        if pat.startswith("^"):
            raise Unsupported("search for alternatives")
        if not self.branch(z3.InRe(self.as_str(s), z3.Concat(z3.Full(z3.ReSort(S)), lang))):
            return None
        return MatchVal(None, {i: None for i in range(1, count + 1)}, names)

    def regex_match(self, pat, s, full):
        pat, s = self.narrow(pat), self.narrow(s)
        if not isinstance(pat, str):
            raise Unsupported("regular expression that is not a literal")
        if s is None or isinstance(s, (int, bool, tuple)):
            raise self.excl("TypeError")
        seq, end, lang, names, count = regex.parse(pat, full)
        t = self.as_str(s)
        det = regex.determined(seq, end, t)
        if det is not None:
            if not self.branch(det[0]):
                return None
            return MatchVal(s if end == "full" else None, {i: self.mkstr(det[1][i]) if i in det[1] else None for i in range(1, count + 1)}, names)
        if not self.branch(z3.InRe(t, lang)):
            return None
        facts, groups = regex.pieces(pat, seq, end, t)
        for f in facts:
            self.st.assume(f)
        return MatchVal(s if end == "full" else None, {i: (groups[i] if isinstance(groups[i], tuple) else self.mkstr(groups[i])) if i in groups else None for i in range(1, count + 1)}, names)

    def index(self, v, i):
        v = self.narrow(v)
        if isinstance(v, MatchVal):
            return self.match_group(v, i)
        if isinstance(v, Sym) and v.ty.kind == "ext" and v.ty.cls.endswith("_Attrib"):
            x = self.sym(UF("ext__Element_get_1", I, V, V)(V.ev(v.t), self.term(i)), union([STR, NONE]))
            if self.branch(self.ident(x, None)):
                raise self.excl("KeyError")
            return x
        if isinstance(v, Sym) and v.ty.kind == "ext" and v.ty.cls.endswith("_Element"):
            v = Sym(V.fl(UF("ext_children", I, L)(V.ev(v.t))), Ty("flist", [v.ty]))
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            if isinstance(o, DictObj):
                p, th = self.dict_get(v, i)
                if self.branch(p):
                    return th()
                if o.default is not None:
                    x = self.call(o.default, [], {})
                    self.dict_set(v, i, x)
                    return x
                raise self.excl("KeyError")
            if isinstance(o, Inst):
                return self.call(self.getattr(v, "__getitem__"), [i], {})
        if isinstance(v, Sym) and v.ty.kind == "dict":
            p, th = self.dict_get(v, i)
            if self.branch(p):
                return th()
            raise self.excl("KeyError")
        if isinstance(v, (ClassVal, BCls, ExtVal)):
            return v        # generic alias
        i = self.narrow(i)
        if isinstance(v, tuple) and isinstance(i, int):
            try:
                return v[i]
            except IndexError:
                raise self.excl("IndexError")
        if isinstance(v, Sym) and v.ty.kind == "tuple" and isinstance(i, int):
            return self.index(self.untuple(v), i)
        if isinstance(v, str) and isinstance(i, int):
            try:
                return v[i]
            except IndexError:
                raise self.excl("IndexError")
        if isinstance(v, Sym) and v.ty.kind == "str":
            s, n = self.as_str(v), z3.Length(self.as_str(v))
            ii = self.as_int(i)
            if self.branch(ii < 0):
                ii = ii + n
            if not self.branch(z3.And(ii >= 0, ii < n)):
                raise self.excl("IndexError")
            return self.mkstr(z3.SubString(s, ii, 1))
        if self.is_listy(v):
            parts = self.parts_of(v)
            if isinstance(i, int):
                if all(p[0] == "e" for p in parts):
                    try:
                        return parts[i][1]
                    except IndexError:
                        raise self.excl("IndexError")
                if i >= 0 and len(parts) > i and all(p[0] == "e" for p in parts[:i + 1]):
                    return parts[i][1]
                if i < 0 and len(parts) >= -i and all(p[0] == "e" for p in parts[i:]):
                    return parts[i][1]
                if i == -1 and len(parts) > 1 and parts[-1][0] == "l" and self.implied(L.is_snoc(parts[-1][1])):
                    lt, ety = parts[-1][1], parts[-1][2]
                    return self.sym(L.last(lt), ety) if ety.kind not in ("rec", "flist") else self.elem(L.last(lt), ety)
                if len(parts) == 1:
                    lt, ety = parts[0][1], parts[0][2]
                    n = self.lenof(lt)
                    if not self.branch(n > i if i >= 0 else n >= -i):
                        raise self.excl("IndexError")
                    if i == -1:
                        return self.sym(L.last(lt), ety) if ety.kind not in ("rec", "flist") else self.elem(L.last(lt), ety)
                    t = lnth(lt, z3.IntVal(i) if i >= 0 else n + i)
                    self.st.assume(z3.Implies(n == 1, t == L.last(lt)))
                    return self.sym(t, ety)
            raise Unsupported("symbolic list index")
        if isinstance(v, Sym) and v.ty.kind == "any":
            raise Unsupported("subscript of a value of unknown type")
        if v is None or isinstance(v, (int, bool)):
            raise self.excl("TypeError")
        raise Unsupported("subscript of %r" % (v,))

    def slice(self, v, s):
        lo = None if s.lower is None else self.narrow(self.eval(s.lower))
        hi = None if s.upper is None else self.narrow(self.eval(s.upper))
        st = None if s.step is None else self.narrow(self.eval(s.step))
        v = self.narrow(v)
        conc = all(isinstance(x, (int, type(None))) for x in (lo, hi, st))
        if conc and isinstance(v, (str, tuple)):
            return v[lo:hi:st]
        if conc and isinstance(v, Ref) and isinstance(self.st.objs[v.id], ListObj):
            ps = self.st.objs[v.id].parts
            if all(p[0] == "e" for p in ps):
                return self.new_list([p[1] for p in ps][lo:hi:st])
            if lo is None and hi is None and st is None:
                return self.alloc(ListObj(list(ps)))
        if self.is_listy(v) and lo is None and hi is None and st is None:
            return self.alloc(ListObj(self.parts_of(v)))
        if st is None and (isinstance(v, str) or isinstance(v, Sym) and v.ty.kind == "str"):
            x = self.as_str(v)
            ps = self.str_parts(x)
            if lo is None and isinstance(hi, int) and hi < 0 and z3.is_string_value(ps[-1]) and ps[-1].as_string().isascii() and "\\" not in ps[-1].as_string() and len(ps[-1].as_string()) >= -hi:
                end = z3.StringVal(ps[-1].as_string()[:hi])
                ps = ps[:-1] + ([end] if end.as_string() else [])
                return self.mkstr(z3.Concat(*ps) if len(ps) > 1 else ps[0] if ps else end)
            n = z3.Length(x)

            def fix(b, d):
                if b is None:
                    return d
                t = self.as_int(b)
                t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
                return z3.simplify(t)
            a, b = fix(lo, z3.IntVal(0)), fix(hi, n)
            return self.mkstr(z3.If(b > a, z3.SubString(x, a, b - a), z3.StringVal("")))
        raise Unsupported("slice")

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fid = self.fid
            f = self.st.frames[fid]
            first = f.func.node.args.args[0].arg
            return SuperVal(f.vars[first], f.cls)
        # special forms whose arguments are not evaluated
        if isinstance(e.func, ast.Name) and e.func.id == "print":
            return None
        f = self.eval(e.func)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.concrete_elems(self.eval(a.value))
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.st.objs[v.id], DictObj) and self.st.objs[v.id].items is not None:
                    for kk, vv in self.st.objs[v.id].items:
                        if not isinstance(kk, str):
                            raise Unsupported("symbolic keyword name")
                        kw[kk] = vv
                else:
                    raise Unsupported("** of symbolic dict")
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    # comprehensions: a child frame per comprehension, lazily driven
    def comp_drive(self, gens, elt):
        """returns drive(emit) for the generators; elt() evaluates the element in the comprehension frame"""
        outer = self.fid
        first = self.eval(gens[0].iter)       # evaluated eagerly, as python does
        def drive(emit):
            caller = self.fid
            fid = self.push_frame({}, outer, None, None, None)

            def level(i, it):
                def body(x):
                    old, self.fid = self.fid, fid
                    try:
                        self.assign(gens[i].target, x)
                        for c in gens[i].ifs:
                            if not self.test(self.eval(c)):
                                return
                        if i + 1 < len(gens):
                            level(i + 1, self.eval(gens[i + 1].iter))
                        else:
                            v = elt()
                            self.fid = old
                            emit(v)
                    finally:
                        self.fid = old
                self.iterate(it, body)
            level(0, first)
        drive.first = first
        return drive

    def e_GeneratorExp(self, e):
        return Lazy(self.comp_drive(e.generators, lambda: self.eval(e.elt)))

    def e_ListComp(self, e):
        return self.materialise(Lazy(self.comp_drive(e.generators, lambda: self.eval(e.elt))))

    def e_SetComp(self, e):
        r = self.alloc(SetObj(items=[]))
        self.comp_drive(e.generators, lambda: self.eval(e.elt))(lambda v: self.set_add(r, v))
        return r

    def e_DictComp(self, e):
        r = self.alloc(DictObj(items=[]))

        def elt():
            return (self.eval(e.key), self.eval(e.value))
        self.comp_drive(e.generators, elt)(lambda kv: self.dict_set(r, kv[0], kv[1]))
        return r

    def materialise(self, lz):
        """list(lazy)"""
        r = self.alloc(ListObj([]))
        before = self.st.wlog
        self.st.wlog = set()
        drive = lz.drive if isinstance(lz, Lazy) else (lambda emit: self.iterate(lz, emit))
        nf = self.st.nfid
        old, self.readlog = self.readlog, set()
        try:
            drive(lambda v: self.list_append(r, v))
        finally:
            new, self.readlog = self.readlog, old
            self.readlog |= new
            mine, self.st.wlog = self.st.wlog, before | self.st.wlog
        # effects other than on the new list / its own frames?
        extra = {k for k in mine if not (k[0] == "cont" and k[1] == r.id) and not (k[0] == "var" and k[1] >= nf)}
        o = self.st.objs[r.id]
        if not extra and any(p[0] == "l" for p in o.parts):
            vals = {k: self.st.frames[k[0]].vars[k[1]] for k in new if k[0] < nf and k[0] in self.st.frames and k[1] in self.st.frames[k[0]].vars}
            o.prov = Prov(drive, self.heapver(), vals, self.st.nid, r.id)
        return r

    def list_append(self, r, v):
        o = self.list_obj(r, True)
        fb = self.fold_base()
        o.parts.append(("e", v))

    def set_add(self, r, v):
        o = self.st.objs[r.id]
        self.wrote(("cont", r.id))
        if o.items is not None:
            und = False
            for y in o.items:
                e = self.keq(v, y)
                if e is True:
                    return
                if e is not False:
                    if len(o.items) <= 2 and self.fold_base() is None and all(m.kind in ("str", "none") for m in self.typeof(v).members()):
                        if self.branch(e):
                            return
                    else:
                        und = True
            if not und:
                o.items.append(v)
                return
            et = None
            for y in o.items:
                et = self.jty(et, self.typeof(y))
            o.arr, o.ety, o.items = self.set_arr(o), et, None
        o.arr = z3.Store(o.arr, self.keyterm(v), z3.BoolVal(True))
        o.ety = self.jty(o.ety, self.typeof(v))

    # ------------------------------------------------------------------ statements
    def exec_block(self, body):
        for s in body:
            self.exec(s)

    def exec(self, s):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = None if s.value.value is None else self.eval(s.value.value)
            self.do_yield(v)
            return
        if isinstance(s.value, ast.YieldFrom):
            self.iterate(self.eval(s.value.value), self.do_yield)
            return
        self.eval(s.value)

    def do_yield(self, v):
        fid = self.fid
        emit, caller = self._emit[fid]
        self.fid = caller
        try:
            emit(v)
        finally:
            self.fid = fid

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            m = self.ld.module(a.name)
            self.setvar((a.asname or a.name).split(".")[0], ModVal(m) if m else ExtVal(a.name))

    def s_ImportFrom(self, s):
        m = self.ld.module(s.module)
        for a in s.names:
            if m is None:
                v = self.extval(s.module + "." + a.name)
            else:
                r = self.ld.lookup(m, a.name)
                if r is None:
                    raise Unsupported("import " + a.name)
                v = self.global_value(r, a.name, m)
            self.setvar(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        self.setvar(s.name, FuncVal(Func(s, self.curmodule(), None), self.fid))
        # name mangling inside nested functions uses the class of the enclosing frame
        v = self.st.frames[self.fid].vars[s.name]
        v.f.cls_for_mangle = self.curcls()

    def s_Nonlocal(self, s):
        self.st.frames[self.fid].nonlocals = tuple(s.names)

    def s_Global(self, s):
        raise Unsupported("global statement")

    def setvar(self, name, v):
        fid = self.fid
        f = self.st.frames[fid]
        if name in f.nonlocals:
            p = f.parent
            while p is not None and name not in self.st.frames[p].vars:
                p = self.st.frames[p].parent
            fid = p
        self.st.frames[fid].vars[name] = v
        self.st.wlog.add(("var", fid, name))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), any(isinstance(x, ast.Starred) for x in t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), mangle(t.attr, self.curcls()), v)
        elif isinstance(t, ast.Subscript):
            c = self.eval(t.value)
            i = self.eval(t.slice) if not isinstance(t.slice, ast.Slice) else None
            if isinstance(c, Sym):
                c = self.narrow(c)
            if isinstance(c, Ref) and isinstance(self.st.objs[c.id], DictObj) or isinstance(c, Sym) and c.ty.kind == "dict":
                self.dict_set(c, i, v)
            elif isinstance(c, Ref) and isinstance(self.st.objs[c.id], ListObj) and isinstance(i, int) and all(p[0] == "e" for p in self.st.objs[c.id].parts):
                o = self.list_obj(c, True)
                if not -len(o.parts) <= i < len(o.parts):
                    raise self.excl("IndexError")
                o.parts[i] = ("e", v)
            else:
                raise Unsupported("subscript assignment")
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star):
        if star:
            raise Unsupported("starred assignment")
        v = self.narrow(v)
        if isinstance(v, Lazy):
            v = self.materialise(v)
        if isinstance(v, tuple):
            vals = list(v)
        elif isinstance(v, Sym) and v.ty.kind == "tuple":
            vals = list(self.untuple(v))
        elif self.is_listy(v):
            ps = self.parts_of(v)
            if all(p[0] == "e" for p in ps):
                vals = [p[1] for p in ps]
            elif len(ps) == 1:
                lt, ety = ps[0][1], ps[0][2]
                if not self.branch(self.lenof(lt) == n):
                    raise self.excl("ValueError")
                vals = []
                for _ in range(n):
                    self.st.assume(L.is_snoc(lt))
                    vals.append(self.sym(L.last(lt), ety))
                    lt = z3.simplify(L.init(lt))
                vals.reverse()
            else:
                raise Unsupported("unpack")
        elif isinstance(v, str):
            vals = list(v)
        else:
            raise Unsupported("unpack %r" % (v,))
        if len(vals) != n:
            raise self.excl("ValueError")
        return vals

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            v = self.refine(v, s.annotation)
            self.assign(s.target, v)

    def refine(self, v, ann):
        """declared element types of freshly created empty containers"""
        return v

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
        elif isinstance(t, ast.Attribute):
            cur = self.eval(ast.Attribute(t.value, t.attr, ast.Load()))
        else:
            cur = self.index(self.eval(t.value), self.eval(t.slice))
        v = self.eval(s.value)
        if isinstance(s.op, ast.Add) and isinstance(cur, Ref) and isinstance(self.st.objs[cur.id], ListObj):
            self.container_method("list", cur, "extend", [v], {})
            self.assign(t, cur)
            return
        self.assign(t, self.binop(s.op, cur, v))

    # an if statement whose branches leave everything as it was has no effect: the paths through it need not be told apart
    def same_value(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, z3.AstRef):
            return a.eq(b)
        if isinstance(a, (str, int, float, bool)):
            return a == b
        if isinstance(a, (tuple, list)):
            return len(a) == len(b) and all(self.same_value(x, y) for x, y in zip(a, b))
        if isinstance(a, dict):
            return list(a) == list(b) and all(self.same_value(a[k], b[k]) for k in a)
        names = [n for k in type(a).__mro__ for n in getattr(k, "__slots__", ())] or list(getattr(a, "__dict__", ()))
        if isinstance(a, (Inst, ListObj, DictObj, SetObj, Sym, Ref)):
            return all(self.same_value(getattr(a, n, None), getattr(b, n, None)) for n in names)
        return False

    def same_state(self, a, b):
        for k, f in a.frames.items():
            g = b.frames.get(k)
            if g is None or not self.same_value(f.vars, g.vars):
                return False
        for k, o in a.objs.items():
            if k not in b.objs or not self.same_value(o, b.objs[k]):
                return False
        for k, t in b.farr.items():
            if not t.eq(a.farr[k] if k in a.farr else z3.Const("fld_" + k, z3.ArraySort(I, V))):
                return False
        return all(getattr(a, n).eq(getattr(b, n)) for n in ("larr", "darr", "dkeys", "sarr")) and all(w in a.wlog or (w[0] == "var" and w[1] not in a.frames) or (w[0] in ("fld", "cont") and w[1] not in a.objs and w[1] < 10_000_000) for w in b.wlog) and all(a.over.get(k, 0) == n for k, n in b.over.items() if k in a.objs) and all(k not in a.statics or self.same_value(v, a.statics[k]) for k, v in b.statics.items())

    def calls_only(self, body):
        return all(isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, (ast.Call, ast.Constant))) or (isinstance(s, ast.If) and self.calls_only(s.body) and self.calls_only(s.orelse)) for s in body)

    def without_effect(self, s):
        f = self.st.frames[self.fid]
        if not f.module.name.startswith("brel") or not self.calls_only([s]):
            return False
        k = self.ctxkey("noeffect")
        if s in self.effective or k in self.noeffect:
            return s not in self.effective and self.noeffect[k]
        before = self.st.clone()

        def run():
            try:
                if self.test(self.eval(s.test)):
                    self.exec_block(s.body)
                else:
                    self.exec_block(s.orelse)
            except PyRaise:
                raise Effect()
            if not self.same_state(before, self.st):
                raise Effect()
        try:
            self.explore(self.st, run, "if:%d" % s.lineno)
            r = True
        except Effect:
            self.effective.add(s)
            r = False
        self.noeffect[k] = r
        return r

    def s_If(self, s):
        if self.without_effect(s):
            return
        if self.test(self.eval(s.test)):
            self.exec_block(s.body)
        else:
            self.exec_block(s.orelse)

    def s_Return(self, s):
        v = None if s.value is None else self.eval(s.value)
        r = Ret(v)
        raise r

    def s_Break(self, s):
        raise Brk()

    def s_Continue(self, s):
        raise Cont()

    def s_Assert(self, s):
        t = self.truth_t(self.eval(s.test))
        f = self.st.frames[self.fid].func
        if f is not None and f.module.name.startswith("contracts"):
            self.obligation(s, t)
            return
        if not self.branch(t):
            raise self.excl("AssertionError")

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, "_handling", None)
            if cur is None:
                raise self.excl("RuntimeError")
            raise PyRaise(cur)
        e = s.exc
        if isinstance(e, ast.Call):
            c = self.eval(e.func)
            if isinstance(c, BCls) and c.name in BUILTIN_EXC:
                raise PyRaise(ExcVal(c.name))
            if isinstance(c, ClassVal) and self.is_exc(c.c):
                raise PyRaise(ExcVal(c.c.name, c.c))
            if isinstance(c, ExtVal) and c.name.split(".")[-1].endswith(("Error", "Exception")):
                raise PyRaise(ExcVal(c.name.split(".")[-1]))
            v = self.eval(e)
        else:
            v = self.eval(e)
        if isinstance(v, BCls) and v.name in BUILTIN_EXC:
            v = ExcVal(v.name)
        if isinstance(v, ClassVal) and self.is_exc(v.c):
            v = ExcVal(v.c.name, v.c)
        if isinstance(v, ExcVal):
            raise PyRaise(v)
        raise Unsupported("raise of %r" % (v,))

    def exc_matches(self, exc, c):
        if isinstance(c, tuple):
            return any(self.exc_matches(exc, x) for x in c)
        if isinstance(c, BCls):
            base = getattr(_bi, c.name, None)
            e = getattr(_bi, exc.name, None)
            if e is None and exc.cls is not None:
                for k in exc.cls.mro():
                    for b in k.ext_bases:
                        x = getattr(_bi, b.split(".")[-1], None)
                        if isinstance(x, type) and issubclass(x, base):
                            return True
                return False
            if e is None:
                if c.name in ("Exception", "BaseException"):
                    return True
                return False
            return issubclass(e, base)
        if isinstance(c, ClassVal):
            return exc.cls is not None and exc.cls.subclass_of(c.c)
        if isinstance(c, ExtVal):
            return exc.name == c.name.split(".")[-1]
        raise Unsupported("except clause")

    def s_Try(self, s):
        fid = self.fid
        try:
            try:
                self.exec_block(s.body)
            except PyRaise as e:
                self.fid = fid
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.eval(h.type)):
                        if h.name:
                            self.setvar(h.name, e.exc)
                        old = getattr(self, "_handling", None)
                        self._handling = e.exc
                        try:
                            self.exec_block(h.body)
                        finally:
                            self._handling = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse)
        finally:
            import sys
            et = sys.exc_info()[0]
            if s.finalbody and (et is None or issubclass(et, (PyRaise, Ret, Brk, Cont))):
                self.fid = fid
                self.exec_block(s.finalbody)

    def s_For(self, s):
        it = self.eval(s.iter)
        fid = self.fid

        def body(x):
            old, self.fid = self.fid, fid
            try:
                self.assign(s.target, x)
                try:
                    self.exec_block(s.body)
                except Cont:
                    pass
            finally:
                self.fid = old
        try:
            self.iterate(it, body)
        except Brk:
            self.fid = fid
            return
        self.exec_block(s.orelse)

    def s_While(self, s):
        n = 0
        try:
            while True:
                # unrolled until the condition cannot hold any more
                if not self.test(self.eval(s.test)):
                    break
                n += 1
                if n > 200:
                    raise Unsupported("while loop bound")
                try:
                    self.exec_block(s.body)
                except Cont:
                    pass
        except Brk:
            return
        self.exec_block(s.orelse)

    def s_With(self, s):
        if len(s.items) > 1:
            t = ast.With(items=s.items[1:], body=s.body)
            ast.copy_location(t, s)
            s2 = ast.With(items=s.items[:1], body=[t])
            ast.copy_location(s2, s)
            return self.s_With(s2)
        c = self.eval(s.items[0].context_expr)
        fid = self.fid
        v = self.call(self.getattr(c, "__enter__"), [], {})
        if s.items[0].optional_vars is not None:
            self.assign(s.items[0].optional_vars, v)

        def leave():
            self.fid = fid
            if self.call(self.getattr(c, "__exit__"), [None, None, None], {}) is not None:
                raise Unsupported("__exit__ that returns a value")
        try:
            self.exec_block(s.body)
        except (PyRaise, Ret, Brk, Cont):
            leave()
            raise
        leave()

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                c, i = self.eval(t.value), self.eval(t.slice)
                if isinstance(c, Ref) and isinstance(self.st.objs[c.id], DictObj):
                    self.container_method("dict", c, "pop", [i], {})
                    continue
            raise Unsupported("del")

    def s_Match(self, s):
        v = self.eval(s.subject)
        for c in s.cases:
            p = c.pattern
            ok = None
            if isinstance(p, ast.MatchValue):
                ok = self.branch(self.eq(v, self.eval(p.value)))
            elif isinstance(p, ast.MatchSingleton):
                ok = self.branch(self.ident(v, p.value))
            elif isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    self.setvar(p.name, v)
                ok = True
            elif isinstance(p, ast.MatchOr) and all(isinstance(x, ast.MatchValue) for x in p.patterns):
                ok = any(self.branch(self.eq(v, self.eval(x.value))) for x in p.patterns)
            elif isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                ok = self.test(self.prim("isinstance").fn([v, self.eval(p.cls)], {}))
            else:
                raise Unsupported("match pattern")
            if ok and c.guard is not None:
                ok = self.test(self.eval(c.guard))
            if ok:
                self.exec_block(c.body)
                return

    def obligation(self, s, t):
        raise Unsupported("assert outside a law")
