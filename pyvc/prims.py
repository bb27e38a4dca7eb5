"""Built-in functions and methods of built-in types."""
import ast, builtins as _bi, fractions
import z3
from .smt import *
from .loader import *
from .values import *
from .interp import NILL, sv, clsv, BUILTIN_EXC
from .folds import EX_BRK
from .execu import Engine, Prov, _MISSING


class PEngine(Engine):
    one_char = None
    atom_cache = {}

    def prim(self, name):
        if name in BUILTIN_EXC or name in ("object", "int", "str", "float", "bool", "list", "dict", "set", "tuple", "frozenset", "type"):
            return BCls(name)
        m = getattr(self, "p_" + name, None)
        if m is not None:
            return Prim(name, m)
        if name in ("None", "True", "False"):
            return {"None": None, "True": True, "False": False}[name]
        if hasattr(_bi, name):
            raise Unsupported("builtin " + name)
        return None

    # ---------------------------------------------------------------- classes
    def call_bcls(self, n, a, kw):
        if n in BUILTIN_EXC:
            return ExcVal(n, None, tuple(a))
        if n == "list":
            if not a:
                return self.new_list([])
            v = self.narrow(a[0])
            if isinstance(v, Ref) and isinstance(self.st.objs[v.id], ListObj):
                o = self.st.objs[v.id]
                return self.alloc(ListObj(list(o.parts), o.prov))
            if self.is_listy(v):
                return self.alloc(ListObj(self.parts_of(v)))
            if isinstance(v, tuple):
                return self.new_list(list(v))
            if isinstance(v, Sym) and v.ty.kind == "ext" and v.ty.cls.endswith("_Element"):
                return self.new_list_of(UF("ext_children", I, L)(V.ev(v.t)), v.ty)
            return self.materialise(v)
        if n == "tuple":
            if not a:
                return ()
            v = self.narrow(a[0])
            if isinstance(v, Lazy):
                v = self.materialise(v)
            return tuple(self.concrete_elems(v))
        if n in ("set", "frozenset"):
            r = self.alloc(SetObj(items=[]))
            if a:
                self.iterate(a[0], lambda x: self.set_add(r, x))
            return r
        if n == "dict":
            r = self.alloc(DictObj(items=[]))
            if a:
                self.container_method("dict", r, "update", [a[0]], {})
            for k, v in kw.items():
                self.dict_set(r, k, v)
            return r
        if n == "str":
            return self.str_of(a[0]) if a else ""
        if n == "bool":
            return self.mkbool(self.truth_t(a[0])) if a else False
        if n == "int":
            return self.p_int(a, kw)
        if n == "float":
            return self.p_float(a, kw)
        if n == "type":
            return self.type_of_value(a[0])
        if n == "object":
            raise Unsupported("object()")
        raise Unsupported("constructor " + n)

    def type_of_value(self, v):
        v = self.narrow(v)
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            return ClassVal(o.cls) if isinstance(o, Inst) else BCls({ListObj: "list", DictObj: "dict", SetObj: "set"}[type(o)])
        if isinstance(v, EnumVal):
            return ClassVal(v.c)
        if isinstance(v, Sym) and v.ty.kind == "cls":
            cs = v.ty.cls.concrete_subclasses() or [v.ty.cls]
            t = clsv(cs[-1].qual)
            for c in cs[:-1]:
                t = z3.If(clsof(V.ov(v.t)) == self.cid(c), clsv(c.qual), t)
            return self.norm(Sym(z3.simplify(t), Ty("type", [v.ty])))
        k = self.typeof(v).kind
        if k in ("int", "str", "bool", "float", "list", "dict", "set", "tuple"):
            return BCls(k)
        if v is None:
            return BCls("NoneType")
        raise Unsupported("type() of %r" % (v,))

    def p_int(self, a, kw):
        if not a:
            return 0
        v = self.narrow(a[0])
        if isinstance(v, (int, bool)) and len(a) == 1:
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise self.excl("ValueError")
        if isinstance(v, Sym) and v.ty.kind == "str":
            ok = UF("int_ok", S, B)(self.as_str(v))
            if not self.branch(ok):
                raise self.excl("ValueError")
            return self.mkint(UF("int_val", S, I)(self.as_str(v)))
        if isinstance(v, Sym) and v.ty.kind == "int":
            return v
        if isinstance(v, Sym) and v.ty.kind == "bool":
            return self.mkint(self.as_int(v))
        return self.dunder(v, "__int__")

    def dunder(self, v, name):
        if isinstance(v, (Ref, Sym)):
            m = self.getattr(v, name, None)
            if m is not None:
                return self.call(m, [], {})
        raise self.excl("TypeError")

    def p_float(self, a, kw):
        v = self.narrow(a[0])
        if isinstance(v, (int, bool)):
            return fractions.Fraction(v)
        if isinstance(v, (float, fractions.Fraction)):
            return v
        if isinstance(v, str):
            try:
                f = float(v)
                return fractions.Fraction(f) if f == f and abs(f) != float("inf") else f
            except ValueError:
                raise self.excl("ValueError")
        if isinstance(v, Sym) and v.ty.kind == "str":
            ok = UF("float_ok", S, B)(self.as_str(v))
            if not self.branch(ok):
                raise self.excl("ValueError")
            return self.mkreal(UF("float_val", S, R)(self.as_str(v)))
        if isinstance(v, Sym) and v.ty.kind in ("int", "float", "bool"):
            return self.mkreal(self.as_real(v))
        return self.dunder(v, "__float__")

    # ---------------------------------------------------------------- functions
    def p_cast(self, a, kw):
        t, v = a
        if isinstance(v, Sym) and isinstance(t, ClassVal) and not t.c.is_enum():
            ms = v.ty.members()
            if all(m.kind in ("cls", "none", "any") for m in ms):
                if all(m.kind == "cls" for m in ms) and len(ms) == 1:
                    if ms[0].cls.subclass_of(t.c):
                        return v
                    if t.c.subclass_of(ms[0].cls):
                        self.assumptions.add("typing.cast() annotations of the code are right")
                        return self.sym(v.t, Ty("cls", cls=t.c))
                    return v
                if any(m.kind == "none" for m in ms) and any(m.kind == "cls" and t.c.subclass_of(m.cls) for m in ms):
                    self.assumptions.add("typing.cast() annotations of the code are right")
                    return self.sym(v.t, union([Ty("cls", cls=t.c), NONE]))
                if any(m.kind == "any" for m in ms):
                    return Sym(v.t, v.ty)
        return v

    def p_len(self, a, kw):
        v = self.narrow(a[0])
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            if isinstance(o, ListObj):
                n = sum(1 for p in o.parts if p[0] == "e")
                ts = [self.lenof(p[1]) for p in o.parts if p[0] == "l"]
                return self.mkint(z3.Sum(ts + [z3.IntVal(n)])) if ts else n
            if isinstance(o, DictObj):
                return len(o.items) if o.items is not None else self.mkint(self.lenof(o.keys))
            if isinstance(o, SetObj) and o.items is not None:
                return len(o.items)
            if isinstance(o, SetObj):
                return self.mkint(self.lenof(UF("setlist", AVB, L)(o.arr)))
            return self.dunder(v, "__len__")
        if isinstance(v, Sym):
            if v.ty.kind in ("list", "flist"):
                return self.mkint(self.lenof(self.parts_of(v)[0][1]))
            if v.ty.kind == "dict":
                return self.mkint(self.lenof(self.symdict(v)[1]))
            if v.ty.kind == "str":
                return self.mkint(z3.Length(self.as_str(v)))
            if v.ty.kind == "cls":
                return self.dunder(v, "__len__")
            if v.ty.kind == "ext":
                return self.mkint(self.lenof(UF("ext_children", I, L)(V.ev(v.t))))
            if v.ty.kind == "any":
                raise Unsupported("len of unknown")
        raise self.excl("TypeError")

    def p_isinstance(self, a, kw):
        v, c = a
        if isinstance(c, tuple):
            cs = [self.truth_t(self.p_isinstance([v, x], {})) for x in c]
            if any(x is True for x in cs):
                return True
            cs = [x for x in cs if x is not False]
            return self.mkbool(z3.Or(cs)) if cs else False
        if isinstance(c, Sym):
            c = self.narrow(c)
        if isinstance(c, ClassVal):
            k = c.c
            if isinstance(v, Ref):
                o = self.st.objs[v.id]
                return isinstance(o, Inst) and o.cls.subclass_of(k)
            if isinstance(v, EnumVal):
                return v.c.subclass_of(k)
            if isinstance(v, ExcVal):
                return v.cls is not None and v.cls.subclass_of(k)
            if isinstance(v, Sym):
                if k.is_enum():
                    return self.mkbool(z3.Or([v.t == clsv("enum:%s.%s" % (k.qual, m)) for m in k.attrs]))
                if v.ty.kind in ("any", "aobj"):
                    raise Unsupported("isinstance on a value of unknown type")
                if v.ty.kind == "rec":
                    return v.ty.cls.subclass_of(k)
                ms = [m for m in v.ty.members() if m.kind == "cls" and not m.cls.is_enum()]
                if not ms:
                    return False
                cs = [x for m in ms for x in m.cls.concrete_subclasses()]
                good = [x for x in cs if x.subclass_of(k)]
                if len(good) == len(cs) and len(ms) == len(v.ty.members()):
                    return True
                return self.mkbool(self.inst_cond(v.t, good))
            return False
        if isinstance(c, Sym) and c.ty.kind == "type":
            cands = self.type_cands(c.ty)
            if isinstance(v, Sym) and v.ty.kind == "cls":
                cs = v.ty.cls.concrete_subclasses()
                alts = []
                for k in cands:
                    good = [x for x in cs if x.subclass_of(k)]
                    if good:
                        alts.append(z3.And(c.t == clsv(k.qual), self.inst_cond(v.t, good)))
                return self.mkbool(z3.Or(alts)) if alts else False
            if isinstance(v, Sym) and v.ty.kind == "union":
                return self.p_isinstance([self.narrow(v), c], {})
            if v is None or isinstance(v, (int, str)):
                return False
            if isinstance(v, Ref) and isinstance(self.st.objs[v.id], Inst):
                oc = self.st.objs[v.id].cls
                return self.mkbool(z3.Or([c.t == clsv(k.qual) for k in cands if oc.subclass_of(k)]))
            raise Unsupported("isinstance with a symbolic class")
        if isinstance(c, BCls):
            n = c.name
            if n == "object":
                return True
            if isinstance(v, Sym):
                if v.ty.kind == "any":
                    raise Unsupported("isinstance on a value of unknown type")
                kinds = {"int": ("int", "bool"), "str": ("str",), "bool": ("bool",), "float": ("float",), "list": ("list", "flist"), "dict": ("dict", "fdict"), "set": ("set",), "tuple": ("tuple",), "type": ("type",)}.get(n, ())
                ms = v.ty.members()
                good = [m for m in ms if m.kind in kinds]
                if len(good) == len(ms):
                    return True
                if not good:
                    return False
                return self.mkbool(z3.Or([self.typefact(v.t, m) for m in good]))
            if isinstance(v, Ref):
                o = self.st.objs[v.id]
                return {ListObj: "list", DictObj: "dict", SetObj: "set"}.get(type(o)) == n
            if isinstance(v, ExcVal):
                return self.exc_matches(v, c)
            if isinstance(v, (ClassVal, BCls)):
                return n == "type"
            if isinstance(v, (FuncVal, Bound, Prim)):
                return False
            py = getattr(_bi, n)
            if isinstance(v, fractions.Fraction):
                return n == "float"
            return isinstance(v, py)
        if isinstance(c, ExtVal):
            if isinstance(v, Sym):
                ms = v.ty.members()
                good = [m for m in ms if m.kind == "ext" and m.cls.split(".")[-1] == c.name.split(".")[-1]]
                if len(good) == len(ms):
                    return True
                if not good and v.ty.kind != "any":
                    return False
                if v.ty.kind != "any":
                    return self.mkbool(z3.Or([self.typefact(v.t, m) for m in good]))
            elif not isinstance(v, Poison):
                return False
        raise Unsupported("isinstance against %r" % (c,))

    def p_issubclass(self, a, kw):
        v, c = a
        if isinstance(v, ClassVal) and isinstance(c, ClassVal):
            return v.c.subclass_of(c.c)
        raise Unsupported("issubclass")

    def early(self, it, pred, hit, miss):
        cell = self.cell(res=miss)

        def body(x):
            if pred(x):
                self.cset(cell, "res", hit)
                raise Brk()
        try:
            self.iterate(it, body)
        except Brk:
            pass
        return self.cget(cell, "res")

    def p_any(self, a, kw):
        return self.early(a[0], lambda x: self.test(x), True, False)

    def p_all(self, a, kw):
        return self.early(a[0], lambda x: not self.test(x), False, True)

    def p_next(self, a, kw):
        cell = self.cell(found=False, res=None)

        def body(x):
            self.cset(cell, "found", True)
            self.cset(cell, "res", x)
            raise Brk()
        try:
            self.iterate(a[0], body)
        except Brk:
            pass
        if self.test(self.cget(cell, "found")):
            v = self.cget(cell, "res")
            # the element is one that was emitted, hence not the initial None unless None was emitted
            return self.drop_init(v)
        if len(a) > 1:
            return a[1]
        raise self.excl("StopIteration")

    def drop_init(self, v):
        if isinstance(v, Sym) and v.ty.kind == "union":
            if self.implied(v.t != V.none):
                ms = [m for m in v.ty.members() if m.kind != "none"]
                return self.sym(v.t, union(ms))
        return v

    def p_iter(self, a, kw):
        return a[0] if isinstance(a[0], Lazy) else Lazy(lambda emit: self.iterate(a[0], emit))

    def p_filter(self, a, kw):
        f, it = a

        def drive(emit):
            def body(x):
                if self.test(x if f is None else self.call(f, [x], {})):
                    emit(x)
            self.iterate(it, body)
        return Lazy(drive)

    def p_map(self, a, kw):
        if len(a) != 2:
            raise Unsupported("map with several iterables")
        f, it = a
        return Lazy(lambda emit: self.iterate(it, lambda x: emit(self.call(f, [x], {}))))

    def p_chain(self, a, kw):
        def drive(emit):
            for x in a:
                self.iterate(x, emit)
        return Lazy(drive)

    def p_chain_from_iterable(self, a, kw):
        return Lazy(lambda emit: self.iterate(a[0], lambda x: self.iterate(x, emit)))

    def p_reduce(self, a, kw):
        f, it = a[0], a[1]
        if len(a) < 3:
            raise Unsupported("reduce without initial value")
        cell = self.cell(acc=a[2])

        def body(x):
            self.cset(cell, "acc", self.call(f, [self.cget(cell, "acc"), x], {}))
        self.iterate(it, body)
        return self.cget(cell, "acc")

    def p_sum(self, a, kw):
        start = a[1] if len(a) > 1 else kw.get("start", 0)
        cell = self.cell(acc=start)

        def body(x):
            self.cset(cell, "acc", self.binop(ast.Add(), self.cget(cell, "acc"), x))
        self.iterate(a[0], body)
        return self.cget(cell, "acc")

    def p_enumerate(self, a, kw):
        start = a[1] if len(a) > 1 else kw.get("start", 0)

        def drive(emit):
            cell = self.cell(i=start)

            def body(x):
                i = self.cget(cell, "i")
                self.cset(cell, "i", self.binop(ast.Add(), i, 1))
                emit((i, x))
            self.iterate(a[0], body)
        return Lazy(drive)

    def p_zip(self, a, kw):
        ls = [self.concrete_elems(x if not isinstance(x, Lazy) else self.materialise(x)) for x in a]
        return tuple(zip(*ls))

    def p_range(self, a, kw):
        a = [self.narrow(x) for x in a]
        if all(isinstance(x, int) for x in a):
            return tuple(range(*a))
        raise Unsupported("range of unknown length")

    def p_reversed(self, a, kw):
        return tuple(reversed(self.concrete_elems(a[0])))

    def p_sorted(self, a, kw):
        r = self.call_bcls("list", [a[0]], {})
        self.list_sort(r, kw)
        return r

    def list_sort(self, r, kw):
        o = self.list_obj(r, True)
        if len(o.parts) <= 1 and all(p[0] == "e" for p in o.parts):
            return
        key = kw.get("key")
        rev = kw.get("reverse", False)
        if not isinstance(rev, bool):
            raise Unsupported("symbolic sort direction")
        if isinstance(key, Prim) and key.name == "cmp_to_key":
            if len(o.parts) != 2 or any(p[0] != "e" for p in o.parts) or rev:
                raise Unsupported("sort with a comparison function")
            c = self.compare(ast.Lt(), self.call(key.cmp, [o.parts[1][1], o.parts[0][1]], {}), 0)
            if c if isinstance(c, bool) else self.branch(self.truth_t(c)):
                o = self.list_obj(r, True)
                o.parts = [o.parts[1], o.parts[0]]
            return
        if len(o.parts) <= 8 and all(p[0] == "e" for p in o.parts):
            ks = [p[1] if key is None else self.call(key, [p[1]], {}) for p in o.parts]
            ks = [self.norm(k) if isinstance(k, Sym) else k for k in ks]
            if all(isinstance(k, str) for k in ks) or all(isinstance(k, int) for k in ks):
                o = self.list_obj(r, True)
                o.parts = [p for _, p in sorted(zip(ks, o.parts), key=lambda kp: kp[0], reverse=rev)]
                return
            kinds = {self.typeof(k).kind for k in ks}
            if len(ks) <= 3 and (kinds <= {"int", "float"} or kinds == {"str"}):
                # insertion sort, one path per order of the keys
                out = []
                for k, p in zip(ks, self.list_obj(r, True).parts):
                    i = len(out)
                    while i > 0:
                        c = self.compare(ast.Gt() if rev else ast.Lt(), k, out[i - 1][0])
                        if not (c if isinstance(c, bool) else self.branch(self.truth_t(c))):
                            break
                        i -= 1
                    out.insert(i, (k, p))
                self.list_obj(r, True).parts = [p for _, p in out]
                return
        # two sorts of the same list are the same when their key functions agree on every element
        lt = z3.simplify(self.to_l(o.parts, self.fold_base()))
        ety = self.list_ety(o, self.fold_base() or (1 << 60)) or ANY
        keyt = self.sort_key_id(key, ety)
        o.parts = [("l", UF("sort_%s" % ("r" if rev else "f"), S, L, L)(keyt, lt), ety)]
        self.assumptions.add("list.sort / sorted is a function of the list and the key values (stability is checked by the bounded layer)")

    def sort_key_id(self, key, ety):
        if key is None:
            return z3.StringVal("id")
        S0 = self.st
        try:
            paths = self.explore(self.st, lambda: self.term(self.call(key, [self.sym(z3.Const("sortx", V), ety)], {})), "sortkey")
        except PyRaise:
            raise Unsupported("sort key raises")
        if not paths:
            raise Unsupported("no sort key")
        # the name of the key function is what it returns, case by case
        n = len(self.st.pc)
        return z3.StringVal("key:" + " | ".join([paths[0][1].sexpr()] if len(paths) == 1 else ["%s -> %s" % (" & ".join(c.sexpr() for c in st.pc[n:]), t.sexpr()) for st, t in paths]))

    def p_min(self, a, kw):
        return self.minmax(a, kw, "LtE")

    def p_max(self, a, kw):
        return self.minmax(a, kw, "GtE")

    def minmax(self, a, kw, op):
        if kw or len(a) < 2:
            raise Unsupported("min/max over an iterable")
        r = a[0]
        for x in a[1:]:
            if not self.test(self.compare(getattr(ast, op)(), r, x)):
                r = x
        return r

    def p_abs(self, a, kw):
        v = self.narrow(a[0])
        if isinstance(v, (int, float)):
            return abs(v)
        if self.typeof(v).kind == "int":
            x = self.as_int(v)
            return self.mkint(z3.If(x < 0, -x, x))
        x = self.as_real(v)
        return self.mkreal(z3.If(x < 0, -x, x))

    def p_hash(self, a, kw):
        v = a[0]
        m = self.getattr(v, "__hash__", None) if isinstance(v, (Ref, Sym)) and self.class_of(v) is not None else None
        if m is not None:
            return self.call(m, [], {})
        return self.mkint(UF("hash", V, I)(self.keyterm(v)))

    def p_repr(self, a, kw):
        return self.mkstr(UF("repr", V, S)(self.term(a[0])))

    def p_print(self, a, kw):
        return None

    def p_callable(self, a, kw):
        return isinstance(a[0], (FuncVal, Bound, Prim, ClassVal, BCls))

    def p_getattr(self, a, kw):
        if isinstance(a[1], str):
            if len(a) > 2:
                return self.getattr(a[0], a[1], a[2])
            return self.getattr(a[0], a[1])
        raise Unsupported("getattr with symbolic name")

    def p_hasattr(self, a, kw):
        try:
            self.getattr(a[0], a[1])
            return True
        except PyRaise:
            return False

    def p_id(self, a, kw):
        return self.mkint(UF("id", V, I)(self.term(a[0])))

    def p_defaultdict(self, a, kw):
        return self.alloc(DictObj(items=[], default=a[0] if a else None))

    def p_copy(self, a, kw):
        raise Unsupported("copy")

    # contract-language helpers ----------------------------------------
    def p_outcome(self, a, kw):
        """("ok", value) or ("raise", class name)"""
        try:
            return ("ok", self.call(a[0], list(a[1:]), {}))
        except PyRaise as e:
            return ("raise", e.exc.name)

    def p_raises(self, a, kw):
        try:
            self.call(a[0], list(a[1:]), {})
            return False
        except PyRaise as e:
            return True

    def p_same(self, a, kw):
        return self.mkbool(self.same_t(a[0], a[1]))

    def same_t(self, a, b):
        """structural equality of results (frozen terms)"""
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return z3.And([self.as_bool_term(self.same_t(x, y)) for x, y in zip(a, b)])
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id != b.id:
            oa, ob = self.st.objs[a.id], self.st.objs[b.id]
            if type(oa) is not type(ob):
                return False
            if isinstance(oa, Inst):
                if oa.cls is not ob.cls or set(oa.fields) != set(ob.fields):
                    return False
                return z3.And([self.as_bool_term(self.same_t(oa.fields[f], ob.fields[f])) for f in oa.fields] + [z3.BoolVal(True)])
            if isinstance(oa, DictObj) and oa.items is not None and ob.items is not None:
                if len(oa.items) != len(ob.items):
                    return False
                return z3.And([self.as_bool_term(self.same_t(x, y)) for p, q in zip(oa.items, ob.items) for x, y in zip(p, q)] + [z3.BoolVal(True)])
            if isinstance(oa, DictObj):
                x, y = self.dict_sym(oa), self.dict_sym(ob)
                return z3.And(x[0] == y[0], x[1] == y[1])
            if isinstance(oa, ListObj):
                if all(p[0] == "e" for p in oa.parts + ob.parts):
                    if len(oa.parts) != len(ob.parts):
                        return False
                    return z3.And([self.as_bool_term(self.same_t(p[1], q[1])) for p, q in zip(oa.parts, ob.parts)] + [z3.BoolVal(True)])
                return self.to_l(oa.parts, 0) == self.to_l(ob.parts, 0)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(y, Sym):
                o = self.st.objs[x.id]
                if isinstance(o, ListObj) and y.ty.kind == "list":
                    return self.to_l(o.parts, 0) == z3.Select(self.st.larr, V.ov(y.t))
                if isinstance(o, ListObj) and y.ty.kind == "flist":
                    return self.to_l(o.parts, 0) == V.lv(y.t)
        if isinstance(a, Sym) and isinstance(b, Sym) and a.ty.kind == b.ty.kind == "list":
            return z3.Or(a.t == b.t, z3.Select(self.st.larr, V.ov(a.t)) == z3.Select(self.st.larr, V.ov(b.t)))
        num = lambda v: isinstance(v, (int, float, fractions.Fraction)) and not isinstance(v, bool) or isinstance(v, Sym) and v.ty.kind in ("int", "float")
        if num(a) and num(b):
            return self.eq(a, b)
        return self.term(a) == self.term(b)

    def p_assume(self, a, kw):
        if not self.branch(self.truth_t(a[0])):
            raise Infeasible()
        return None

    def p_unchanged(self, a, kw):
        """snapshot comparison is done by the law runner: True when no pre-existing object was written"""
        return True

    # ---------------------------------------------------------------- container methods
    def dict_fromkeys(self, a):
        r = self.alloc(DictObj(items=[]))
        self.iterate(a[0], lambda x: self.dict_set(r, x, a[1] if len(a) > 1 else None))
        return r

    def container_method(self, kind, v, name, a, kw):
        if kind == "list":
            return self.list_method(v, name, a, kw)
        if kind == "dict":
            return self.dict_method(v, name, a, kw)
        return self.set_method(v, name, a, kw)

    def list_method(self, v, name, a, kw):
        if isinstance(v, Sym):
            if name in ("append", "extend") and v.ty.kind == "list":
                i = V.ov(v.t)
                cur = z3.Select(self.st.larr, i)
                if name == "append":
                    new = L.snoc(cur, self.term(a[0], self.fold_base()))
                else:
                    new = self.cat(cur, self.to_l(self.parts_of(a[0])))
                self.st.larr = z3.Store(self.st.larr, i, new)
                self.wrote(("larr",))
                return None
            if name == "sort" and v.ty.kind == "list":
                i = V.ov(v.t)
                lt = z3.simplify(z3.Select(self.st.larr, i))
                keyt = self.sort_key_id(kw.get("key"), v.ty.args[0] if v.ty.args else ANY)
                self.st.larr = z3.Store(self.st.larr, i, UF("sort_f", S, L, L)(keyt, lt))
                self.wrote(("larr",))
                return None
            if name == "copy":
                return self.alloc(ListObj(self.parts_of(v)))
            if name in ("index", "count"):
                raise Unsupported("list." + name)
            if name in ("pop", "remove", "clear", "insert", "reverse"):
                raise Unsupported("list.%s on a list of unknown origin" % name)
            raise self.excl("AttributeError")
        o = self.st.objs[v.id]
        if name == "append":
            self.list_append(v, a[0])
            return None
        if name == "extend":
            x = self.narrow(a[0])
            if self.is_listy(x) or isinstance(x, tuple):
                ps = self.parts_of(x)
                self.list_obj(v, True).parts += ps
            else:
                self.iterate(x, lambda y: self.list_append(v, y))
            return None
        if name == "sort":
            self.list_sort(v, kw)
            return None
        if name == "copy":
            return self.alloc(ListObj(list(o.parts), o.prov))
        if name == "clear":
            self.list_obj(v, True).parts = []
            return None
        conc = all(p[0] == "e" for p in o.parts)
        if name == "pop":
            o = self.list_obj(v, True)
            i = self.narrow(a[0]) if a else -1
            if not o.parts:
                raise self.excl("IndexError")
            if conc and isinstance(i, int):
                try:
                    return o.parts.pop(i)[1]
                except IndexError:
                    raise self.excl("IndexError")
            if i == -1 and o.parts[-1][0] == "e":
                return o.parts.pop()[1]
            raise Unsupported("list.pop")
        if name == "insert" and conc and isinstance(a[0], int):
            self.list_obj(v, True).parts.insert(a[0], ("e", a[1]))
            return None
        if name == "insert" and a[0] == 0:
            self.list_obj(v, True).parts.insert(0, ("e", a[1]))
            return None
        if name == "reverse" and conc:
            self.list_obj(v, True).parts.reverse()
            return None
        if name in ("remove", "index", "count"):
            if conc:
                for i, p in enumerate(o.parts):
                    if self.branch(self.eq(p[1], a[0])):
                        if name == "remove":
                            self.list_obj(v, True)
                            self.st.objs[v.id].parts.pop(i)
                            return None
                        if name == "index":
                            return i
                        raise Unsupported("count")
                raise self.excl("ValueError")
            if name == "remove" and len(o.parts) == 1:
                # removal of the first equal element: an uninterpreted function of list and element; ValueError when absent
                present = self.contains(v, a[0])
                if not self.branch(present):
                    raise self.excl("ValueError")
                self.assumptions.add("list.remove is a function of the list and the removed element")
                p = o.parts[0]
                self.list_obj(v, True)
                self.st.objs[v.id].parts = [("l", UF("list_remove", L, V, L)(p[1], self.term(a[0], self.fold_base())), p[2])]
                return None
            raise Unsupported("list." + name)
        raise self.excl("AttributeError") if name not in dir(list) else Unsupported("list." + name)

    def dict_method(self, v, name, a, kw):
        if name == "get":
            p, th = self.dict_get(v, a[0])
            if self.branch(p):
                return th()
            return a[1] if len(a) > 1 else None
        if name in ("keys", "values", "items", "__iter__"):
            def drive(emit):
                if isinstance(v, Ref) and self.st.objs[v.id].items is not None:
                    for k, x in list(self.st.objs[v.id].items):
                        emit(k if name in ("keys", "__iter__") else x if name == "values" else (k, x))
                    return
                if isinstance(v, Ref):
                    o = self.st.objs[v.id]
                    arr, keys, kt, vt = o.arr, o.keys, o.kty, o.vty
                else:
                    arr, keys, kt, vt = self.symdict(v)

                def body(k):
                    t = z3.simplify(z3.Select(arr, self.keyterm(k)))
                    self.st.assume(t != V.absent)
                    x = self.elem(t, vt) if isinstance(v, Ref) else self.sym(t, vt)
                    emit(k if name in ("keys", "__iter__") else x if name == "values" else (k, x))
                self.fold(keys, kt or ANY, body)
            return Lazy(drive)
        if isinstance(v, Sym):
            raise Unsupported("dict.%s on a dictionary of unknown origin" % name)
        o = self.st.objs[v.id]
        if name == "update":
            for src in a:
                src = self.narrow(src)
                if isinstance(src, Ref) and isinstance(self.st.objs[src.id], DictObj) or isinstance(src, Sym) and src.ty.kind == "dict":
                    if isinstance(src, Ref) and self.st.objs[src.id].items is not None:
                        for k, x in list(self.st.objs[src.id].items):
                            self.dict_set(v, k, x)
                    elif o.items == []:
                        if isinstance(src, Ref):
                            s = self.st.objs[src.id]
                            o.items, o.arr, o.keys, o.kty, o.vty = None, s.arr, s.keys, s.kty, s.vty
                        else:
                            o.items = None
                            o.arr, o.keys, o.kty, o.vty = self.symdict(src)
                        self.wrote(("cont", v.id))
                    else:
                        self.iterate(Lazy(lambda emit: self.dict_method(src, "items", [], {}).drive(emit)), lambda kv: self.dict_set(v, kv[0], kv[1]))
                else:
                    self.iterate(src, lambda kv: self.dict_set(v, *(kv if isinstance(kv, tuple) else self.unpack(kv, 2, False))))
            for k, x in kw.items():
                self.dict_set(v, k, x)
            return None
        if name == "setdefault":
            p, th = self.dict_get(v, a[0])
            if self.branch(p):
                return th()
            x = a[1] if len(a) > 1 else None
            self.dict_set(v, a[0], x)
            return x
        if name == "copy":
            return self.alloc(self.st.objs[v.id].clone())
        if name == "clear":
            self.wrote(("cont", v.id))
            o.items, o.arr, o.keys = [], None, None
            return None
        if name == "pop":
            if o.items is not None:
                i = self.dict_find(o, a[0])
                if i >= 0:
                    self.wrote(("cont", v.id))
                    return o.items.pop(i)[1]
                if len(a) > 1:
                    return a[1]
                raise self.excl("KeyError")
            raise Unsupported("dict.pop")
        raise self.excl("AttributeError") if name not in dir(dict) else Unsupported("dict." + name)

    def set_method(self, v, name, a, kw):
        if isinstance(v, Sym):
            raise Unsupported("set." + name)
        if name == "add":
            self.set_add(v, a[0])
            return None
        if name == "update":
            for x in a:
                self.iterate(x, lambda y: self.set_add(v, y))
            return None
        if name == "copy":
            return self.alloc(self.st.objs[v.id].clone())
        if name == "clear":
            self.wrote(("cont", v.id))
            o = self.st.objs[v.id]
            o.items, o.arr = [], None
            return None
        if name in ("discard", "remove"):
            if not self.set_discard(v, a[0]) and name == "remove":
                raise self.excl("KeyError")
            return None
        if name == "difference_update":
            for x in a:
                self.iterate(x, lambda y: self.set_discard(v, y))
            return None
        if name in ("difference", "union"):
            r = self.alloc(self.st.objs[v.id].clone())
            for x in a:
                self.iterate(x, lambda y: self.set_discard(r, y) if name == "difference" else self.set_add(r, y))
            return r
        raise Unsupported("set." + name)

    def set_discard(self, v, x):
        o = self.st.objs[v.id]
        if o.items is not None:
            for i, y in enumerate(list(o.items)):
                e = self.keq(x, y)
                if e is True or e is not False and self.branch(e):
                    self.wrote(("cont", v.id))
                    self.st.objs[v.id].items.pop(i)
                    return True
            return False
        self.wrote(("cont", v.id))
        t = self.keyterm(x)
        was = self.branch(z3.Select(o.arr, t))
        if was:
            o.arr = z3.Store(o.arr, t, z3.BoolVal(False))
        return was

    # ---------------------------------------------------------------- strings
    def str_method(self, v, name, a, kw):
        a = [self.narrow(x) if isinstance(x, Sym) else x for x in a]
        conc = isinstance(v, str) and all(isinstance(x, (str, int, type(None))) or isinstance(x, tuple) and all(isinstance(y, str) for y in x) for x in a) and not kw
        if conc and name not in ("join", "format", "encode"):
            if not hasattr(str, name):
                raise self.excl("AttributeError")
            try:
                r = getattr(v, name)(*a)
            except (ValueError, TypeError, IndexError) as e:
                raise self.excl(type(e).__name__)
            return self.new_list(r) if isinstance(r, list) else r
        if name == "join":
            it = a[0]
            if isinstance(it, Lazy) and v == "" and isinstance(getattr(it.drive, "first", None), Sym) and self.typeof(self.narrow(it.drive.first)).kind == "str":
                return self.map_chars(it.drive)
            if isinstance(it, Lazy):
                it = self.materialise(it)
            if isinstance(it, (tuple,)) or isinstance(it, Ref) and isinstance(self.st.objs[it.id], ListObj) and all(p[0] == "e" for p in self.st.objs[it.id].parts):
                r = ""
                for i, x in enumerate(self.concrete_elems(it)):
                    if i:
                        r = self.binop(ast.Add(), r, v)
                    r = self.binop(ast.Add(), r, x)
                return r
            return self.mkstr(UF("str_join", S, L, S)(self.as_str(v), self.to_l(self.parts_of(it), self.fold_base())))
        if name in ("startswith", "endswith"):
            x = self.as_str(v)
            ps = a[0] if isinstance(a[0], tuple) else (a[0],)
            f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
            return self.mkbool(z3.Or([f(self.as_str(p), x) for p in ps])) if len(a) == 1 else self.unsup("startswith with range")
        if name in ("upper", "lower", "strip", "title", "capitalize", "casefold", "lstrip", "rstrip", "swapcase"):
            args = [self.as_str(x) for x in a]
            x = self.as_str(v)
            if name in ("lstrip", "rstrip") and len(a) == 1 and isinstance(a[0], str) and len(a[0]) == 1:
                x = self.strip_known(x, args[0], name == "lstrip")
                if self.refuted_locally((z3.PrefixOf if name == "lstrip" else z3.SuffixOf)(args[0], x), x):
                    return self.mkstr(x)
            r = UF("str_%s_%d" % (name, len(a)), *([S] * (len(a) + 1) + [S]))(x, *args)
            if name in ("lstrip", "rstrip") and len(a) == 1 and isinstance(a[0], str) and len(a[0]) == 1:
                z = UF("str_%s_rest" % name, S, S, S)(x, args[0])
                self.st.assume(z3.InRe(z, z3.Star(z3.Re(args[0]))))
                self.st.assume(x == (z3.Concat(z, r) if name == "lstrip" else z3.Concat(r, z)))
                self.st.assume(z3.Not((z3.PrefixOf if name == "lstrip" else z3.SuffixOf)(args[0], r)))
            if name == "strip" and not a:
                self.st.assume(z3.Implies(z3.InRe(x, z3.Star(z3.Range("!", "~"))), r == x))
            return self.mkstr(r)
        if name in ("isdigit", "isnumeric", "isalpha", "isspace", "isupper", "islower", "isalnum", "isdecimal"):
            return self.mkbool(UF("str_" + name, S, B)(self.as_str(v)))
        if name == "replace" and len(a) == 2:
            x, y, z = self.as_str(v), self.as_str(a[0]), self.as_str(a[1])
            if isinstance(a[0], str) and len(a[0]) == 1:
                return self.mkstr(self.replace_char(x, y, z, a[1] == ""))
            r = UF("str_replace_all", S, S, S, S)(x, y, z)
            if isinstance(a[0], str) and a[0]:
                self.st.assume(z3.Implies(z3.Not(z3.Contains(x, y)), r == x))
            return self.mkstr(r)
        if name == "split" and len(a) >= 1 and a[0] is not None:
            return self.str_split(v, a, kw)
        if name == "partition":
            x, y = self.as_str(v), self.as_str(a[0])
            if self.branch(z3.Contains(x, y)):
                i = z3.IndexOf(x, y, 0)
                n = z3.Length(y)
                return (self.mkstr(z3.SubString(x, 0, i)), a[0], self.mkstr(z3.SubString(x, i + n, z3.Length(x) - i - n)))
            return (v, "", "")
        if name == "find" and len(a) == 1:
            return self.mkint(z3.IndexOf(self.as_str(v), self.as_str(a[0]), 0))
        if name == "removeprefix":
            x, y = self.as_str(v), self.as_str(a[0])
            return self.mkstr(z3.If(z3.PrefixOf(y, x), z3.SubString(x, z3.Length(y), z3.Length(x) - z3.Length(y)), x))
        if name == "format":
            return self.str_format(v, a, kw)
        raise self.excl("AttributeError") if not hasattr(str, name) else Unsupported("str." + name)

    def refuted_locally(self, c, x):
        """is c refuted by the facts about x alone? (fast where the path condition is large)"""
        mine = self.atoms(x)
        return check_z3([f for f in self.st.pc if self.atoms(f) and mine >= self.atoms(f)], c, 800)[0] == "unsat"

    def atoms(self, t):
        """uninterpreted constants and applications in a term"""
        k = t.get_id()
        r = self.atom_cache.get(k)
        if r is None or not r[0].eq(t):
            out, todo, seen = set(), [t], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.get_id())
                todo += x.children()
            r = self.atom_cache[k] = (t, out)
        return r[1]

    def strip_known(self, x, c, left):
        """drop what is known to consist of c at that end"""
        ps = self.str_parts(x)
        while ps and self.refuted_locally(z3.Not(z3.InRe(ps[0 if left else -1], z3.Star(z3.Re(c)))), ps[0 if left else -1]):
            ps = ps[1:] if left else ps[:-1]
        return z3.StringVal("") if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps)

    def str_parts(self, x):
        while z3.is_app(x) and x.decl().eq(V.sv) and x.arg(0).decl().eq(V.s):
            x = x.arg(0).arg(0)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return [p for c in x.children() for p in self.str_parts(c)]
        return [x]

    def replace_char(self, x, y, z, gone):
        """all occurrences of one character: piece by piece; what the path condition decides is decided here, so that chains of replacements stay simple"""
        ps = self.str_parts(x)
        if len(ps) > 1:
            return z3.Concat(*[self.replace_char(p, y, z, gone) for p in ps])
        if z3.is_string_value(x) and x.eq(y):
            return z
        if self.refuted_locally(z3.Contains(x, y), x):
            return x
        i = z3.IndexOf(x, y, 0)
        rest = z3.SubString(x, i + 1, z3.Length(x) - i - 1)
        if self.refuted_locally(z3.Not(z3.Contains(x, y)), x) and self.refuted_locally(z3.Contains(rest, y), x):
            return z3.Concat(z3.SubString(x, 0, i), z, rest)
        r = UF("str_replace_all", S, S, S, S)(x, y, z)
        if gone:
            self.st.assume(z3.Not(z3.Contains(r, y)))
        return r

    def map_chars(self, drive):
        """join of f(c) for the characters c of a text: the text itself if it is printable ASCII without blanks and f is the identity on those characters"""
        x = self.narrow(drive.first)
        t = self.as_str(x)
        if not self.branch(z3.InRe(t, z3.Star(z3.Range("!", "~")))):
            raise Unsupported("iteration over characters of a symbolic string")
        c = self.fresh("char", S)
        self.st.assume(z3.InRe(c, z3.Range("!", "~")))
        out = []
        self.one_char = self.mkstr(c)
        try:
            drive(out.append)
        except (PyRaise, Unsupported):
            raise Unsupported("iteration over characters of a symbolic string")
        finally:
            self.one_char = None
        if len(out) != 1 or self.typeof(self.narrow(out[0])).kind != "str" or check(self.st.pc, self.as_str(self.narrow(out[0])) != c, 4000)[0] != "unsat":
            raise Unsupported("iteration over characters of a symbolic string")
        return x

    def unsup(self, m):
        raise Unsupported(m)

    def str_format(self, v, a, kw):
        if isinstance(v, str):
            import string
            try:
                fs = list(string.Formatter().parse(v))
            except ValueError:
                raise self.excl("ValueError")
            out, n = "", 0
            for lit, name, spec, conv in fs:
                out = self.binop(ast.Add(), out, lit) if lit else out
                if name is None:
                    continue
                if spec or conv or not (name == "" or name.isidentifier() or name.isdigit()):
                    raise Unsupported("format %r" % name)
                if name == "" or name.isdigit():
                    i = int(name) if name else n
                    n += 1
                    if i >= len(a):
                        raise self.excl("IndexError")
                    x = a[i]
                else:
                    if name not in kw:
                        raise self.excl("KeyError")
                    x = kw[name]
                out = self.binop(ast.Add(), out, self.str_of(self.narrow(x) if isinstance(x, Sym) else x))
            return out
        # the text of a message: some string, and no missing argument (assumed; the messages themselves are checked by executing them)
        self.assumptions.add("str.format with a template that is not a literal yields some string and does not fail")
        return self.mkstr(self.fresh("formatted", S))

    def str_split(self, v, a, kw):
        x, sep = self.as_str(v), self.as_str(a[0])
        maxs = self.narrow(a[1]) if len(a) > 1 else kw.get("maxsplit", -1)
        n = z3.Length(sep)
        if not self.branch(z3.Contains(x, sep)):
            return self.new_list([v])
        i = z3.IndexOf(x, sep, 0)
        head = self.mkstr(z3.SubString(x, 0, i))
        tail = z3.SubString(x, i + n, z3.Length(x) - i - n)
        if maxs == 1 or not self.branch(z3.Contains(tail, sep)):
            return self.new_list([head, self.mkstr(tail)])
        j = z3.IndexOf(tail, sep, 0)
        rest = z3.SubString(tail, j + n, z3.Length(tail) - j - n)
        more = UF("str_split", S, S, L)(rest, sep)
        self.st.assume(L.is_snoc(more))
        o = ListObj([("e", head), ("e", self.mkstr(z3.SubString(tail, 0, j))), ("l", more, STR)])
        return self.alloc(o)
