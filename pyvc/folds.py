"""Loops and recursion."""
import z3
from .smt import *
from . import smt
from .loader import *
from .values import *
from .interp import Interp, Fold, RecInfo, NILL, sv, clsv

import os
DEBUG = int(os.environ.get("VCDEBUG", "0"))
EX_BRK, EX_RET, EX_EXC = 1, 2, 3


class Interp2(Interp):

    # ------------------------------------------------------------------ iteration protocol
    def iterate(self, v, body):
        """run body(x) for every element; exceptions raised by body (Brk, Ret, PyRaise) propagate to the caller"""
        if isinstance(v, Sym):
            v = self.narrow(v)
        if isinstance(v, Lazy):
            return v.drive(body)
        if isinstance(v, tuple):
            for x in v:
                body(x)
            return
        if isinstance(v, str):
            for x in v:
                body(x)
            return
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            if isinstance(o, ListObj):
                if o.prov is not None and o.prov.ver_ok(self):
                    return o.prov.drive(body)
                for p in list(o.parts):
                    if p[0] == "e":
                        body(p[1])
                    else:
                        self.fold(p[1], p[2], body)
                return
            if isinstance(o, DictObj):
                if o.items is not None:
                    for k, _ in list(o.items):
                        body(k)
                    return
                return self.fold(o.keys, o.kty or ANY, body)
            if isinstance(o, SetObj):
                if o.items is not None and len(o.items) <= 1:
                    for x in list(o.items):
                        body(x)
                    return
                self.assumptions.add("iteration order of a set is a function of its content")
                if o.items is not None and len(o.items) == 2:
                    xs = list(o.items)
                    if not self.branch(UF("set_starts_with", AVB, V, B)(self.set_arr(o), self.keyterm(xs[0]))):
                        xs.reverse()
                    for x in xs:
                        body(x)
                    return
                l = UF("setlist", AVB, L)(self.set_arr(o))
                return self.fold(l, o.ety, body)
            if isinstance(o, Inst):
                c, m = o.cls.find_method("__iter__")
                if m is not None:
                    return self.iterate(self.call(self.getattr(v, "__iter__"), [], {}), body)
                raise self.excl("TypeError")
        if isinstance(v, Sym):
            k = v.ty.kind
            if k in ("list", "flist"):
                for p in self.parts_of(v):
                    self.fold(p[1], p[2], body)
                return
            if k == "dict":
                arr, keys, kt, vt = self.symdict(v)
                return self.fold(keys, kt, body)
            if k == "tuple":
                return self.iterate(self.untuple(v), body)
            if k == "ext" and v.ty.cls.endswith("_Element"):
                return self.fold(UF("ext_children", I, L)(V.ev(v.t)), v.ty, body)
            if k == "str":
                if self.one_char is not None:
                    c, self.one_char = self.one_char, None
                    return body(c)
                raise Unsupported("iteration over characters of a symbolic string")
            if k in ("none", "int", "bool", "float"):
                raise self.excl("TypeError")
        if v is None or isinstance(v, (int, bool)):
            raise self.excl("TypeError")
        if isinstance(v, ClassValEnum):
            pass
        raise Unsupported("iteration over %r" % (v,))

    def untuple(self, v):
        out, l = [], V.tv(v.t)
        for a in reversed(v.ty.args):
            out.append(self.elem(z3.simplify(L.last(l)), a))
            l = L.init(l)
        return tuple(reversed(out))

    # ------------------------------------------------------------------ folds
    def get_comp(self, st, key, base):
        """component value -> list of (suffix, term, Ty)"""
        if key[0] == "var":
            v = st.frames[key[1]].vars.get(key[2])
            if isinstance(v, Poison):
                raise NeedComp(v.fold, v.key)
            saved, self.st = self.st, st
            try:
                return [("", self.term_c(v, base), self.typeof_c(v, base))]
            finally:
                self.st = saved
        if key[0] == "fld":
            v = st.objs[key[1]].fields.get(key[2])
            saved, self.st = self.st, st
            try:
                return [("", self.term_c(v, base), self.typeof_c(v, base))]
            finally:
                self.st = saved
        if key[0] == "cont":
            o = st.objs[key[1]]
            saved, self.st = self.st, st
            try:
                if isinstance(o, ListObj):
                    return [("", z3.simplify(self.to_l(o.parts, base)), self.list_ety(o, base))]
                if isinstance(o, DictObj):
                    if o.items is not None:
                        arr, keys = z3.K(V, V.absent), NILL
                        kt = vt = None
                        for k, v in o.items:
                            kk = self.keyterm(k)
                            keys = z3.simplify(z3.If(z3.Select(arr, kk) == V.absent, L.snoc(keys, self.term(k, base)), keys))
                            arr = z3.Store(arr, kk, self.term(v, base))
                            kt, vt = self.jty(kt, self.typeof_c(k, base)), self.jty(vt, self.typeof_c(v, base))
                        return [("a", arr, vt), ("k", keys, kt)]
                    return [("a", o.arr, o.vty), ("k", o.keys, o.kty)]
                if isinstance(o, SetObj):
                    et = o.ety
                    if o.items is not None:
                        et = None
                        for x in o.items:
                            et = self.jty(et, self.typeof_c(x, base))
                    return [("", self.set_arr(o), et)]
            finally:
                self.st = saved
        if key[0] == "farr":
            return [("", st.field(key[1]), None)]
        raise Unsupported("loop component " + repr(key[0]))

    def list_ety(self, o, base):
        t = None
        for p in o.parts:
            t = self.jty(t, p[2] if p[0] == "l" else self.typeof_c(p[1], base))
        return t

    def term_c(self, v, base):
        if isinstance(v, Sym) and v.ty.kind == "list":
            # list content, so that a rebound variable can be compared with freshly built lists
            return V.fl(z3.simplify(z3.Select(self.st.larr, V.ov(v.t))))
        if isinstance(v, Ref) and isinstance(self.st.objs[v.id], ListObj):
            return V.fl(self.to_l(self.st.objs[v.id].parts, base))
        return self.term(v, base)

    def typeof_c(self, v, base):
        if isinstance(v, Sym) and v.ty.kind == "list":
            return Ty("flist", v.ty.args)
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            if isinstance(o, ListObj):
                return Ty("flist", [self.list_ety(o, base) or ANY])
            if isinstance(o, Inst) and v.id < base:
                return Ty("aobj")
        return self.typeof(v)

    def set_comp(self, st, key, terms, tys):
        if key[0] in ("var", "fld"):
            t, ty = terms[0], tys[0] or ANY
            saved, self.st = self.st, st
            try:
                val = self.sym(t, ty) if ty.kind != "any" else self.norm(Sym(t, ty))
            finally:
                self.st = saved
            if key[0] == "var":
                st.frames[key[1]].vars[key[2]] = val
            else:
                st.objs[key[1]].fields[key[2]] = val
        elif key[0] == "cont":
            o = st.objs[key[1]]
            if isinstance(o, ListObj):
                o.parts, o.prov = [("l", terms[0], tys[0] or ANY)], None
            elif isinstance(o, DictObj):
                o.items, o.arr, o.keys, o.vty, o.kty = None, terms[0], terms[1], tys[0], tys[1]
                st.assume(z3.Implies(o.keys == NILL, o.arr == z3.K(V, V.absent)))
            elif isinstance(o, SetObj):
                o.items, o.arr, o.ety = None, terms[0], tys[0] or ANY
        elif key[0] == "farr":
            st.farr[key[1]] = terms[0]

    def fold(self, lt, ety, body):
        lt = z3.simplify(lt)
        d = lt.decl().name()
        if d == "nil":
            return
        if d == "snoc":
            self.fold(lt.arg(0), ety, body)
            body(self.elem(lt.arg(1), ety))
            return
        if d == "if":
            if self.branch(lt.arg(0)):
                return self.fold(lt.arg(1), ety, body)
            return self.fold(lt.arg(2), ety, body)
        if d == "lcat":
            self.fold(lt.arg(0), ety, body)
            self.fold(lt.arg(1), ety, body)
            return
        if lt.eq(NILL):
            return
        if self.inc_decides(lt == NILL):
            return
        self.tick()
        key = self.ctxkey("fold")
        F = Fold()
        F.key, F.lt, F.ety, F.body = key, lt, ety, body
        F.S0 = self.st.clone()
        F.S0.n = self.st.n
        self.st.n += 1
        F.id = self.st.n
        F.base = self.st.nid
        m = self.memo.get(key)
        if m is None:
            old, self.readlog = self.readlog, set()
            try:
                m = self.discover(F)
            finally:
                new, self.readlog = self.readlog, old
            self.memo[key] = m
            self.memo[(key, "reads")] = new
        self.readlog |= self.memo[(key, "reads")]
        F.comps, F.temps, F.exits, F.rettys, F.consts = m
        if d.startswith("sort_"):
            # a search for an element with some property does not depend on the order of the elements
            if (key, "search") not in self.memo:
                self.memo[(key, "search")] = self.is_search(F)
            if self.memo[(key, "search")]:
                return self.fold(lt.arg(1), ety, body)
        F.unary = self.memo.get((key, "u"))
        if F.unary is None:
            F.unary = self.houdini_unary(F)
            self.memo[(key, "u")] = F.unary
        # state after the loop
        self.apply(F, self.st, lt)
        for c in self.unary_facts(F, lt):
            self.st.assume(c)
        # relate to the folds already on this path over the same list
        rel = self.memo.get((key, "r"))
        if rel is None:
            rel = []
            for A in self.st.folds:
                if A.ety_key() != F.ety_key():
                    continue
                if not A.lt.eq(lt) and not self.implied(A.lt == lt):
                    continue
                r = self.houdini_rel(A, F)
                rel.append((A.id, r))
                if self.same_results(A, F, r):
                    break           # the relations of A to the others carry over
            self.memo[(key, "r")] = rel
        byid = {A.id: A for A in self.st.folds}
        for aid, cands in rel:
            A = byid[aid]
            va, vb = self.vec_sym(A, lt), self.vec_sym(F, lt)
            for c in cands:
                self.st.assume(self.rel_formula(c, va, vb))
        self.st.folds.append(F)
        # outcome
        if F.exits:
            ex = F.fexit(lt)
            self.st.assume(z3.Or([ex == 0] + [ex == k for k in F.exits]))
            if not self.branch(ex == 0):
                for k in F.exits[:-1]:
                    if self.branch(ex == k):
                        self.last_step(F, k, lt)
                        return self.do_exit(F, k, lt)
                self.last_step(F, F.exits[-1], lt)
                return self.do_exit(F, F.exits[-1], lt)

    def last_step(self, F, k, lt):
        """the loop was left in the way k: some prefix of the list was processed normally and the next element left the loop"""
        if not self.use_witness:
            return
        l, xt = z3.Const("wpre_%d" % F.id, L), z3.Const("wit_%d" % F.id, V)
        key = (F.key, "w")
        if key not in self.memo:
            def run():
                for c in self.unary_facts(F, l):
                    self.st.assume(c)
                self.st.assume(self.vec_sym(F, l)["exit"][0] == 0)
                self.apply(F, self.st, l)
                r = self.run_step(F, self.sym(xt, F.ety))
                return self.vec_post(F, self.st, r)
            n = len(F.S0.pc)
            self.memo[key] = [(st.pc[n:], v) for st, v in self.explore(F.S0.clone(), run, "laststep")]
        v0 = self.vec_sym(F, lt)
        alts = []
        for pc, v in self.memo[key]:
            if z3.is_int_value(v["exit"][0]) and v["exit"][0].as_long() != k:
                continue
            alts.append(list(pc) + [v0[c][0] == v[c][0] for c in v0])
        if not alts:
            raise Infeasible()
        if len(alts) == 1:
            for c in alts[0]:
                self.st.assume(z3.simplify(c))
        else:
            self.st.assume(z3.Or([z3.And(a) for a in alts]))
        if F.ety is not None:
            self._lmem_ty = F.ety
            try:
                self.st.assume(self.lmem(lt, self.elemkey(xt)))
            except Unsupported:
                pass

    def inc_decides(self, c):
        return self.implied(c)

    def implied(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.st.pcset:
            return True
        return not self.inc.feasible(self.st.pc, z3.simplify(z3.Not(c)))

    def same_results(self, A, F, rel):
        """the relation determines everything the loop computes"""
        n = {c[0] for c in rel}
        if (A.exits or F.exits) and not {"exiteq", "reteq", "exceq"} <= n:
            return False
        return all(any(c[0] == "eq" and c[2] == (key, i) for c in rel) for key, tys in F.comps.items() for i in range(len(tys)))

    def is_search(self, F):
        """the loop changes nothing except when it is left, and it is always left in the same way with the same constant outcome"""
        if len(F.exits) > 1 or EX_EXC in F.exits:
            return False
        l, xt = z3.Const("srch_%d" % F.id, L), z3.Const("srchx_%d" % F.id, V)

        def run():
            self.st.folds = []
            self.apply(F, self.st, l)
            r = self.run_step(F, self.sym(xt, F.ety))
            return self.vec_post(F, self.st, r)
        try:
            paths = self.explore(F.S0.clone(), run, "search")
        except NeedComp:
            return False
        pre = self.vec_sym(F, l)
        out = None
        for st, v in paths:
            if z3.is_int_value(v["exit"][0]) and v["exit"][0].as_long() == 0:
                if any(not z3.simplify(v[k][0]).eq(z3.simplify(pre[k][0])) for k in v if not isinstance(k, str)):
                    return False
            else:
                terms = [z3.simplify(v[k][0]) for k in sorted(v, key=str)]
                if any(not z3.is_const(z3.simplify(t)) and not self.is_ground(t) or t.eq(xt) or t.eq(l) for t in terms):
                    return False
                if out is not None and any(not a.eq(b) for a, b in zip(out, terms)):
                    return False
                out = terms
        return True

    def is_ground(self, t):
        """no variables or uninterpreted functions"""
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return False
            return all(self.is_ground(c) for c in t.children())
        return False

    def do_exit(self, F, k, lt):
        if k == EX_BRK:
            raise Brk()
        if k == EX_RET:
            t = F.fret(lt)
            raise Ret(self.sym(t, F.rettys[0] or ANY) if F.rettys[0] is not None else None)
        names = F.rettys[1]
        t = F.fexc(lt)
        for n in names[:-1]:
            if self.branch(t == clsv("exc:" + n)):
                raise PyRaise(ExcVal(n))
        raise PyRaise(ExcVal(names[-1]))

    def apply(self, F, st, l):
        """set the loop components of st to their value after processing the prefix l"""
        self.bind_funcs(F)
        for key, tys in F.comps.items():
            self.set_comp(st, key, [f(l) for f in F.funcs[key]], tys)
        for key in F.temps:
            st.frames[key[1]].vars[key[2]] = Poison(F.key, key)
        for key in F.comps:
            st.wlog.add(key)
        for key in F.temps:
            st.wlog.add(key)
        for key in F.comps:
            if key[0] in ("cont", "fld"):
                st.over[key[1]] = st.over.get(key[1], 0) + 1
            elif key[0] != "var":
                st.ver += 1

    def bind_funcs(self, F):
        if getattr(F, "funcs", None) is None:
            F.funcs = {}
            for key, tys in F.comps.items():
                o = F.S0.objs.get(key[1]) if key[0] == "cont" else None
                n = "F%d_%s" % (F.id, "_".join(str(x) for x in key))
                if key[0] in ("var", "fld"):
                    F.funcs[key] = [UF(n, L, V)]
                elif key[0] == "farr":
                    F.funcs[key] = [UF(n, L, z3.ArraySort(I, V))]
                elif isinstance(o, ListObj):
                    F.funcs[key] = [UF(n, L, L)]
                elif isinstance(o, DictObj):
                    F.funcs[key] = [UF(n + "_a", L, AVV), UF(n + "_k", L, L)]
                else:
                    F.funcs[key] = [UF(n, L, AVB)]
            F.fexit = UF("F%d_exit" % F.id, L, I)
            F.fret = UF("F%d_ret" % F.id, L, V)
            F.fexc = UF("F%d_exc" % F.id, L, V)

    def run_step(self, F, x):
        """one iteration in self.st; -> (exit kind, ret term, exc term, ret Ty, exc name)"""
        sb = self.fold_base()
        self._fold_base = F.base if sb is None else min(sb, F.base)
        try:
            try:
                F.body(x)
                return (0, V.none, V.none, None, None)
            except Cont:
                return (0, V.none, V.none, None, None)
            except Brk:
                return (EX_BRK, V.none, V.none, None, None)
            except Ret as r:
                return (EX_RET, self.term_c(r.v, F.base), V.none, self.typeof_c(r.v, F.base), None)
            except PyRaise as e:
                return (EX_EXC, V.none, clsv("exc:" + e.exc.name), None, e.exc.name)
        finally:
            self._fold_base = sb

    def written(self, st, F):
        out = []
        for key in sorted(st.wlog, key=str):
            if key[0] == "var" and key[1] in F.S0.frames:
                out.append(key)
            elif key[0] in ("fld", "cont") and key[1] in F.S0.objs:
                out.append(key)
            elif key[0] == "darr":
                raise Unsupported("a loop that changes dictionaries of unknown origin")
            elif key[0] in ("farr", "larr"):
                out.append(key)
        return out

    def discover(self, F):
        comps, temps, exits = {}, [], set()
        rett, excs = None, []
        S = F.S0
        forced = {k for (fk, k) in self.force if fk == F.key}
        for k in sorted(forced, key=str):
            if k[0] == "var":
                comps[k] = [None]
        # initial types
        def init_ty(key):
            try:
                return [t for _, _, t in self.get_comp(S, key, F.base)]
            except KeyError:
                return [None]
        for rnd in range(14):
            F.comps, F.temps, F.funcs = comps, temps, None
            for key in list(comps):
                it = init_ty(key) if not (key[0] == "var" and key[2] not in S.frames[key[1]].vars) else [None]
                comps[key] = [self.jty(a, b) for a, b in zip(comps[key], it)]
            before = (set(comps), tuple(temps), {k: tuple(t.key() if t else None for t in v) for k, v in comps.items()}, frozenset(exits), rett.key() if rett else None, tuple(excs))
            need = []

            def run():
                self.st.n += 1
                l = z3.Const("pre_%d" % F.id, L)
                self.apply(F, self.st, l)
                self.st.wlog = set()
                x = self.sym(z3.Const("x_%d" % F.id, V), F.ety)
                try:
                    r = self.run_step(F, x)
                except NeedComp as e:
                    if e.fold == F.key:
                        need.append(e.key)
                        raise Infeasible()
                    raise
                return r
            paths = self.explore(S, run, "discover")
            for k in need:
                if k in temps:
                    temps.remove(k)
                if k not in comps:
                    comps[k] = [None]
            for st, r in paths:
                for key in self.written(st, F):
                    if key[0] == "larr":
                        raise Unsupported("a loop that mutates lists of unknown origin")
                    if key in comps or key in temps:
                        continue
                    if key[0] == "var":
                        fr = S.frames[key[1]]
                        if fr.module is None and fr.func is None and fr.parent is None and key[2] in fr.vars:
                            comps[key] = [None]       # interpreter-internal cell: always read after the loop
                        else:
                            temps.append(key)
                    else:
                        o = S.objs.get(key[1])
                        comps[key] = [None, None] if key[0] == "cont" and isinstance(o, DictObj) else [None]
                if r[0]:
                    exits.add(r[0])
                if r[0] == EX_RET:
                    rett = self.jty(rett, r[3])
                if r[0] == EX_EXC and r[4] not in excs:
                    excs.append(r[4])
            # types after one step
            for st, r in paths:
                for key in list(comps):
                    if key in [k for k in comps] and (key[0] != "var" or key[2] in st.frames[key[1]].vars):
                        try:
                            post = self.get_comp(st, key, F.base)
                        except NeedComp as e:
                            if e.fold == F.key:
                                continue
                            raise
                        tys = [t for _, _, t in post]
                        comps[key] = [self.jty(a, b) for a, b in zip(comps[key], tys)]
            for key in list(comps):
                comps[key] = [self.widen(t) for t in comps[key]]
            after = (set(comps), tuple(temps), {k: tuple(t.key() if t else None for t in v) for k, v in comps.items()}, frozenset(exits), rett.key() if rett else None, tuple(excs))
            if before == after and not need:
                F.exits = sorted(exits)
                F.rettys = (rett, excs)
                return (dict(comps), list(temps), sorted(exits), (rett, list(excs)), None)
        raise Unsupported("loop analysis did not converge")

    def widen(self, t):
        if t is None or t.kind != "union":
            return t
        ms = t.members()
        fl = [m for m in ms if m.kind == "flist"]
        if len(fl) > 1:
            e = [m.args[0] for m in fl if m.args and m.args[0].kind != "any"]
            ms = [m for m in ms if m.kind != "flist"] + [Ty("flist", [union(e) if e else ANY])]
        if len(ms) > 8:
            return ANY
        return union(ms)

    # vectors: the observable components of a fold at a prefix
    def vec_sym(self, F, l):
        self.bind_funcs(F)
        v = {}
        for key in F.comps:
            for i, f in enumerate(F.funcs[key]):
                v[(key, i)] = (f(l), F.comps[key][i])
        if F.exits:
            v["exit"] = (F.fexit(l), None)
        else:
            v["exit"] = (z3.IntVal(0), None)
        v["ret"] = (F.fret(l), None)
        v["exc"] = (F.fexc(l), None)
        return v

    def vec_init(self, F):
        v = {}
        for key in F.comps:
            if key[0] == "var" and key[2] not in F.S0.frames[key[1]].vars:
                ts = [("", V.absent, None)]
            else:
                ts = self.get_comp(F.S0, key, F.base)
            for i, (_, t, _) in enumerate(ts):
                v[(key, i)] = (t, F.comps[key][i])
        v["exit"] = (z3.IntVal(0), None)
        v["ret"] = (V.none, None)
        v["exc"] = (V.none, None)
        return v

    def vec_post(self, F, st, r):
        v = {}
        for key in F.comps:
            if key[0] == "var" and key[2] not in st.frames[key[1]].vars:
                ts = [("", V.absent, None)]
            else:
                ts = self.get_comp(st, key, F.base)
            for i, (_, t, _) in enumerate(ts):
                v[(key, i)] = (t, F.comps[key][i])
        v["exit"] = (z3.IntVal(r[0]), None)
        v["ret"] = (r[1], None)
        v["exc"] = (r[2], None)
        return v

    def unary_cands(self, F, posts):
        """candidate invariants of one fold; each is ('kind', ...) interpreted by unary_formula"""
        c = []
        init = self.vec_init(F)
        for k in init:
            if isinstance(k, str):
                continue
            t0, ty = init[k]
            if t0.sort() == L:
                c.append(("copy", k, t0))
            consts = {}
            for v, l in posts:
                t = z3.simplify(v[k][0])
                if t.sort() == V and self.is_const_term(t):
                    consts[str(t)] = t
            if t0.sort() == V and self.is_const_term(t0):
                consts[str(t0)] = t0
                for e in F.exits:
                    c.append(("exitconst", 0, k, t0))
            for t in list(consts.values())[:4]:
                for e in F.exits:
                    c.append(("exitconst", e, k, t))
            c.append(("unchanged", k, t0))
            for k2 in init:
                if isinstance(k2, str) or k2 == k or str(k2) <= str(k):
                    continue
                if init[k2][0].sort() == t0.sort():
                    c.append(("selfeq", k, k2))
        rets = {}
        for v, l in posts:
            t = z3.simplify(v["ret"][0])
            if self.is_const_term(t):
                rets[str(t)] = t
        for t in rets.values():
            c.append(("exitret", EX_RET, t))
        return c

    def is_const_term(self, t):
        if t.num_args() == 0:
            return t.decl().kind() != z3.Z3_OP_UNINTERPRETED
        return all(self.is_const_term(a) for a in t.children()) and t.decl().kind() != z3.Z3_OP_UNINTERPRETED

    def unary_formula(self, c, v, l):
        if c[0] == "copy":
            t0 = c[2]
            if t0.decl().name() == "nil":
                return z3.Implies(v["exit"][0] == 0, v[c[1]][0] == l)
            return z3.BoolVal(True)
        if c[0] == "exitconst":
            return z3.Implies(v["exit"][0] == c[1], v[c[2]][0] == c[3])
        if c[0] == "unchanged":
            return v[c[1]][0] == c[2]
        if c[0] == "selfeq":
            return v[c[1]][0] == v[c[2]][0]
        if c[0] == "obs":
            return self.obs_formula(c, v, v)
        if c[0] == "exitret":
            return z3.Implies(v["exit"][0] == c[1], v["ret"][0] == c[2])
        raise AssertionError(c)

    def unary_facts(self, F, l):
        v = self.vec_sym(F, l)
        out = [self.unary_formula(c, v, l) for c in F.unary]
        for key, tys in F.comps.items():
            pass
        if F.exits:
            if EX_RET in F.exits and F.rettys[0] is not None:
                out.append(z3.Implies(v["exit"][0] == EX_RET, self.typefact(v["ret"][0], F.rettys[0])))
            if EX_EXC in F.exits:
                out.append(z3.Implies(v["exit"][0] == EX_EXC, z3.Or([v["exc"][0] == clsv("exc:" + n) for n in F.rettys[1]])))
            out.append(z3.Or([v["exit"][0] == 0] + [v["exit"][0] == k for k in F.exits]))
        return out

    def houdini_unary(self, F, extra=None):
        if not F.comps and not F.exits:
            return []
        cands = extra
        known = F.unary if extra is not None else None
        if extra is not None:
            vi = self.vec_init(F)
            cands = [c for c in cands if check(F.S0.pc, z3.Not(self.unary_formula(c, vi, NILL)), 1500)[0] == "unsat"]
            if not cands:
                return []
        l0 = z3.Const("pre_%d" % F.id, L)
        for rnd in range(8):
            F.unary = (cands or []) + (known or [])

            def run():
                self.st.n += 1
                v0 = self.vec_sym(F, l0)
                self.st.assume(v0["exit"][0] == 0)
                self.apply(F, self.st, l0)
                for c in self.unary_facts(F, l0):
                    self.st.assume(c)
                xt = z3.Const("x_%d" % F.id, V)
                x = self.sym(xt, F.ety)
                r = self.run_step(F, x)
                return self.vec_post(F, self.st, r), L.snoc(l0, xt)
            try:
                paths = self.explore(F.S0 if extra is None else self.with_pc(F.S0), run, "unary")
            finally:
                if extra is not None:
                    F.unary = known
            if cands is None:
                cands = self.unary_cands(F, [p[1] for p in paths])
                vi = self.vec_init(F)
                cands = [c for c in cands if check(F.S0.pc, z3.Not(self.unary_formula(c, vi, NILL)), 1500)[0] == "unsat"]
                if not cands:
                    return []
                # first prune without using the candidates as hypotheses is too weak: iterate
            n0 = len(cands)
            cands = self.prune(cands, paths, lambda c, p: self.unary_formula(c, p[0], p[1]),
                               lambda cs: [self.unary_formula(c, self.vec_sym(F, l0), l0) for c in cs])
            if len(cands) == n0:
                return cands
            if not cands:
                return []
        return []

    def known_rel(self, A, Bf):
        out = []
        for x, y in ((A, Bf), (Bf, A)):
            for aid, cands in self.memo.get((y.key, "r"), []):
                if aid == x.id:
                    out += cands if x is A else []
        return out

    def with_pc(self, S0):
        S = S0.clone()
        S.pc, S.pcset = list(self.st.pc), set(self.st.pcset)
        S.n = self.st.n + 1
        S.recpairs, S.recapps, S.recfail, S.recenv = list(self.st.recpairs), list(self.st.recapps), set(self.st.recfail), dict(self.st.recenv)
        return S

    def prune(self, cands, paths, formula, hyps):
        """Houdini on fixed paths"""
        changed = True
        while changed and cands:
            changed = False
            for st, p in paths:
                fs = [z3.simplify(formula(c, p)) for c in cands]
                todo = [(c, f) for c, f in zip(cands, fs) if not z3.is_true(f)]
                if not todo:
                    continue
                hs = hyps(cands)
                r, m = check(st.pc + hs, z3.Or([z3.Not(f) for _, f in todo]), 4000)
                if r == "unsat":
                    continue
                drop = set()
                if r == "sat":
                    for c, f in todo:
                        if not z3.is_true(m.eval(f, model_completion=True)):
                            drop.add(id(c))
                if not drop:
                    for c, f in todo:
                        if check(st.pc + hs, z3.Not(f), 1500)[0] != "unsat":
                            drop.add(id(c))
                if drop:
                    cands = [c for c in cands if id(c) not in drop]
                    changed = True
                    break
        return cands

    # observations: values looked up in a loop-built container at a fixed key -----------------
    def obs_val(self, o, v):
        """o = (comp key, index, key term | None, mode)"""
        key, i, t, mode = o
        x = v[(key, i)][0]
        if mode == "raw":
            return x
        if mode == "bool":
            return z3.And(V.is_b(x), V.bv(x))
        if mode == "notnone":
            return x != V.none
        if mode == "sel":
            y = z3.Select(x, t)
            return y
        if mode == "selnone":
            y = z3.Select(x, t)
            return z3.If(y == V.absent, V.none, y)
        if mode == "pres":
            return z3.Select(x, t) != V.absent
        if mode == "mem":
            return z3.Select(x, t)
        if mode == "lmem":
            return self.lmem(x, t)
        raise AssertionError(mode)

    def lmem(self, l, t):
        """membership of a list modulo key equality"""
        l = z3.simplify(l)
        d = l.decl().name()
        if d == "nil":
            return z3.BoolVal(False)
        if d == "snoc":
            return z3.Or(self.elemkey(l.arg(1)) == t, self.lmem(l.arg(0), t))
        if d == "if":
            return z3.If(l.arg(0), self.lmem(l.arg(1), t), self.lmem(l.arg(2), t))
        if d == "lcat":
            return z3.Or(self.lmem(l.arg(0), t), self.lmem(l.arg(1), t))
        if d.startswith("sort_"):
            return self.lmem(l.arg(1), t)
        return z3.Select(UF("lmem", L, AVB)(l), t)

    def elemkey(self, x):
        x = z3.simplify(x)
        v = self.norm(Sym(x, self._lmem_ty))
        return self.keyterm(v)

    def obs_formula(self, c, va, vb):
        _, oa, ob, sides = c
        return self.obs_val(oa, va if sides[0] == "a" else vb) == self.obs_val(ob, va if sides[1] == "a" else vb)

    def observe(self, arr, t, isset=False):
        """arr is looked up at key t: relate the result to everything known about loops over the same list"""
        base = z3.simplify(arr)
        while z3.is_app(base) and base.decl().name() in ("store", "if"):
            base = base.arg(0) if base.decl().name() == "store" else base.arg(1)
        if not (z3.is_app(base) and base.num_args() == 1 and base.arg(0).sort() == L):
            return
        nm = base.decl().name()
        t = z3.simplify(t)
        for F in self.st.folds:
            self.bind_funcs(F)
            for key, fs in F.funcs.items():
                for i, f in enumerate(fs):
                    if f.name() == nm and F.lt.eq(base.arg(0)):
                        return self.observed(F, key, i, t, isset)

    def observed(self, F, key, i, t, isset):
        st = self.st
        ob = (F.id, key, i, t.get_id())
        self.keep.append(t)
        if ob in [o[0] for o in st.obslog]:
            return
        prior = list(st.obslog)
        st.obslog = prior + [(ob, F, key, i, t, isset)]
        modes = ["mem"] if isset else ["sel", "pres", "selnone"]
        for G in st.folds:
            if not G.lt.eq(F.lt):
                continue
            mk = ("obs", ob, G.id, self.ctx.key, tuple(self.ctx.taken), len(prior))
            if mk not in self.memo:
                cands = []
                for m in modes:
                    o1 = (key, i, t, m)
                    b1 = m in ("mem", "pres")
                    # scalars of G
                    for k2, tys in G.comps.items():
                        if (k2 == key and G is F):
                            pass
                        f2 = G.funcs[k2] if getattr(G, "funcs", None) else None
                        for j, f in enumerate(f2 or []):
                            srt = f.range()
                            if srt == V:
                                ty = tys[j]
                                if b1 and ty is not None and ty.kind == "bool":
                                    cands.append(("obs", o1, (k2, j, None, "bool"), "ab"))
                                elif b1 and ty is not None and any(x.kind == "none" for x in ty.members()):
                                    cands.append(("obs", o1, (k2, j, None, "notnone"), "ab"))
                                elif not b1:
                                    cands.append(("obs", o1, (k2, j, None, "raw"), "ab"))
                    for (_, H, k2, j, t2, s2) in prior:
                        if H is not G:
                            continue
                        for m2 in (["mem"] if s2 else ["sel", "pres", "selnone"]):
                            if (m2 in ("mem", "pres")) == b1:
                                cands.append(("obs", o1, (k2, j, t2, m2), "ab"))
                if not cands:
                    self.memo[mk] = []
                elif G is F:
                    self.memo[mk] = self.houdini_unary(F, cands)
                else:
                    self.memo[mk] = self.houdini_rel(F, G, cands)
            va, vb = self.vec_sym(F, F.lt), self.vec_sym(G, F.lt)
            for c in self.memo[mk]:
                st.assume(self.rel_formula(c, va, vb))

    # relational lemmas -------------------------------------------------
    def rel_cands(self, A, Bf):
        va, vb = self.vec_init(A), self.vec_init(Bf)
        ca, cb = [k for k in va if not isinstance(k, str)], [k for k in vb if not isinstance(k, str)]
        out = []
        if A.exits and Bf.exits:
            out.append(("exitiff",))
            out.append(("exiteq",))
            out.append(("reteq",))
            out.append(("exceq",))
        if not A.exits and Bf.exits or A.exits and not Bf.exits:
            out.append(("noexit",))
        for a in ca:
            for b in cb:
                if va[a][0].sort() != vb[b][0].sort():
                    continue
                out.append(("eq", a, b))
                if A.exits or Bf.exits:
                    out.append(("eqlive", a, b))
                    out.append(("eqbothexit", a, b))
        for k in ca:
            if self.boolish(A, k) and Bf.exits:
                for val in (True, False):
                    out.append(("flagexit", "a", k, val))
            if Bf.exits and va[k][0].sort() == V:
                out.append(("retcomp", "a", k))
        for k in cb:
            if self.boolish(Bf, k) and A.exits:
                for val in (True, False):
                    out.append(("flagexit", "b", k, val))
            if A.exits and vb[k][0].sort() == V:
                out.append(("retcomp", "b", k))
        return out

    def boolish(self, F, k):
        t = F.comps[k[0]][k[1]]
        return t is not None and t.kind == "bool"

    def rel_formula(self, c, va, vb):
        ea, eb = va["exit"][0], vb["exit"][0]
        if c[0] == "exitiff":
            return (ea != 0) == (eb != 0)
        if c[0] == "exiteq":
            return ea == eb
        if c[0] == "noexit":
            return z3.And(ea == 0, eb == 0)
        if c[0] == "reteq":
            return z3.Implies(z3.And(ea == EX_RET, eb == EX_RET), va["ret"][0] == vb["ret"][0])
        if c[0] == "exceq":
            return z3.And((ea == EX_EXC) == (eb == EX_EXC), va["exc"][0] == vb["exc"][0])
        if c[0] == "eq":
            return va[c[1]][0] == vb[c[2]][0]
        if c[0] == "eqlive":
            return z3.Implies(z3.And(ea == 0, eb == 0), va[c[1]][0] == vb[c[2]][0])
        if c[0] == "eqbothexit":
            return z3.Implies(z3.And(ea != 0, eb != 0), va[c[1]][0] == vb[c[2]][0])
        if c[0] == "flagexit":
            v, e = (va, eb) if c[1] == "a" else (vb, ea)
            return (e != 0) == (v[c[2]][0] == V.b(z3.BoolVal(c[3])))
        if c[0] == "obs":
            return self.obs_formula(c, va, vb)
        if c[0] == "retcomp":
            v, o = (va, vb) if c[1] == "a" else (vb, va)
            return z3.Implies(o["exit"][0] == EX_RET, v[c[2]][0] == o["ret"][0])
        raise AssertionError(c)

    def houdini_rel(self, A, Bf, extra=None):
        if not (A.comps or A.exits) or not (Bf.comps or Bf.exits):
            return []
        self.tick()
        cands = self.rel_cands(A, Bf) if extra is None else extra
        ia, ib = self.vec_init(A), self.vec_init(Bf)
        pc = list(self.st.pc)
        cands = [c for c in cands if check(pc, z3.Not(self.rel_formula(c, ia, ib)), 1500)[0] == "unsat"]
        if DEBUG:
            print("REL", A.id, Bf.id, A.key[1], [c for c in cands])
        if not cands:
            return []
        known = [] if extra is None else self.known_rel(A, Bf)
        l0 = z3.Const("rl_%d_%d" % (A.id, Bf.id), L)
        xt = z3.Const("rx_%d_%d" % (A.id, Bf.id), V)
        for rnd in range(8):
            S = A.S0.clone()
            S.pc, S.pcset = list(self.st.pc), set(self.st.pcset)
            S.n = self.st.n + 1
            S.recpairs, S.recapps, S.recfail = list(self.st.recpairs), list(self.st.recapps), set(self.st.recfail)
            folds0 = [f for f in self.st.folds]
            cur = cands

            def hyp():
                va, vb = self.vec_sym(A, l0), self.vec_sym(Bf, l0)
                return [self.rel_formula(c, va, vb) for c in cur]

            def run():
                self.st.folds = []
                for h in hyp() + self.unary_facts(A, l0) + self.unary_facts(Bf, l0):
                    self.st.assume(h)
                va, vb = self.vec_sym(A, l0), self.vec_sym(Bf, l0)
                for h in known:
                    self.st.assume(self.rel_formula(h, va, vb))
                va, vb = self.vec_sym(A, l0), self.vec_sym(Bf, l0)
                self.sym(xt, A.ety)
                live_a = (not A.exits) or self.branch(va["exit"][0] == 0)
                live_b = (not Bf.exits) or self.branch(vb["exit"][0] == 0)
                if not live_a and not live_b:
                    raise Infeasible()      # nothing changes
                pa, pb = va, vb
                if live_a:
                    self.apply(A, self.st, l0)
                    r = self.run_step(A, self.elem(xt, A.ety))
                    pa = self.vec_post(A, self.st, r)
                if live_b:
                    old = self.st
                    n = Bf.S0.clone()
                    n.pc, n.pcset, n.n = old.pc, old.pcset, old.n
                    n.folds, n.recpairs, n.recapps, n.recfail, n.recenv = old.folds, old.recpairs, old.recapps, old.recfail, {**n.recenv, **old.recenv}
                    self.st = n
                    self.apply(Bf, self.st, l0)
                    r = self.run_step(Bf, self.elem(xt, Bf.ety))
                    pb = self.vec_post(Bf, self.st, r)
                return pa, pb
            paths = self.explore(S, run, "rel")
            n0 = len(cands)
            cands = self.prune(cands, paths, lambda c, p: self.rel_formula(c, p[0], p[1]), lambda cs: [])
            if DEBUG:
                print("   ->", len(paths), "paths", cands)
                if DEBUG > 1:
                    for st, (a, b) in paths:
                        print("      pc", st.pc)
                        print("      a", {k: v[0] for k, v in a.items()})
                        print("      b", {k: v[0] for k, v in b.items()})
            if len(cands) == n0:
                return cands
            if not cands:
                return []
        return []

    # ------------------------------------------------------------------ recursion
    def rec_call(self, fn, args, argvals):
        """call of a recursive function with symbolic arguments"""
        hs = self.heapsig()
        rid = "%s@%s%s" % (fn.f.qual, fn.fid, "#%d" % (abs(hash(hs)) % 10**9) if hs else "")
        key = (rid, len(args))
        terms = [self.term_arg(a) for a in args]
        tys = [self.typeof_arg(a) for a in args]
        st = self.st
        info = st.recenv.get((rid, tuple(t.key() for t in tys)))
        ikey = (rid, tuple(t.key() for t in tys))
        if info is None:
            info = self.rec_discover(fn, tys, ikey, rid)
        f = self.rec_funcs(rid, len(args))
        rt, xt = f[0](*terms), f[1](*terms)
        if all(i.done for i in self.st.recenv.values()):
            self.rec_pair(fn, rid, tys, ikey)
        app = (rid, tuple(terms))
        if app not in st.recapps:
            st.recapps.append(app)
        for (a, b) in st.recpairs:
            self.rec_link(a, b)
        if info.ty is None and not info.excs:
            raise Infeasible()          # no terminating outcome yet (least fixpoint)
        if info.excs:
            st.assume(z3.Or(([xt == V.none] if info.ty is not None else []) + [xt == clsv("exc:" + e) for e in info.excs]))
            if info.ty is None or not self.branch(xt == V.none):
                for e in info.excs[:-1]:
                    if self.branch(xt == clsv("exc:" + e)):
                        raise PyRaise(ExcVal(e))
                raise PyRaise(ExcVal(info.excs[-1]))
        else:
            st.assume(xt == V.none)
        return self.sym(rt, info.ty)

    def heapsig(self):
        st = self.st
        out = []
        for k, t in sorted(st.farr.items()):
            if not (t.num_args() == 0):
                out.append((k, t.sexpr()))
        for t in (st.larr, st.darr, st.dkeys, st.sarr):
            if t.num_args():
                out.append(t.sexpr())
        return tuple(out)

    def closure_sig(self, fn):
        """the captured environment of a nested function"""
        if fn.fid is None:
            return ()
        n = fn.f.node
        names = getattr(n, "_free", None)
        if names is None:
            import ast
            names = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name)})
            n._free = names
        out = []
        for nm in names:
            fid = fn.fid
            while fid is not None and fid in self.st.frames:
                f = self.st.frames[fid]
                if nm in f.vars:
                    self.readlog.add((fid, nm))
                    out.append((nm, self.sigval(f.vars[nm], 2)))
                    break
                fid = f.parent
        return tuple(out)

    def sigval(self, v, d):
        if isinstance(v, Sym):
            self.keep.append(v.t)
            return ("s", v.t.get_id(), v.ty.key())
        if isinstance(v, tuple):
            return tuple(self.sigval(x, d) for x in v)
        if isinstance(v, Ref):
            o = self.st.objs[v.id]
            if d == 0:
                return ("r", v.id)
            if isinstance(o, Inst):
                return ("r", v.id, tuple((k, self.sigval(x, d - 1)) for k, x in sorted(o.fields.items())))
            if isinstance(o, ListObj):
                for p in o.parts:
                    if p[0] == "l":
                        self.keep.append(p[1])
                return ("r", v.id, tuple(self.sigval(p[1], d - 1) if p[0] == "e" else p[1].get_id() for p in o.parts))
            if isinstance(o, DictObj) and o.items is not None:
                return ("r", v.id, tuple((self.sigval(k, d - 1), self.sigval(x, d - 1)) for k, x in o.items))
            return ("r", v.id, self.st.over.get(v.id, 0))
        if isinstance(v, Poison):
            return ("p",)
        return repr(v)

    def rec_state(self, *fns):
        """state in which a recursive function is analysed: the captured environment, and only the facts that were
        known when it was defined (so that the result holds wherever it is called)"""
        S = self.st.clone()
        n = 0
        for fn in fns:
            if fn.fid is not None and fn.fid in S.frames:
                n = max(n, S.frames[fn.fid].pclen)
        S.pc = S.pc[:n]
        S.pcset = {c.get_id() for c in S.pc}
        S.folds = []
        S.recapps = []
        return S

    def term_arg(self, a):
        if isinstance(a, (FuncVal, Prim, Bound)):
            return sv("fun:%r" % (a,))
        if isinstance(a, Ref) and isinstance(self.st.objs[a.id], ListObj):
            return V.fl(self.to_l(self.st.objs[a.id].parts))
        return self.term(a)

    def typeof_arg(self, a):
        if isinstance(a, Ref):
            o = self.st.objs[a.id]
            return Ty("aobj") if isinstance(o, Inst) else self.typeof(a)
        return self.typeof(a)

    def rec_funcs(self, rid, n):
        return (UF("R_" + rid, *([V] * n + [V])), UF("RX_" + rid, *([V] * n + [V])))

    def rec_link(self, a, b):
        st = self.st
        n = a[1]
        fa, fb = self.rec_funcs(a[0], n), self.rec_funcs(b[0], n)
        for rid, terms in st.recapps:
            if rid in (a[0], b[0]) and len(terms) == n:
                st.assume(fa[0](*terms) == fb[0](*terms))
                st.assume(fa[1](*terms) == fb[1](*terms))

    def rec_run(self, fn, args, base):
        sb = self.fold_base()
        try:
            v = self.call_body(fn, args)
            return (self.term_c(v, base), V.none, self.typeof_c(v, base), None)
        except PyRaise as e:
            return (V.none, clsv("exc:" + e.exc.name), None, e.exc.name)

    def rec_args(self, tys, tag):
        return [self.sym(z3.Const("ra_%s_%d" % (tag, i), V), t) for i, t in enumerate(tys)]

    def rec_discover(self, fn, tys, ikey, rid):
        mk = ("rec", ikey, self.closure_sig(fn), frozenset(self.st.recenv))
        if mk in self.memo:
            info = self.memo[mk]
            self.st.recenv = dict(self.st.recenv)
            self.st.recenv[ikey] = info
            return info
        if any(t.kind in ("flist", "rec", "fdict", "aobj") for t in tys):
            raise Unsupported("recursion over freshly built data")
        info = RecInfo()
        info.excs = []
        self.st.recenv = dict(self.st.recenv)
        self.st.recenv[ikey] = info
        base = self.st.nid
        for rnd in range(8):
            before = (info.ty.key() if info.ty else None, tuple(info.excs))
            S0keys = (set(self.st.frames), set(self.st.objs))

            def run():
                args = self.rec_args(tys, rid)
                self.st.wlog = set()
                r = self.rec_run(fn, args, base)
                for k in self.st.wlog:
                    if k[0] == "var" and k[1] in S0keys[0] or k[0] in ("fld", "cont") and k[1] in S0keys[1] or k[0] in ("farr", "larr", "darr"):
                        raise Unsupported("recursive function with side effects")
                return r
            paths = self.explore(self.rec_state(fn), run, "rec")
            for st, r in paths:
                if r[3] is None:
                    info.ty = self.widen(self.jty(info.ty, r[2]))
                elif r[3] not in info.excs:
                    info.excs.append(r[3])
            if before == (info.ty.key() if info.ty else None, tuple(info.excs)):
                break
        else:
            raise Unsupported("recursion analysis did not converge")
        if all(i.done for i in self.st.recenv.values() if i is not info):
            info.done = True
            self.memo[mk] = info
        else:
            info.done = True        # complete relative to the (still growing) summaries it uses: valid for this round only
        return info

    def rec_pair(self, fn, rid, tys, ikey):
        st = self.st
        self.recdefs = getattr(self, "recdefs", {})
        self.recdefs[(rid, len(tys), self.ctx_root())] = (fn, tys)
        known = {}
        for (r2, tk), info in st.recenv.items():
            if r2 != rid and len(tk) == len(tys):
                known[r2] = tk
        for r2, tk in known.items():
            a, b = (r2, len(tys)), (rid, len(tys))
            if (a, b) in st.recpairs or (b, a) in st.recpairs or (a, b) in st.recfail or (b, a) in st.recfail:
                continue
            d = self.recdefs.get((r2, len(tys), self.ctx_root()))
            if d is None:
                continue
            fn2, tys2 = d
            if [t.key() for t in tys2] != [t.key() for t in tys]:
                continue
            if not (fn.f.module.name.startswith("contracts") ^ fn2.f.module.name.startswith("contracts")):
                continue
            if fn2.fid is not None and fn2.fid not in st.frames:
                continue
            mk = ("pair", r2, rid, self.closure_sig(fn2), self.closure_sig(fn), tuple(st.recpairs))
            if mk not in self.memo:
                self.memo[mk] = self.rec_equiv(fn2, fn, r2, rid, tys)
            if self.memo[mk]:
                st.recpairs.append((a, b))
            else:
                st.recfail.add((a, b))

    def ctx_root(self):
        return 0

    def rec_equiv(self, f1, f2, r1, r2, tys):
        self.tick()
        if DEBUG:
            print("PAIR", r1, r2)
        n = len(tys)
        S = self.rec_state(f1, f2)
        S.recpairs = S.recpairs + [((r1, n), (r2, n))]
        base = S.nid

        def run():
            args = self.rec_args(tys, "eq_" + r1)
            a = self.rec_run(f1, args, base)
            b = self.rec_run(f2, args, base)
            return a, b
        try:
            paths = self.explore(S, run, "receq")
        except Unsupported as e:
            if isinstance(e, Timeout):
                raise
            self.note("recursion pair %s ~ %s: %s" % (r1, r2, e))
            return False
        for st, (a, b) in paths:
            if DEBUG:
                print("   pair path", a, b, len(st.pc))
            r, _ = check(st.pc, z3.Not(z3.And(a[0] == b[0], a[1] == b[1])), 6000)
            if r != "unsat":
                self.note("recursion pair %s ~ %s not equivalent (%s)" % (r1, r2, r))
                return False
        self.lemmas = getattr(self, "lemmas", 0) + len(paths)
        self.assumptions.add("recursive functions terminate (networks are finite and acyclic)")
        return True

    def note(self, s):
        self.notes = getattr(self, "notes", [])
        if s not in self.notes:
            self.notes.append(s)


def _ety_key(self):
    return "all"


Fold.ety_key = _ety_key
ClassValEnum = type("ClassValEnum", (), {})
