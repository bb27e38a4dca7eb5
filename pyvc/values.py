"""Run-time values of the symbolic interpreter and its state."""
import z3
from .smt import V, L, I, S, R, B, AVV, AVB, UF, clsof
from .loader import Ty, ANY, NONE, INT, STR, BOOL, FLOAT, union, Class, Unsupported


class Sym:
    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __repr__(self):
        return "Sym(%s:%r)" % (str(self.t)[:60], self.ty)


class Ref:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return "Ref(%d)" % self.id


class ClassVal:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "ClassVal(%s)" % self.c.qual


class BCls:
    """builtin class"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "BCls(%s)" % self.name


class EnumVal:
    __slots__ = ("c", "name")

    def __init__(self, c, name):
        self.c, self.name = c, name

    def __repr__(self):
        return self.c.name + "." + self.name


class FuncVal:
    __slots__ = ("f", "fid", "extra")

    def __init__(self, f, fid=None, extra=None):
        self.f, self.fid, self.extra = f, fid, extra

    def __repr__(self):
        return "<fun %s>" % self.f.qual


class Bound:
    __slots__ = ("self", "fn")

    def __init__(self, s, fn):
        self.self, self.fn = s, fn


class SymMethod:
    """method `name` of a symbolic receiver, dispatched at call time"""
    __slots__ = ("self", "name")

    def __init__(self, s, name):
        self.self, self.name = s, name


class Prim:
    """python-implemented function of the engine"""
    __slots__ = ("name", "fn", "cmp")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<prim %s>" % self.name


class ModVal:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m


class ExtVal:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name


class SuperVal:
    __slots__ = ("self", "cls")

    def __init__(self, s, c):
        self.self, self.cls = s, c


class Lazy:
    """lazy iterable: parts piped through a python generator-like driver: drive(emit) calls emit(value)"""
    __slots__ = ("drive", "ver")

    def __init__(self, drive, ver=None):
        self.drive, self.ver = drive, ver


class ExcVal:
    __slots__ = ("name", "cls", "args")

    def __init__(self, name, cls=None, args=()):
        self.name, self.cls, self.args = name, cls, args

    def __repr__(self):
        return "Exc(%s)" % self.name


class Poison:
    __slots__ = ("fold", "key")

    def __init__(self, fold, key):
        self.fold, self.key = fold, key


class MatchVal:
    """a successful match of a literal pattern: the text of each group (None when the engine does not know it)"""
    __slots__ = ("whole", "groups", "names")

    def __init__(self, whole, groups, names):
        self.whole, self.groups, self.names = whole, groups, names


class Frame:
    __slots__ = ("vars", "parent", "module", "cls", "func", "nonlocals", "pclen")

    def __init__(self, vars, parent, module, cls, func):
        self.vars, self.parent, self.module, self.cls, self.func, self.nonlocals, self.pclen = vars, parent, module, cls, func, (), 0

    def clone(self):
        f = Frame(dict(self.vars), self.parent, self.module, self.cls, self.func)
        f.nonlocals, f.pclen = self.nonlocals, self.pclen
        return f


class Inst:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def clone(self):
        return Inst(self.cls, dict(self.fields))


class ListObj:
    """parts: ('e', value) | ('l', L-term, Ty)"""
    __slots__ = ("parts", "prov")

    def __init__(self, parts, prov=None):
        self.parts, self.prov = parts, prov

    def clone(self):
        return ListObj(list(self.parts), self.prov)


class DictObj:
    """concrete mode: items = [(key, value)] with pairwise decidably different keys; symbolic mode: arr, keys (L), kty, vty"""
    __slots__ = ("items", "arr", "keys", "kty", "vty", "default")

    def __init__(self, items=None, arr=None, keys=None, kty=ANY, vty=ANY, default=None):
        self.items, self.arr, self.keys, self.kty, self.vty, self.default = items, arr, keys, kty, vty, default

    def clone(self):
        return DictObj(None if self.items is None else list(self.items), self.arr, self.keys, self.kty, self.vty, self.default)


class SetObj:
    __slots__ = ("items", "arr", "ety")

    def __init__(self, items=None, arr=None, ety=ANY):
        self.items, self.arr, self.ety = items, arr, ety

    def clone(self):
        return SetObj(None if self.items is None else list(self.items), self.arr, self.ety)


class State:
    def __init__(self):
        self.frames, self.objs, self.farr = {}, {}, {}
        self.larr = z3.Const("larr0", z3.ArraySort(I, L))
        self.darr = z3.Const("darr0", z3.ArraySort(I, AVV))
        self.dkeys = z3.Const("dkeys0", z3.ArraySort(I, L))
        self.sarr = z3.Const("sarr0", z3.ArraySort(I, AVB))
        self.pc, self.pcset = [], set()
        self.n, self.nid, self.nfid = 0, 1, 1
        self.folds, self.recapps, self.recpairs, self.recfail = [], [], [], set()
        self.statics = {}
        self.wlog = set()
        self.ver = 0
        self.over = {}
        self.obslog = []
        self.recenv = {}
        self.retys = {}

    def clone(self):
        s = State.__new__(State)
        s.frames = {k: f.clone() for k, f in self.frames.items()}
        s.objs = {k: o.clone() for k, o in self.objs.items()}
        s.farr = dict(self.farr)
        s.larr, s.darr, s.dkeys, s.sarr = self.larr, self.darr, self.dkeys, self.sarr
        s.pc, s.pcset = list(self.pc), set(self.pcset)
        s.n, s.nid, s.nfid = self.n, self.nid, self.nfid
        s.folds, s.recapps, s.recpairs, s.recfail = list(self.folds), list(self.recapps), list(self.recpairs), set(self.recfail)
        s.statics = dict(self.statics)
        s.wlog = set(self.wlog)
        s.ver = self.ver
        s.over = dict(self.over)
        s.obslog = self.obslog
        s.recenv = self.recenv
        s.retys = self.retys
        return s

    def assume(self, c):
        c = z3.simplify(c) if not z3.is_true(c) else c
        if z3.is_true(c):
            return
        if c.get_id() in self.pcset:
            return
        self.pc.append(c)
        self.pcset.add(c.get_id())

    def field(self, name):
        if name not in self.farr:
            self.farr[name] = z3.Const("fld_" + name, z3.ArraySort(I, V))
        return self.farr[name]


# control flow
class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Infeasible(Exception):
    pass


class Restart(Exception):
    pass


class Timeout(Unsupported):
    pass


class NeedComp(Exception):
    """a loop-carried variable was read before being summarised"""
    def __init__(self, fold, key):
        self.fold, self.key = fold, key
