"""Loads Python source (AST only, nothing is imported or executed) from /repo and from the sidecar contracts.

The text that is verified is exactly the text of the files in /repo at the time of the run: every function body is
taken from the parsed file, nothing is copied into /verif."""
import ast, os

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unsupported(Exception):
    """The construct is outside the verifier's reach: the obligation becomes 'undecided', never 'violated'."""


class Ty:
    """Static type: kind in any,none,int,str,bool,float,list,dict,set,tuple,union,cls,type,ext,bytes,callable"""
    __slots__ = ("kind", "args", "cls")

    def __init__(self, kind, args=(), cls=None):
        self.kind, self.args, self.cls = kind, tuple(args), cls

    def __repr__(self):
        if self.kind == "cls":
            return self.cls.name
        return self.kind + (repr(list(self.args)) if self.args else "") + ("" if self.cls is None else str(self.cls))

    def key(self):
        return (self.kind, tuple(a.key() if isinstance(a, Ty) else a for a in self.args), self.cls.qual if isinstance(self.cls, Class) else self.cls)

    def members(self):
        if self.kind == "union":
            r = []
            for a in self.args:
                r += a.members()
            return r
        return [self]


ANY = Ty("any")
NONE, INT, STR, BOOL, FLOAT = Ty("none"), Ty("int"), Ty("str"), Ty("bool"), Ty("float")


def union(ts):
    out = []
    for t in ts:
        for m in t.members():
            if m.kind == "any":
                return ANY
            if all(m.key() != o.key() for o in out):
                out.append(m)
    return out[0] if len(out) == 1 else Ty("union", out)


class Class:
    def __init__(self, name, module, node, loader):
        self.name, self.module, self.node, self.loader = name, module, node, loader
        self.qual = module.name + ":" + name
        self.methods, self.attrs, self.annots = {}, {}, {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[mangle(s.name, self)] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[mangle(t.id, self)] = s.value
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "range" and len(s.value.args) == 1:
                        for i, x in enumerate(t.elts):          # A, B, *rest = range(n)
                            if isinstance(x, ast.Name):
                                self.attrs[x.id] = ast.copy_location(ast.Constant(i), x)
                            else:
                                break
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.annots[s.target.id] = s.annotation
                if s.value is not None:
                    self.attrs[mangle(s.target.id, self)] = s.value
        self._bases = None
        self._ftypes = {}
        self.is_dataclass = any("dataclass" in ast.dump(d) for d in node.decorator_list)
        self.dc_frozen = any("dataclass" in ast.dump(d) and "frozen" in ast.dump(d) for d in node.decorator_list)

    def __repr__(self):
        return "<class %s>" % self.qual

    @property
    def bases(self):
        if self._bases is None:
            r = []
            for b in self.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                v = self.loader.static_resolve(b, self.module)
                if isinstance(v, Class):
                    r.append(v)
            self._bases = r
        return self._bases

    @property
    def ext_bases(self):
        return [ast.unparse(b) for b in self.node.bases]

    def is_enum(self):
        return any(e.split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for c in self.mro() for e in c.ext_bases)

    def is_abstract(self):
        for c in self.mro():
            for m, f in c.methods.items():
                if any("abstractmethod" in ast.dump(d) for d in f.decorator_list):
                    if self.find_method(m)[1] is f:
                        return True
        return False

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def find_method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c, c.methods[name]
        return None, None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
            e = c.module.attr_assigns.get((c.name, name))
            if e is not None:
                return c, e
        return None, None

    def subclass_of(self, other):
        return other in self.mro()

    def concrete_subclasses(self):
        n = len(self.loader.all_classes())
        if getattr(self, "_cs", (None, None))[0] != n:
            self._cs = (n, [c for c in self.loader.all_classes() if c.subclass_of(self) and not c.is_abstract()])
        return self._cs[1]

    def dc_fields(self):
        r = []
        for c in reversed(self.mro()):
            for n, a in c.annots.items():
                d = c.attrs.get(n)
                cmp_ = True
                dflt = d
                if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
                    dflt = None
                    for k in d.keywords:
                        if k.arg == "compare":
                            cmp_ = ast.literal_eval(k.value)
                        if k.arg == "default":
                            dflt = k.value
                        if k.arg == "default_factory":
                            dflt = ast.Call(k.value, [], [])
                r.append((n, a, dflt, cmp_, c))
        return r

    def field_type(self, fname):
        """type of (mangled) instance field, from annotations / constructor parameter annotations"""
        if fname in self._ftypes:
            return self._ftypes[fname]
        t = None
        for c in self.mro():
            if c.is_dataclass and fname in c.annots:
                t = self.loader.type_of(c.annots[fname], c.module, c)
                break
            for m in [c.methods.get("__init__")] + [f for k, f in c.methods.items() if k != "__init__"]:
                if m is None:
                    continue
                pann = {a.arg: a.annotation for a in m.args.posonlyargs + m.args.args + m.args.kwonlyargs}
                for s in ast.walk(m):
                    tgt, val, ann = None, None, None
                    if isinstance(s, ast.AnnAssign):
                        tgt, val, ann = s.target, s.value, s.annotation
                    elif isinstance(s, ast.Assign) and len(s.targets) == 1:
                        tgt, val = s.targets[0], s.value
                    if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self"):
                        continue
                    if mangle(tgt.attr, c) != fname:
                        continue
                    if ann is not None:
                        t = self.loader.type_of(ann, c.module, c)
                    elif isinstance(val, ast.Name) and pann.get(val.id) is not None and m.name == "__init__":
                        t = self.loader.type_of(pann[val.id], c.module, c)
                    elif isinstance(val, ast.Constant) and type(val.value) in (bool, int, str, float) and m.name == "__init__":
                        t = {bool: BOOL, int: INT, str: STR, float: FLOAT}[type(val.value)]
                    elif isinstance(val, ast.Call) and m.name == "__init__" and isinstance(val.func, ast.Name):
                        v = self.loader.static_resolve(val.func, c.module)
                        if isinstance(v, Class):
                            t = Ty("cls", cls=v)
                    if t is not None:
                        break
                if t is not None:
                    break
            if t is not None:
                break
        if t is None:
            t = ANY
        self._ftypes[fname] = t
        return t

    def all_fields(self):
        """every (mangled) instance field the class and its bases define, with its type"""
        r = {}
        for c in self.mro():
            if c.is_dataclass:
                for n in c.annots:
                    r[n] = self.field_type(n)
            m = c.methods.get("__init__")
            if m is not None:
                for s in ast.walk(m):
                    tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []
                    for t in tg:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            f = mangle(t.attr, c)
                            r[f] = self.field_type(f)
        return r


def mangle(name, cls):
    if cls is not None and name.startswith("__") and not name.endswith("__"):
        return "_" + cls.name.lstrip("_") + name
    return name


class Func:
    """A function of the repository or of a contract file."""
    def __init__(self, node, module, cls=None, kind="plain"):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind

    @property
    def qual(self):
        return self.module.name + ":" + (self.cls.name + "." if self.cls else "") + getattr(self.node, "name", "<lambda>")


class Module:
    def __init__(self, name, path, loader):
        self.name, self.path, self.loader = name, path, loader
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs, self.attr_assigns = {}, {}
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self._collect(self.tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.defs[s.name] = ("func", s)
            elif isinstance(s, ast.ClassDef):
                self.defs[s.name] = ("class", Class(s.name, self, s, self.loader))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.defs[a.asname] = ("import", a.name)
                    else:
                        self.defs[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == "*":
                        self.defs.setdefault("*", ("star", []))[1].append(base)
                    else:
                        self.defs[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("expr", s.value)
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                        self.attr_assigns[(t.value.id, t.attr)] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.defs[s.target.id] = ("expr", s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._collect(s.body)


class ExtName:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name


class Loader:
    def __init__(self, roots=None):
        self.roots = roots or [REPO, VERIF]
        self.modules = {}
        self._all = None
        self._class_universe = {}

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace(".", "/")
        m = None
        for r in self.roots:
            for p in (os.path.join(r, rel + ".py"), os.path.join(r, rel, "__init__.py")):
                if os.path.isfile(p):
                    m = Module(name, p, self)
                    break
            if m:
                break
        self.modules[name] = m
        return m

    def all_classes(self):
        """closed world: every class defined anywhere under brel/"""
        if self._all is None:
            out = []
            base = os.path.join(self.roots[0], "brel")
            for d, dn, fn in sorted(os.walk(base)):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith(".py") and " " not in f:
                        rel = os.path.relpath(os.path.join(d, f), self.roots[0])[:-3].replace("/", ".")
                        if rel.endswith(".__init__"):
                            rel = rel[:-9]
                        m = self.module(rel)
                        if m:
                            out += [v[1] for v in m.defs.values() if v[0] == "class"]
            self._all = out
        return self._all

    def lookup(self, module, name):
        """-> ('func',node,module) | ('class',Class) | ('module',Module) | ('expr',node,module) | ('ext',str) | None"""
        d = module.defs.get(name)
        if d is None:
            for b in module.defs.get("*", ("star", []))[1]:
                m = self.module(b)
                if m is not None:
                    r = self.lookup(m, name)
                    if r is not None:
                        return r
            sub = self.module(module.name + "." + name) if module.is_pkg else None
            if sub is not None:
                return ("module", sub)
            return None
        if d[0] == "func":
            return ("func", d[1], module)
        if d[0] == "class":
            return ("class", d[1])
        if d[0] == "expr":
            return ("expr", d[1], module)
        if d[0] == "import":
            m = self.module(d[1])
            return ("module", m) if m else ("ext", d[1])
        if d[0] == "from":
            m = self.module(d[1])
            if m is None:
                return ("ext", d[1] + "." + d[2])
            r = self.lookup(m, d[2])
            if r is None:
                sm = self.module(d[1] + "." + d[2])
                if sm is not None:
                    return ("module", sm)
                raise Unsupported("cannot resolve %s from %s" % (d[2], d[1]))
            return r
        raise Unsupported("lookup " + str(d[0]))

    def static_resolve(self, e, module):
        """class / module / ExtName named by a static expression (for annotations, bases)"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return self.static_resolve(ast.parse(e.value, mode="eval").body, module)
        if isinstance(e, ast.Name):
            r = self.lookup(module, e.id)
            if r is None:
                return ExtName("builtins." + e.id)
            if r[0] == "class":
                return r[1]
            if r[0] == "module":
                return r[1]
            if r[0] == "ext":
                return ExtName(r[1])
            if r[0] == "expr":
                return self.static_resolve(r[1], r[2])
            return None
        if isinstance(e, ast.Attribute):
            b = self.static_resolve(e.value, module)
            if isinstance(b, Module):
                r = self.lookup(b, e.attr)
                if r and r[0] in ("class", "module"):
                    return r[1]
                return None
            if isinstance(b, ExtName):
                return ExtName(b.name + "." + e.attr)
        return None

    def type_of(self, e, module, cls=None):
        if e is None:
            return ANY
        if isinstance(e, ast.Constant):
            if e.value is None:
                return NONE
            if isinstance(e.value, str):
                try:
                    return self.type_of(ast.parse(e.value, mode="eval").body, module, cls)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return union([self.type_of(e.left, module, cls), self.type_of(e.right, module, cls)])
        if isinstance(e, ast.Subscript):
            h = self.static_resolve(e.value, module)
            name = h.name.split(".")[-1] if isinstance(h, ExtName) else None
            sl = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if name == "Optional":
                return union([self.type_of(sl[0], module, cls), NONE])
            if name == "Union":
                return union([self.type_of(x, module, cls) for x in sl])
            if name in ("list", "List", "Sequence", "Iterable", "Iterator"):
                return Ty("list", [self.type_of(sl[0], module, cls)])
            if name in ("dict", "Dict", "defaultdict", "Mapping"):
                return Ty("dict", [self.type_of(x, module, cls) for x in sl])
            if name in ("set", "Set", "frozenset"):
                return Ty("set", [self.type_of(sl[0], module, cls)])
            if name in ("tuple", "Tuple"):
                if len(sl) == 2 and isinstance(sl[1], ast.Constant) and sl[1].value is Ellipsis:
                    return ANY
                return Ty("tuple", [self.type_of(x, module, cls) for x in sl])
            if name in ("type", "Type"):
                return Ty("type", [self.type_of(sl[0], module, cls)])
            if name == "Callable":
                return Ty("callable")
            if name in ("Unpack", "Annotated", "ClassVar", "Final"):
                return ANY
            if isinstance(h, Class):
                return Ty("cls", cls=h)
            return ANY
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name) and e.id == "Self" and cls is not None:
                return Ty("cls", cls=cls)
            h = self.static_resolve(e, module)
            if isinstance(h, Class):
                return Ty("cls", cls=h)
            if isinstance(h, ExtName):
                n = h.name.split(".")[-1]
                prim = {"int": INT, "str": STR, "bool": BOOL, "float": FLOAT, "Decimal": FLOAT, "None": NONE, "list": Ty("list", [ANY]), "List": Ty("list", [ANY]),
                        "dict": Ty("dict", [ANY, ANY]), "Dict": Ty("dict", [ANY, ANY]), "set": Ty("set", [ANY]), "tuple": ANY, "Any": ANY, "object": ANY,
                        "type": Ty("type", [ANY]), "Callable": Ty("callable")}
                if n in prim and h.name.split(".")[0] in ("builtins", "typing", "decimal"):
                    return prim[n]
                if h.name.split(".")[0] == "builtins":
                    return ANY   # type variable
                return Ty("ext", cls=h.name)
        return ANY
