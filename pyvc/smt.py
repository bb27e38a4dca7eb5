"""Value universe and solver access."""
import z3, time, subprocess, tempfile, os

_V = z3.Datatype("V")
_L = z3.Datatype("L")
_V.declare("none")
_V.declare("b", ("bv", z3.BoolSort()))
_V.declare("i", ("iv", z3.IntSort()))
_V.declare("r", ("rv", z3.RealSort()))
_V.declare("s", ("sv", z3.StringSort()))
_V.declare("o", ("ov", z3.IntSort()))            # object reference
_V.declare("ext", ("ev", z3.IntSort()))          # opaque external object (lxml element, ...)
_V.declare("dt", ("dtv", z3.IntSort()))          # dates / datetimes, ordered
_V.declare("tup", ("tv", _L))
_V.declare("cls", ("cv", z3.StringSort()))       # classes and enum members
_V.declare("absent")
_V.declare("fl", ("lv", _L))                     # frozen list
_V.declare("fd", ("dv", _L))                     # frozen dict (k,v,k,v,...)
_V.declare("rec", ("rc", z3.StringSort()), ("rf", _L))  # frozen instance
_L.declare("nil")
_L.declare("snoc", ("init", _L), ("last", _V))
V, L = z3.CreateDatatypes(_V, _L)
AVV = z3.ArraySort(V, V)
AVB = z3.ArraySort(V, z3.BoolSort())

I, B, S, R = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()
clsof = z3.Function("clsof", I, I)
llen = z3.Function("llen", L, I)
lcat = z3.Function("lcat", L, L, L)
lnth = z3.Function("lnth", L, I, V)
lset = z3.Function("lset", L, AVB)
dvals = z3.Function("dvals", L, AVV, L)
str_of = z3.Function("str_of", V, S)

STATS = dict(queries=0, time=0.0, unknown=0, cvc5=0)
_uf = {}


def UF(name, *sorts):
    k = (name,) + tuple(s.name() if hasattr(s, "name") else str(s) for s in sorts)
    if k not in _uf:
        _uf[k] = z3.Function(name + ("" if len([x for x in _uf if x[0] == name]) == 0 else "!%d" % len(_uf)), *sorts)
    return _uf[k]


def is_lit_true(c):
    return z3.is_true(c)


def check(pc, cond=None, timeout=4000):
    """satisfiability of pc (/\\ cond) with a fresh z3 solver (cvc5 where z3 is slow); 'sat'/'unsat'/'unknown', model"""
    if timeout > 1000:
        r = check_z3(pc, cond, 800)
        if r[0] != "unknown":
            return r
        if cvc5_check(pc, cond, 3) == "unsat":
            return "unsat", None
    return check_z3(pc, cond, timeout)


def add_all(s, pc):
    """s.add without z3py's per-assertion coercions (every assumption is already a Boolean term)"""
    ref = s.ctx.ref()
    for p in pc:
        z3.Z3_solver_assert(ref, s.solver, p.as_ast())


def check_z3(pc, cond=None, timeout=4000):
    s = z3.Solver()
    s.set("timeout", timeout)
    add_all(s, pc)
    if cond is not None:
        s.add(cond)
    t = time.time()
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t
    if r == z3.sat:
        return "sat", s.model()
    if r == z3.unsat:
        return "unsat", None
    STATS["unknown"] += 1
    return "unknown", s


def abstract_strings(fs):
    """the terms known to be texts replaced by string variables (a weaker problem: unsat carries over); None when there are none"""
    sub, seen = [], set()
    for f in fs:
        if z3.is_app(f) and f.decl().eq(V.is_s) and f.get_id() not in seen:
            seen.add(f.get_id())
            t = f.arg(0)
            if not (z3.is_app(t) and t.decl().eq(V.s)):
                sub.append((t, V.s(z3.Const("text!%d" % len(sub), z3.StringSort()))))
    if not sub:
        return None
    out = []
    for f in fs:
        g = z3.simplify(z3.substitute(f, *sub))
        if not z3.is_true(g):
            out.append(g)
    return out


def cvc5_check(pc, cond, timeout=8):
    fs = list(pc) + ([cond] if cond is not None else [])
    if len(fs) < 200:
        ab = abstract_strings(fs)
        if ab is not None and cvc5_run(ab, None, min(timeout, 2)) == "unsat":
            return "unsat"
    return cvc5_run(pc, cond, timeout)


def cvc5_run(pc, cond, timeout=8):
    """second back end, through SMT-LIB text"""
    s = z3.Solver()
    add_all(s, pc)
    if cond is not None:
        s.add(cond)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t = time.time()
    STATS["cvc5"] += 1
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % (timeout * 1000), "--strings-exp", f.name], capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
    except Exception:
        out = "unknown"
    finally:
        os.unlink(f.name)
    STATS["time"] += time.time() - t
    return out if out in ("sat", "unsat") else "unknown"


class Inc:
    """Incremental solver kept in step with a path condition (used for feasibility only)."""
    def __init__(self, timeout=500):
        self.s = z3.Solver()
        self.s.set("timeout", timeout)
        self.unknowns, self.short = 0, False
        self.stack = []
        self.cache = {}

    def feasible(self, pc, cond):
        key = (tuple(p.get_id() for p in pc), cond.get_id())
        if key in self.cache:
            return self.cache[key][0]
        n = 0
        while n < len(self.stack) and n < len(pc) and self.stack[n].eq(pc[n]):
            n += 1
        if n < len(self.stack):
            self.s.pop(len(self.stack) - n)
            del self.stack[n:]
        for p in pc[n:]:
            self.s.push()
            self.s.add(p)
            self.stack.append(p)
        t = time.time()
        r = self.s.check(cond)
        STATS["queries"] += 1
        STATS["time"] += time.time() - t
        if r == z3.unknown:
            # cvc5 decides most string conditions that z3 does not; then once more z3 with a fresh solver
            self.unknowns += 1
            if self.unknowns > 5 and not self.short:
                self.short = True
                self.s.set("timeout", 100)
            q = cvc5_check(pc, cond, 3)
            if q == "unknown":
                q, _ = check_z3(pc, cond, 3000)
            r = {"sat": z3.sat, "unsat": z3.unsat}.get(q, z3.unknown)
        out = r != z3.unsat
        self.cache[key] = (out, list(pc), cond)   # keeps the ASTs alive so ids stay unique
        return out
