"""Law runner: proves the contracts of one property from the current source.  python -m pyvc.run CXX out.json"""
import sys, os, ast, json, time, traceback
import z3
from .smt import *
from . import smt
from .loader import *
from .values import *
from .interp import Fold
from .prims import PEngine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


class LawEngine(PEngine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.obs = {}          # (line, n) -> dict(status..)
        self.models = []

    def obligation(self, s, t):
        key = s.lineno
        r = self.obs.setdefault(key, dict(line=key, text=ast.unparse(s.test)[:160], n=0, z3=0, cvc5=0, trivial=0, failed=[], unknown=0))
        if getattr(self, "_fold_base", None) is not None or self.in_rec:
            raise Unsupported("assert inside a summarised loop")
        ck = (key, self.ctx.key, tuple(self.ctx.taken))
        if ck in self.done_obs:
            pass
        elif isinstance(t, bool):
            r["n"] += 1
            if t:
                r["trivial"] += 1
            else:
                st, m = check(self.st.pc, None, 5000)
                if st == "unsat":
                    r["z3"] += 1
                elif st == "sat":
                    r["failed"].append(self.model_info(m))
                else:
                    r["unknown"] += 1
        else:
            r["n"] += 1
            st, m = check(self.st.pc, z3.Not(t), self.ob_timeout)
            if st == "unsat":
                r["z3"] += 1
            elif st == "sat":
                r["failed"].append(self.model_info(m))
            else:
                c = cvc5_check(self.st.pc, z3.Not(t))
                if c == "unsat":
                    r["cvc5"] += 1
                else:
                    r["unknown"] += 1
        self.done_obs.add(ck)
        if isinstance(t, bool):
            if not t:
                raise Infeasible()
        else:
            self.st.assume(t)

    in_rec = 0
    ob_timeout = 12000

    def model_info(self, m):
        out = {}
        for p in self.params:
            try:
                t = next((z3.Const("arg_" + p, q) for q in (z3.StringSort(), z3.IntSort(), z3.BoolSort(), z3.RealSort()) if any(d.name() == "arg_" + p and d.range() == q for d in m.decls())), z3.Const("arg_" + p, V))
                out[p] = str(m.eval(t, model_completion=True))[:200]
            except Exception:
                pass
        return out


def run_law(ld, mod, node, contracts, observers, externals, budget, verbose=False):
    t0 = time.time()
    smt.STATS.update(queries=0, time=0.0, unknown=0, cvc5=0)
    res = dict(law=node.name, module=mod.name, status="?", obligations=0, discharged=0, z3=0, cvc5=0, trivial=0, paths=0, failed=[], note="")
    eng = LawEngine(ld, contracts=contracts, observers=observers, budget=budget, externals=externals)
    eng.done_obs = set()
    eng.params = [a.arg for a in node.args.args]
    eng.verifying = None
    eng.use_witness = any(k.arg == "witness" and getattr(k.value, "value", False) for d in node.decorator_list if isinstance(d, ast.Call) for k in d.keywords)
    try:
        for attempt in range(12):
            eng.st, eng.ctx = State(), Ctx0()
            eng.obs, eng.done_obs = {}, set()
            eng._fold_base = None
            eng.fid = None
            eng.depth = 0
            try:
                def run():
                    vals = []
                    for a in node.args.args:
                        ty = ld.type_of(a.annotation, mod, None)
                        mk = {"str": (V.s, z3.StringSort()), "int": (V.i, z3.IntSort()), "bool": (V.b, z3.BoolSort()), "float": (V.r, z3.RealSort())}.get(ty.kind)
                        vals.append(eng.sym(mk[0](z3.Const("arg_" + a.arg, mk[1])) if mk else z3.Const("arg_" + a.arg, V), ty))
                    try:
                        eng.call_func(FuncVal(Func(node, mod)), vals, {})
                        return "ok"
                    except PyRaise as e:
                        return "raise:" + e.exc.name
                paths = eng.explore(eng.st, run, "law")
                break
            except NeedComp as e:
                k = (e.fold, e.key)
                if k in eng.force:
                    raise Unsupported("loop variable %s read after the loop cannot be summarised" % (e.key,))
                eng.force.add(k)
                eng.memo.clear()
        else:
            raise Unsupported("too many restarts")
        res["paths"] = len(paths)
        bad = [o for _, o in paths if o != "ok"]
        esc = {}
        for st, o in paths:
            if o != "ok":
                q, m = check(st.pc, None, 6000)
                if q == "sat":
                    esc.setdefault(o, eng.model_info(m))
                elif q != "unsat":
                    esc.setdefault(o, {})
        for o in eng.obs.values():
            for k in ("z3", "cvc5", "trivial"):
                res[k] += o[k]
            res["obligations"] += o["n"]
            res["discharged"] += o["z3"] + o["cvc5"] + o["trivial"]
            for f in o["failed"]:
                res["failed"].append(dict(obligation="%s:%d: assert %s" % (mod.name, o["line"], o["text"]), model=f))
            if o["unknown"]:
                res["note"] += " undecided: line %d;" % o["line"]
        for k, m in esc.items():
            res["obligations"] += 1
            res["failed"].append(dict(obligation="%s:%s: no exception escapes (%s)" % (mod.name, node.name, k), model=m))
        if not bad:
            res["obligations"] += 1
            res["discharged"] += 1
            res["trivial"] += 1
        nonvac = any(check(st.pc, None, 6000)[0] != "unsat" for st, o in paths)
        n_assert = sum(isinstance(x, ast.Assert) for x in ast.walk(node))
        if not eng.obs or not nonvac:
            res["status"] = "vacuous"
        elif res["failed"]:
            res["status"] = "refuted"
        elif res["discharged"] == res["obligations"]:
            res["status"] = "proved"
        else:
            res["status"] = "undecided"
    except Timeout as e:
        res["status"], res["note"] = "undecided", "time budget"
    except Unsupported as e:
        res["status"], res["note"] = "undecided", "outside the fragment: %s" % e
        if verbose:
            traceback.print_exc()
    except (NeedComp, Brk, Cont, Ret, Infeasible) as e:
        res["status"], res["note"] = "undecided", "engine: %s" % type(e).__name__
        if verbose:
            traceback.print_exc()
    except RecursionError:
        res["status"], res["note"] = "undecided", "engine: recursion limit"
    except Exception as e:
        res["status"], res["note"] = "undecided", "engine error: %s: %s" % (type(e).__name__, str(e)[:200])
        if verbose:
            traceback.print_exc()
    res["functions"] = sorted(eng.called)
    res["under_contract"] = sorted(eng.under_contract)
    res["assumptions"] = sorted(eng.assumptions)
    res["notes"] = getattr(eng, "notes", [])[:10]
    res["wall"] = round(time.time() - t0, 2)
    res["solver"] = round(smt.STATS["time"], 2)
    res["queries"] = smt.STATS["queries"]
    res["lemmas"] = getattr(eng, "lemmas", 0)
    return res


def Ctx0():
    from .interp import Ctx
    return Ctx((), ())


def laws_of(ld, modname):
    mod = ld.module(modname)
    out = []
    for n in mod.tree.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "law":
                    kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                    if not kw.get("bounded"):
                        out.append((mod, n, ast.literal_eval(d.args[0])))
    return out


def one(args):
    modname, name, budget, verbose = args
    ld = Loader()
    for mod, n, p in laws_of(ld, modname):
        if n.name == name:
            cfg = config(ld, mod)
            return run_law(ld, mod, n, *cfg, budget, verbose)


def config(ld, mod):
    """OBSERVERS = [...] / CONTRACTS = {...} in the law module"""
    obs = []
    contracts = {}
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            if s.targets[0].id == "OBSERVERS":
                obs = ast.literal_eval(s.value)
            if s.targets[0].id == "PURE":
                contracts["$pure"] = ast.literal_eval(s.value)
            if s.targets[0].id == "CONTRACTS":
                for k, v in zip(s.value.keys, s.value.values):
                    r = ld.lookup(mod, v.id)
                    contracts[k.value] = Func(r[1], r[2])
    return contracts, obs, {}


def main(prop, out=None, budget=60.0, verbose=False, only=None):
    import multiprocessing as mp
    ld = Loader()
    todo = []
    d = os.path.join(VERIF, "contracts")
    for f in sorted(os.listdir(d)):
        if f.startswith("c") and f.endswith(".py"):
            src = open(os.path.join(d, f)).read()
            if "@law" not in src:
                continue
            for mod, n, p in laws_of(ld, "contracts." + f[:-3]):
                if p == prop and (only is None or n.name in only):
                    todo.append(("contracts." + f[:-3], n.name, budget, verbose))
    if len(todo) <= 1 or verbose:
        res = [one(t) for t in todo]
    else:
        with mp.Pool(min(8, len(todo))) as p:
            res = p.map(one, todo, chunksize=1)
    if out:
        json.dump(res, open(out, "w"), indent=1)
    return res


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--law", nargs="*")
    a = ap.parse_args()
    for r in main(a.prop, a.out, a.budget, a.v, a.law):
        print("%-10s %-50s ob %d/%d paths %d wall %.1f solver %.1f %s %s" % (r["status"], r["law"], r["discharged"], r["obligations"], r["paths"], r["wall"], r["solver"], r["note"], "; ".join(r["notes"])))
        for f in r["failed"]:
            print("    FAILED", f["obligation"], f["model"])
