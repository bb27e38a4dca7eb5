"""Execute the contracts of a property in CPython on random real objects.
usage: python -m harness.runlaws C05 --seed 1 --seconds 10 [--n N] [--law name] [--at index] [--out f.json]"""
import sys, signal, json, time, random, argparse, importlib, inspect, traceback, os, typing
from contracts import dsl
from harness.api import inapplicable


def describe(v, d=0):
    if d > 6:
        return "..."
    if v is None or isinstance(v, (str, int, float, bool)):
        return repr(v)
    if isinstance(v, (list, tuple, set)):
        return type(v).__name__ + "[" + ", ".join(describe(x, d + 1) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(describe(k, d + 1) + ": " + describe(x, d + 1) for k, x in v.items()) + "}"
    dd = getattr(v, "__dict__", None)
    if dd is not None and type(v).__module__.startswith("brel"):
        return type(v).__name__ + "(" + ", ".join(k.split("__")[-1] + "=" + describe(x, d + 1) for k, x in dd.items() if "label" not in k) + ")"
    if hasattr(v, "nsmap"):
        from lxml import etree
        return etree.tostring(v).decode()
    return repr(v)


class Hang(BaseException):
    pass


def alarm(*_):
    raise Hang("no answer within 30 s")


def one(law, seed, i):
    from harness.gen import Gen
    rng = random.Random("%s/%s/%s" % (seed, law.__name__, i))
    g = Gen(rng)
    hints = typing.get_type_hints(law)
    args = []
    try:
        own = getattr(sys.modules[law.__module__], "GENERATORS", {})      # parameter name -> generator, where the type alone says too little
        args = [own[p](g) if p in own else g.make(hints[p]) for p in inspect.signature(law).parameters]
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(30)
        law(*args)
        return "ok", args, None
    except dsl.Skip:
        return "skip", args, None
    except Exception as e:
        return "gone" if inapplicable(e) else "fail", args, e
    except Hang as e:
        return "fail", args, e
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--seed", default="1"); ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--n", type=int, default=10**9); ap.add_argument("--law"); ap.add_argument("--at", type=int); ap.add_argument("--out")
    a = ap.parse_args()
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    mods = sorted(f[:-3] for f in os.listdir(here) if f.startswith(a.prop.lower()) and f.endswith(".py"))
    for m in mods:
        importlib.import_module("contracts." + m)
    if not mods:
        print(json.dumps([])); return
    laws = [f for f in dsl.LAWS if f._law["prop"] == a.prop and (not a.law or f.__name__ == a.law)]
    res = []
    if a.at is not None:
        s, args, e = one(laws[0], a.seed, a.at)
        print(s, "" if e is None else "%s: %s" % (type(e).__name__, e))
        for p, v in zip(inspect.signature(laws[0]).parameters, args):
            print("  ", p, "=", describe(v))
        if e is not None:
            traceback.print_exception(e)
        sys.exit(1 if s == "fail" else 0)
    for k, law in enumerate(laws):
        end = time.time() + a.seconds / len(laws)
        i = ok = skip = 0
        digests = set()
        fail = None
        while i < a.n and time.time() < end and i < 200000:
            s, args, e = one(law, a.seed, i)
            if s == "ok":
                ok += 1
                if ok <= 5000:
                    digests.add(hash(tuple(describe(x) for x in args)))
            elif s in ("skip", "gone"):
                skip += 1
            else:
                tb = "".join(traceback.format_exception(e))[-3000:]
                fail = dict(index=i, seed=a.seed, error="%s: %s" % (type(e).__name__, e), args={p: describe(v) for p, v in zip(inspect.signature(law).parameters, args)}, traceback=tb)
                break
            i += 1
        res.append(dict(law=law.__name__, bounded=law._law["bounded"], runs=i + (1 if fail else 0), ok=ok, skipped=skip, distinct=len(digests), digests=list(digests), fail=fail))
    out = json.dumps(res, indent=1)
    if a.out:
        open(a.out, "w").write(out)
    else:
        print(out)


if __name__ == "__main__":
    main()
