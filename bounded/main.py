"""python -m bounded.main CXX --seed S --seconds N --out f.json | --replay f.json
Runs the bounded checks of one property on the real code. Never counted as proof."""
import sys, os, json, time, random, argparse, importlib, traceback, tempfile, shutil, signal, resource


from bounded.core import Fail, expect
from harness.api import inapplicable


class Hang(BaseException):
    pass


def alarm(*_):
    raise Hang()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--seed", default="1"); ap.add_argument("--seconds", type=float, default=30)
    ap.add_argument("--out"); ap.add_argument("--replay"); ap.add_argument("--case"); ap.add_argument("--n", type=int, default=10 ** 9)
    a = ap.parse_args()
    import warnings
    warnings.simplefilter("ignore")
    m = importlib.import_module("bounded." + a.prop.lower())
    tmp = tempfile.mkdtemp(prefix="verif-b-")
    try:
        if a.replay:
            b = json.load(open(a.replay))
            r = one(m, b["case"], b["case_seed"], tmp)
            if r is None:
                print("the case passes")
                sys.exit(0)
            print(r["what"]); print(r["detail"])
            for k, v in (r.get("files") or {}).items():
                print("---", k); print(v)
            sys.exit(1)
        out = explore(m, a, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    s = json.dumps(out, indent=1, default=str)
    if a.out: open(a.out, "w").write(s)
    else: print(s)


class Env:
    """one case: .rng, .dir (scratch), .note(...)"""
    def __init__(self, rng, d):
        self.rng, self.dir, self.files, self.digest = rng, d, {}, None

    def open(self, path):
        from brel import Filing
        return Filing.open(path)


def one(m, case, seed, tmp, dig=None):
    d = os.path.join(tmp, "case")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = Env(random.Random(seed), d)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(30)
    try:
        m.CASES[case](env)
        return None
    except Fail as e:
        return dict(key=e.key, what=e.what, detail=e.detail[:3000], case=case, case_seed=seed, files=shorten(env.files))
    except Hang:
        return dict(key="hang", what="%s: no answer within 30 s" % case, detail="", case=case, case_seed=seed, files=shorten(env.files))
    except Exception as e:
        if inapplicable(e):
            return None
        tb = traceback.format_exc()
        return dict(key="crash:" + type(e).__name__, what="%s: unexpected %s: %s" % (case, type(e).__name__, e), detail=tb[-2500:], case=case, case_seed=seed, files=shorten(env.files))
    finally:
        signal.alarm(0)
        if dig is not None:
            dig.add(hash(str(env.digest if env.digest is not None else sorted(env.files.items()) or seed)))


def shorten(files):
    return {k: (v if len(v) < 20000 else v[:20000] + "...") for k, v in files.items()}


def explore(m, a, tmp):
    names = list(m.CASES)
    w = getattr(m, "WEIGHTS", {})
    end = time.time() + a.seconds
    n, viol, dig, stats, keys = 0, [], set(), {k: 0 for k in names}, set()
    spent = {k: 0.0 for k in names}
    FIN = set(getattr(m, "ONCE", ()))
    # fixed cases first, then share the time between the others
    for k in names:
        if k in FIN:
            r = one(m, k, "%s/0" % a.seed, tmp, dig)
            n += 1; stats[k] += 1
            if r and (k, r["key"]) not in keys: keys.add((k, r["key"])); viol.append(r)
    live = [k for k in names if k not in FIN and (not a.case or k == a.case)]
    while live and time.time() < end and n < a.n and len(viol) < 12:
        k = min(live, key=lambda k: spent[k] / w.get(k, 1))
        t = time.time()
        r = one(m, k, "%s/%d" % (a.seed, stats[k]), tmp, dig)
        spent[k] += time.time() - t
        n += 1; stats[k] += 1
        if r and (k, r["key"]) not in keys:
            keys.add((k, r["key"])); viol.append(r)
    return dict(evaluations=n, distinct=len(dig), digests=list(dig), rule=getattr(m, "RULE", ""), samples=[dict(case=k, case_seed="%s/0" % a.seed) for k in names[:5]], stats=stats, violations=viol)


if __name__ == "__main__":
    main()
