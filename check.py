#!/usr/bin/env python3
"""check.py CXX [--tier quick|thorough]   decide one property on /repo's current tree
check.py --replay FILE                    re-run the failing input of an earlier violation

Exit 0: nothing found. Exit 1 + 'VIOLATION property=.. replay=..' otherwise."""
import glob, sys, os, json, time, subprocess, tempfile, shutil, argparse

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "python3-vt"

QUICK = dict(workers=4, lawworkers=2, prove=100, laws=25, bounded=45, extra=45, wall=600)
THOROUGH = dict(workers=5, lawworkers=2, prove=400, laws=150, bounded=300, extra=120, wall=860)


class Job:
    """one sub-process with its own scratch home; output through a json file"""

    def __init__(self, cmd, tmp, name, wall):
        self.name, self.out = name, os.path.join(tmp, name + ".json")
        self.log = os.path.join(tmp, name + ".log")
        home = os.path.join(tmp, "home-" + name)
        os.makedirs(home, exist_ok=True)
        env = dict(os.environ, HOME=home, TMPDIR=home, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO, PYTHONPATH=REPO + ":" + VERIF, LC_ALL="C.UTF-8", LANG="C.UTF-8")
        vt = cmd[0] == VT
        if vt:
            env["PYTHONPATH"] = VERIF
        self.p = subprocess.Popen(cmd + ["--out", self.out], cwd=VERIF if vt else REPO, env=env, stdout=open(self.log, "w"), stderr=subprocess.STDOUT, start_new_session=True)
        self.end = time.time() + wall

    def wait(self):
        try:
            self.p.wait(max(1, self.end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, 9)
            self.p.wait()
            return None
        try:
            return json.load(open(self.out))
        except Exception:
            return None

    def tail(self):
        try:
            return open(self.log, errors="replace").read()[-3000:]
        except Exception:
            return ""


def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                rest = l.split(" ", 2)[2].strip()
                key = rest.split(" ", 1)[0]
                out.append((key, rest))
    return out


def save_replay(prop, n, body):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%d.json" % (prop, n))
    json.dump(body, open(f, "w"), indent=1, default=str)
    return f


def has(sub, prop, word):
    return any(word in open(f).read() for f in sorted(glob.glob(os.path.join(VERIF, sub, prop.lower() + "*.py"))))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(json.load(open(a.replay)))
    B = THOROUGH if a.tier == "thorough" else QUICK
    prop, seed, t0 = a.prop, int(a.seed), time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return decide(prop, seed, a.tier, B, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def worker_seed(seed, k):
    return str(seed) if k == 0 else "%d.%d" % (seed, k)


def merge_laws(outs):
    laws = {}
    for o in outs:
        for r in o:
            m = laws.setdefault(r["law"], dict(r, runs=0, ok=0, skipped=0, fail=None, digests=set()))
            for k in ("runs", "ok", "skipped"):
                m[k] += r[k]
            m["fail"] = m["fail"] or r["fail"]
            m["digests"] |= set(r.get("digests", []))
            m["distinct"] = len(m["digests"])
    for m in laws.values():
        del m["digests"]
    return list(laws.values())


def merge_bounded(outs):
    if not outs:
        return None
    m = dict(outs[0], evaluations=0, violations=[], stats={})
    dig, seen = set(), set()
    for o in outs:
        m["evaluations"] += o["evaluations"]
        dig |= set(o.get("digests", []))
        for k, v in o["stats"].items():
            m["stats"][k] = m["stats"].get(k, 0) + v
        for v in o["violations"]:
            if (v["case"], v["key"]) not in seen:
                seen.add((v["case"], v["key"]))
                m["violations"].append(v)
    m["distinct"] = len(dig)
    m.pop("digests", None)
    return m


def decide(prop, seed, tier, B, tmp, t0):
    jobs = {}
    haslaws = has("contracts", prop, "@law")
    if haslaws:
        jobs["prove"] = Job([VT, "-m", "pyvc.run", prop, "--budget", str(B["prove"])], tmp, "prove", B["wall"] - 120)
        for k in range(B["lawworkers"]):
            jobs["laws" + str(k)] = Job([PY, "-m", "harness.runlaws", prop, "--seed", worker_seed(seed, k), "--seconds", str(B["laws"])], tmp, "laws%d" % k, B["laws"] + 120)
    if has("bounded", prop, "CASES"):
        for k in range(B["workers"] if haslaws else B["workers"] + B["lawworkers"]):
            jobs["bounded" + str(k)] = Job([PY, "-m", "bounded.main", prop, "--seed", worker_seed(seed, k), "--seconds", str(B["bounded"])], tmp, "bounded%d" % k, B["bounded"] + 200)
    res = {k: j.wait() for k, j in jobs.items()}
    for k in jobs:
        if res[k] is None:
            print("check: %s gave no answer\n%s" % (k, jobs[k].tail()))
    res["laws"] = merge_laws([res[k] for k in jobs if k.startswith("laws") and res[k]])
    res["bounded"] = merge_bounded([res[k] for k in jobs if k.startswith("bounded") and res[k]])
    kf = known(prop)
    kfkeys = {k for k, _ in kf}
    viol = []          # (replay body, suffix)
    # 1. contracts executed on the real code
    execd = {r["law"]: r for r in (res.get("laws") or [])}
    for r in execd.values():
        if r["fail"]:
            viol.append((dict(kind="law", property=prop, obligation=r["law"], law=r["law"], **r["fail"]), ""))
    # 2. the proof
    proof = res.get("prove") or []
    base = json.load(open(os.path.join(VERIF, "contracts", "baseline.json"))).get(prop, [])
    for r in proof:
        if r["law"] not in base and r["status"] == "refuted":
            r["note"] = "not proved (the abstraction is too weak on the unchanged tree); executed only"
        elif r["status"] == "refuted" and not (execd.get(r["law"]) or {}).get("fail"):
            ext = [Job([PY, "-m", "harness.runlaws", prop, "--law", r["law"], "--seed", "%d.%d" % (seed, k), "--seconds", str(B["extra"])], tmp, "x-%s-%d" % (r["law"], k), B["extra"] + 60) for k in range(6)]
            hit = None
            for j in ext:
                o = j.wait() or []
                hit = hit or next((x["fail"] for x in o if x["fail"]), None)
            body = dict(kind="proof", property=prop, law=r["law"], obligation=r["failed"][0]["obligation"], counter_model=r["failed"][0]["model"], all_failed=r["failed"], verifier="pyvc/z3: sat for the negated obligation", functions=r["functions"])
            if hit:
                viol.append((dict(body, kind="law", **hit), ""))
            else:
                viol.append((body, " no-failing-input-found"))
    # 3. bounded stand-ins
    b = res.get("bounded") or {}
    for v in b.get("violations", []):
        if v.get("key") in kfkeys:
            continue
        viol.append((dict(kind="bounded", property=prop, **v), ""))
    for key, rest in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, rest))
    wall = round(time.time() - t0, 1)
    evidence(prop, seed, tier, proof, execd, b, viol, wall, jobs, res, kf)
    for r in proof:
        print("contract %-55s %-9s obligations %d/%d  %.1fs %s" % (r["law"], r["status"], r["discharged"], r["obligations"], r["wall"], r["note"]))
    for r in execd.values():
        print("executed %-55s %d runs, %d distinct%s" % (r["law"], r["ok"], r["distinct"], "  FAILED: " + r["fail"]["error"] if r["fail"] else ""))
    if b:
        print("bounded  %d cases, %d distinct; %d violations" % (b.get("evaluations", 0), b.get("distinct", 0), len(b.get("violations", []))))
    # the concrete ones first: a violation with a replayed input needs no further words
    viol.sort(key=lambda v: v[1] != "")
    if any(not s for _, s in viol):
        viol = [v for v in viol if not v[1]]
    for n, (body, suf) in enumerate(viol[:5]):
        f = save_replay(prop, n, body)
        print("  " + str(body.get("obligation") or body.get("what"))[:300])
        print("  " + str(body.get("error") or body.get("detail") or body.get("counter_model"))[:1500])
        print("VIOLATION property=%s replay=%s%s" % (prop, f, suf))
    if viol:
        return 1
    if jobs and all(res[k] is None for k in jobs):
        print("no part of the check gave an answer")
        return 3
    return 0


TRUST = ["pyvc: the verification-condition generator in /verif/pyvc and its semantics of the Python fragment", "z3 (python3-vt) and cvc5 1.1.2",
         "float arithmetic treated as real arithmetic; int unbounded (as in Python)", "values have the types their annotations (and cast()) say",
         "recursive functions terminate (well-founded object graphs)", "messages of exceptions and log output are not modelled"]


def evidence(prop, seed, tier, proof, execd, b, viol, wall, jobs, res, kf):
    ob = sum(r["obligations"] for r in proof)
    dis = sum(r["discharged"] for r in proof)
    allproved = bool(proof) and all(r["status"] == "proved" for r in proof)
    ev = sum(r["runs"] for r in execd.values()) + b.get("evaluations", 0)
    dn = sum(r["distinct"] for r in execd.values()) + b.get("distinct", 0)
    cov = dict(obligations=ob, discharged=dis, checker_cmd="python3-vt -m pyvc.run %s (in /verif, source read from /repo on every run)" % prop,
               trusted_base=TRUST, evaluations=ev, distinct_nontrivial=dn,
               rule="laws: random real objects built from the annotated types (harness/gen.py), distinct by printed arguments, precondition satisfied; bounded: " + b.get("rule", "none"),
               samples=(b.get("samples") or [])[:5] + [dict(law=r["law"], runs=r["runs"]) for r in execd.values()][:10],
               functions_under_contract=sorted({f for r in proof for f in r["functions"]}),
               summarised_by_contract=sorted({f for r in proof for f in r["under_contract"]}),
               laws=[dict(law=r["law"], status=r["status"], obligations=r["obligations"], discharged=r["discharged"], z3=r["z3"], cvc5=r["cvc5"], trivial=r["trivial"], solver_s=r["solver"], queries=r["queries"], inductive_lemmas=r["lemmas"], note=r["note"]) for r in proof],
               discharged_by=dict(z3=sum(r["z3"] for r in proof), cvc5=sum(r["cvc5"] for r in proof), evaluation=sum(r["trivial"] for r in proof)),
               solver_s=round(sum(r["solver"] for r in proof), 1),
               undischarged=[r["law"] + ": " + (r["note"] or r["status"]) for r in proof if r["status"] != "proved"],
               bounded_contracts=[dict(law=r["law"], runs=r["runs"], satisfied_precondition=r["ok"]) for r in execd.values() if r["bounded"]],
               bounded=dict(evaluations=b.get("evaluations", 0), distinct=b.get("distinct", 0), rule=b.get("rule", ""), stats=b.get("stats", {})),
               no_answer=[k for k in jobs if res[k] is None])
    level = MANIFEST_LEVEL(prop)
    a = sorted({x for r in proof for x in r["assumptions"]}) + TRUST[2:]
    e = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=a, wall_s=wall, violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)


def MANIFEST_LEVEL(prop):
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "exploration"


def replay(body):
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        env = dict(os.environ, HOME=tmp, TMPDIR=tmp, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=REPO + ":" + VERIF)
        if body["kind"] == "law":
            return subprocess.call([PY, "-m", "harness.runlaws", body["property"], "--law", body["law"], "--seed", str(body["seed"]), "--at", str(body["index"])], cwd=REPO, env=env)
        if body["kind"] == "bounded":
            f = os.path.join(tmp, "r.json")
            json.dump(body, open(f, "w"))
            return subprocess.call([PY, "-m", "bounded.main", body["property"], "--replay", f], cwd=REPO, env=env)
        print("the verifier refuted this obligation; no failing input was found")
        print(json.dumps(body, indent=1))
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
