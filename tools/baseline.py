"""run every proof on the unchanged tree and record which laws are proved: only these may raise an alarm by refutation"""
import sys, os, json, subprocess, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, "contracts", "baseline.json")


def one(p):
    with tempfile.TemporaryDirectory() as t:
        o = os.path.join(os.environ.get("KEEP", t), p + ".json")
        subprocess.run(["python3-vt", "-m", "pyvc.run", p, "--budget", "100", "--out", o], cwd=V, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return p, json.load(open(o)) if os.path.exists(o) else None


def main():
    props = sys.argv[1:] or sorted({os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(V, "contracts", "c[0-9]*.py"))})
    base = json.load(open(F)) if os.path.exists(F) else {}
    with ThreadPoolExecutor(2) as ex:
        for p, r in ex.map(one, props):
            if r is None:
                print(p, "no answer")
                continue
            base[p] = sorted(x["law"] for x in r if x["status"] == "proved")
            for x in r:
                if x["status"] != "proved":
                    print(p, x["law"], x["status"], x["discharged"], "/", x["obligations"], x["note"], [f["obligation"] for f in x.get("failed", [])][:2])
            print(p, len(base[p]), "of", len(r), "laws proved")
    json.dump(base, open(F, "w"), indent=1, sort_keys=True)


main()
