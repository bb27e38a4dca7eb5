"""inline facts: one per element, with its own aspects"""
import re
from bounded.common import *
from bounded.c17 import build, flat

RULE = "random inline documents: facts nested in markup and in each other, hidden, spread over documents, with dangling and missing references"


def key(f):
    v = f.value if f.kind == "N" else "" if f.escape == "true" else flat(f)
    return v


def facts(bad):
    def go(env):
        from brel import Filing
        R, F = build(env, docs=env.rng.choice([1, 1, 2, 3]), badrefs=bad, nfacts=env.rng.choice([2, 5, 9]))
        exp, obs = [], []
        for f in R.good():
            v = f.value if f.kind == "N" else None if f.escape == "true" else flat(f)
            exp.append(O.fkey(dict(id=f.id, value=v, decimals=f.dec and f.dec[1], precision=f.prec and f.prec[1], aspects=R.aspects(f))))
        esc = {f.id for f in R.good() if f.kind == "S" and f.escape == "true"}
        anon = any(i is None for i in esc)
        for x in F.get_all_facts():
            o = O.obs_fact(x)
            if o["id"] in esc and not (o["id"] is None): o["value"] = None
            obs.append(o)
        # facts without an identifier are told apart by everything else
        if anon:
            for o in obs:
                if o["id"] is None: o["value"] = None
            exp = []
            for f in R.good():
                v = f.value if f.kind == "N" else None if f.escape == "true" else flat(f)
                exp.append(O.fkey(dict(id=f.id, value=None if f.id is None else v, decimals=f.dec and f.dec[1], precision=f.prec and f.prec[1], aspects=R.aspects(f))))
        miss, extra = O.diff_multiset(exp, [O.fkey(o) for o in obs])
        expect(not miss and not extra, "facts", "the facts of an inline report", "missing %s\nsurplus %s" % (miss[:3], extra[:3]))
        errs = F.get_all_errors()
        left = list(zip(codes(errs), [e.get_message() for e in errs]))
        for c, parts in R.diags:
            hit = next((x for x in left if x[0] == c and all(re.search(r"(?<![\w:])%s(?!\w)" % re.escape(p), x[1]) for p in parts)), None)
            expect(hit, "diagnosed:" + c, "no diagnostic for an inline fact whose references do not resolve", "%s %s\nhave %s" % (c, parts, left))
            left.remove(hit)
        expect(not left, "spurious", "diagnostics without a cause", left[:4])
    return go


CASES = dict(facts=facts(0), dangling=facts(1))
WEIGHTS = dict(facts=2)
