from bounded.common import *

RULE = "random XML reports (several instances, namespaces, prefixes, tuples, comments, facts without id); compared with the generating data"


def key(d): return O.fkey({k: d[k] for k in ("id", "value", "decimals", "precision")} | {"concept": next(a for a in d["aspects"] if a[0] == "concept")})


def facts(env, **f):
    R = report(env, **f)
    F = open_report(env, R)
    exp = [O.exp_fact(x) for x in R.facts]
    obs = [O.obs_fact(x) for x in F.get_all_facts()]
    miss, extra = O.diff_multiset([key(d) for d in exp], [key(d) for d in obs])
    expect(not miss and not extra, "facts", "facts differ from the item elements", "missing %s\nsurplus %s" % (miss[:5], extra[:5]))
    # the listing is stable
    again = [O.obs_fact(x) for x in F.get_all_facts()]
    expect(again == obs, "repeat", "a second enumeration differs", "")


def plain(env): facts(env, nfacts=env.rng.choice([1, 8, 25]))
def many(env): facts(env, instances=[2, 3], nfacts=6)
def noise(env): facts(env, networks=1, labels=1, footnotes=env.rng.choice([0, 1]), roles=1)


def mixed(env):
    """unresolvable ones yield no fact"""
    R = report(env, malformed=1, nfacts=10)
    F = open_report(env, R)
    bad = {f.id: f for f in R.bad}
    exp = [O.exp_fact(x) for x in R.facts if x.id not in bad]
    obs = [O.obs_fact(x) for x in F.get_all_facts()]
    good = [d for d in obs if d["id"] not in bad]
    miss, extra = O.diff_multiset([key(d) for d in exp], [key(d) for d in good])
    expect(not miss and not extra, "facts", "facts differ from the item elements", "missing %s\nsurplus %s" % (miss[:5], extra[:5]))
    for d in obs:
        if d["id"] in bad:
            expect(bad[d["id"]].bad not in ("fact_ctx", "fact_ctxq", "fact_unit", "fact_concept"), "ghost", "a fact appears although its reference does not resolve", d)


CASES = dict(plain=plain, many=many, noise=noise, mixed=mixed)
