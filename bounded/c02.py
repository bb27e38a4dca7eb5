from bounded.common import *

RULE = "random XML reports with shared and near-identical contexts, units and dimensions; compared with the generating data"


def aspects(env, **f):
    R = report(env, **f)
    F = open_report(env, R)
    exp = [repr(O.exp_aspects(x)) for x in R.facts if not x.bad]
    obs = [repr(O.obs_aspects(x)) for x in facts_as(env, R, F)]
    miss, extra = O.diff_multiset(exp, obs)
    expect(not miss and not extra, "aspects", "aspects of the facts differ from their contexts", "missing %s\nsurplus %s" % (miss[:3], extra[:3]))
    ids = {}
    for x in R.facts:
        if x.id and not x.bad: ids[x.id] = repr(O.exp_aspects(x))
    for x in facts_as(env, R, F):
        if x.get_id():
            expect(repr(O.obs_aspects(x)) == ids.get(x.get_id()), "byid", "aspects of fact %s" % x.get_id(), "expected %s\n     got %s" % (ids.get(x.get_id()), O.obs_aspects(x)))


def plain(env): aspects(env, nfacts=env.rng.choice([3, 8, 20]))
def two(env): aspects(env, instances=[2, 3], nfacts=6)
def mixed(env): aspects(env, malformed=1, nfacts=8)
def dense(env): aspects(env, nels=env.rng.choice([14, 20]), nfacts=12)


CASES = dict(plain=plain, two=two, mixed=mixed, dense=dense)
