from bounded.common import *

RULE = "random reports with malformed contexts, units, periods, entities, dimensions and facts among well-formed ones"


def malformed(env):
    R = report(env, malformed=1, nfacts=env.rng.choice([3, 8]), instances=[1, 1, 2])
    F = open_report(env, R)
    exp = [O.fkey(O.exp_fact(x)) for x in R.facts if not x.bad]
    obs = [O.fkey(O.obs_fact(x)) for x in facts_as(env, R, F)]
    miss, extra = O.diff_multiset(exp, obs)
    expect(not miss and not extra, "isolated", "malformed parts (%s) change other facts" % [x.bad for x in R.bad], "missing %s\nsurplus %s" % (miss[:3], extra[:3]))
    got = codes(F.get_all_errors())
    left = list(got)
    for c in R.warned():
        expect(c in left, "warned", "no warning for an empty fact", got)
        left.remove(c)
    for x in R.bad:
        want = Report.CODES[x.bad]
        if not want: continue
        hit = next((c for c in want if c in left), None)
        expect(hit is not None, "diagnosed:" + x.bad, "no diagnostic for %s" % x.bad, "%s\nexpected one of %s" % ([str(e) for e in F.get_all_errors()], want))
        left.remove(hit)
    allowed = {c for x in R.bad for c in Report.CODES[x.bad]}
    odd = [c for c in left if c not in allowed and not any(x.bad == "ctx_dup_dim" for x in R.bad)]
    expect(not odd, "spurious", "diagnostics without a cause", "%s for %s" % (odd, [x.bad for x in R.bad]))


def valid(env):
    R = report(env, networks=env.rng.choice([0, 1]), labels=1, footnotes=env.rng.choice([0, 1]), nfacts=6, instances=[1, 2])
    F = open_report(env, R)
    expect(sorted(codes(F.get_all_errors())) == sorted(R.warned()), "spurious", "diagnostics for a well-formed report", [str(e) for e in F.get_all_errors()])


CASES = dict(malformed=malformed, valid=valid)
WEIGHTS = dict(malformed=4)
