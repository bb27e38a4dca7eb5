"""inline text: concatenation along the chain of continuations, without excluded regions"""
from lxml import etree
from bounded.common import *
from bounded.ixgen import Inline, flat, tree, parsed

RULE = "random inline documents: nested markup, facts, excluded regions, comments, continuation graphs over several documents (also unknown, reused, unused and cyclic ones), with and without escaping"


def build(env, **k):
    R = Inline(env.rng, **k)
    d = os.path.join(env.dir, "r")
    os.makedirs(d)
    R.write(d)
    env.files = R.files
    return R, env.open(d if len(R.docs) > 1 or env.rng.random() < .5 else os.path.join(d, R.docs[0].path))


def markup(v):
    return parsed(etree.fromstring("<w>" + v + "</w>"))


def says(f, chain, v):
    if f.escape == "true": return markup(v) == tree(f.kids + [k for c in chain for k in c.kids])
    return v == flat(f) + "".join(flat(c) for c in chain)


def by_id(F):
    out = {}
    for x in F.get_all_facts():
        if x.get_id() is not None:
            expect(x.get_id() not in out, "twice", "a fact is reported twice", x.get_id())
            out[x.get_id()] = x
    return out


def show(f, chain, v):
    return "escape=%s\nexpected %r\nreported %r" % (f.escape, tree(f.kids + [k for c in chain for k in c.kids]) if f.escape == "true" else flat(f) + "".join(flat(c) for c in chain), v)


def texts(bad):
    def go(env):
        R, F = build(env, docs=env.rng.choice([1, 1, 2]), chains=1, badchains=bad, feet=0, nfacts=env.rng.choice([2, 5]))
        got = by_id(F)
        for f in R.facts:
            if f.kind != "S" or f.id is None or hasattr(f, "either"): continue
            expect(f.id in got, "lost", "an inline text fact is not reported", f.id)
            v = str(got[f.id])
            try: ok = says(f, f.chain, v)
            except etree.XMLSyntaxError as e: raise Fail("markup", "the escaped content is not well-formed", "%s\n%r" % (e, v))
            expect(ok, "text", "an inline text fact does not say the displayed text", show(f, f.chain, v))
        for f, g, c in getattr(R, "pairs", []):
            a, b = [(says(x, [], str(got[x.id])) if x.id in got else None, says(x, [c], str(got[x.id])) if x.id in got else None) for x in (f, g)]
            for x, (without, with_) in ((f, a), (g, b)):
                if x.id is not None: expect(without or with_, "shared", "a fact with a disputed continuation says something else", str(got.get(x.id)))
            if f.id and g.id: expect(not (a[1] and b[1]), "shared", "a continuation is used for two facts", "%s %s" % (got[f.id], got[g.id]))
        errs = F.get_all_errors()
        left = list(zip(codes(errs), [e.get_message() for e in errs]))
        unused = []
        for c, parts in R.diags:
            hit = next((x for x in left if x[0] == c and all("'%s'" % p in x[1] for p in parts)), None)
            expect(hit, "diagnosed:" + c, "no diagnostic for a continuation", "%s %s\nhave %s" % (c, parts, left))
            if c == "IXBRL_UNUSED_CONTINUATION_ELEMENTS": unused.append(hit)
            else: left.remove(hit)
        left = [x for x in left if x not in unused]
        expect(not left, "spurious", "diagnostics without a cause", left[:4])
    return go


CASES = dict(texts=texts(0), broken=texts(1))
WEIGHTS = dict(texts=2)
