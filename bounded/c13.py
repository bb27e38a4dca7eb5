from bounded.common import *
import re
from lxml import etree

RULE = "random reports with labels and footnotes in several languages; the languages offered are those marked in the documents read"
LANG = "{http://www.w3.org/XML/1998/namespace}lang"


def offered(env):
    r = env.rng
    R = report(env, networks=r.choice([0, 1]), labels=r.choice([0, 1, 1]), footnotes=r.choice([0, 1]), nels=r.choice([6, 12]), nfacts=6)
    from brel.config.brel_config import BrelConfig
    F = open_report(env, R)
    want = set()
    for f in sorted(env.files):
        for e in etree.fromstring(env.files[f].encode()).iter():
            if e.get(LANG): want.add(e.get(LANG))
    call = r.choice([None, [], ["ja"], ["de", "en"], "fr", "xx"])
    asked = [] if call is None else [call] if isinstance(call, str) else list(call)
    for _ in range(2):
        got = F.get_preferred_languages(call, True, False, False)
        expect(got[:len(asked)] == asked, "asked", "the languages asked for do not come first", (call, got))
        expect(len(got) == len(set(got)) and set(got) == want | set(asked), "offered", "the languages offered differ", (sorted(want), call, got))
    got = F.get_preferred_languages(call, False, False, True)
    expect(got == asked + [""], "switch", "languages offered although not allowed", (call, got))
    got = F.get_preferred_languages(call, True, False, True)
    expect(got[-1] == "" and set(got) == want | set(asked) | {""}, "default", "the default does not come last", (call, got))


CASES = dict(offered=offered)
