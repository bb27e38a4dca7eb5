"""shared by the per-property checks"""
import os
from bounded.core import Fail, expect, context
from bounded.xmlgen import Report
from bounded import observe as O

_names = None


def report(env, **f):
    R = Report(env.rng, **f)
    d = os.path.join(env.dir, "r")
    os.makedirs(d)
    R.write(d)
    env.files = R.files
    R.dir = d
    return R


def open_report(env, R):
    # the folder, or the instance (everything else is then reached by reference)
    p = R.dir if len(R.insts) > 1 or env.rng.random() < .5 else os.path.join(R.dir, R.insts[0].path)
    return env.open(p)


def full(e):
    return (e.get_severity(), e.get_area(), e.get_numeric_code())


def codes(errors):
    """the names of the diagnostics"""
    global _names
    if _names is None:
        from brel.errors.error_factory_registry import error_factory_registry as reg
        _names = {}
        for k, mk in reg.items():
            _names.setdefault(full(mk()), k.name)
    return [_names.get(full(e), "?") for e in errors]


def facts_as(env, R, F, what="facts"):
    """the observed facts that do not come from malformed ones"""
    bad = {f.id for f in R.bad}
    return [f for f in F.get_all_facts() if f.get_id() not in bad]
