"""Tell "the code under test is wrong" from "an internal name this check uses is gone".
A check that calls a renamed internal function cannot judge anything: it is inapplicable, not violated."""
import os, re, sys, types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_src = None


def source():
    global _src
    if _src is None:
        import brel
        _src = ""
        for d, _, fs in os.walk(os.path.dirname(brel.__file__)):
            for f in fs:
                if f.endswith(".py"):
                    _src += open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
    return _src


def mentioned(name):
    """is there anything of this name left in brel?"""
    n = re.sub(r"^_[A-Z]\w*?__", "__", name)
    return re.search(r"(?<!\w)%s(?!\w)" % re.escape(n), source()) is not None


def inapplicable(e):
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None or not os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(VERIF + os.sep):
        return False
    if isinstance(e, ImportError):
        return (e.name or "").split(".")[0] == "brel"
    if isinstance(e, AttributeError):
        o = e.obj
        m = o.__name__ if isinstance(o, types.ModuleType) else (o if isinstance(o, type) else type(o)).__module__
        return m.split(".")[0] == "brel" and bool(e.name) and not mentioned(e.name)
    if isinstance(e, TypeError):
        return re.search(r"unexpected keyword argument|missing \d+ required (positional|keyword)|takes .*positional arguments? but", str(e)) is not None
    return False
