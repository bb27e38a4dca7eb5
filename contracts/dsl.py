"""The contract language.  Under CPython these are ordinary functions, so every law can also be *executed* on real
objects; the verifier gives the same names their logical meaning (pyvc/prims.py, pyvc/run.py)."""

LAWS = []


class Skip(Exception):
    """the generated input does not satisfy the precondition"""


def law(prop, bounded=False, n=None, witness=False):
    """marks a contract of property `prop`. bounded=True: only executed on generated inputs, never claimed as proved;
    witness=True: the verifier also uses that the last iteration of a loop that is left early was the one that left it"""
    def deco(f):
        f._law = dict(prop=prop, bounded=bounded, n=n)
        LAWS.append(f)
        return f
    return deco


def spec(f):
    return f


def assume(c):
    if not c:
        raise Skip()


def implies(a, b):
    return (not a) or b


def outcome(f, *args):
    """("ok", value) or ("raise", exception class name)"""
    try:
        return ("ok", f(*args))
    except Skip:
        raise
    except Exception as e:
        return ("raise", type(e).__name__)


def raises(f, *args):
    try:
        f(*args)
        return False
    except Skip:
        raise
    except Exception:
        return True


def same(a, b):
    """structural equality: containers element by element, fresh objects field by field, everything else by identity/value"""
    if a is b:
        return True
    if type(a) is not type(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            return a == b
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (str, int, float, bool)):
        return a == b
    if hasattr(a, "__dict__"):
        return a.__dict__.keys() == b.__dict__.keys() and all(same(a.__dict__[k], b.__dict__[k]) for k in a.__dict__)
    return a == b
