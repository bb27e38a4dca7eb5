"""what a check raises"""


class Fail(Exception):
    def __init__(self, key, what, detail=""):
        super().__init__("%s: %s" % (what, detail))
        self.key, self.what, self.detail = key, what, detail


def expect(cond, key, what, detail=""):
    if not cond:
        raise Fail(key, what, detail if isinstance(detail, str) else repr(detail))


def context(F):
    """the filing context of an opened report"""
    from brel.contexts.filing_context import FilingContext
    return next(v for v in vars(F).values() if isinstance(v, FilingContext))
