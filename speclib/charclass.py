"""The contract of CharClass.test, used by callers: membership in the
stored ranges (its own obligations are in U01)."""
from pyvc.kit import Contract


def test_post(k, r, self, c):
    if c is None:
        return k.Iff(r, False)
    code = k.code(c, 0)
    return k.Iff(r, k.Or(*[k.And(code >= ord(a), code <= ord(b))
                           for a, b in self.ranges]))


TEST = Contract('pyslet.unicode5:CharClass.test', 'bool', test_post,
                checked_by='U01')
