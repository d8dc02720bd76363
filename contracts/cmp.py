"""Contracts of algorithm/comparison.c."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from .span import TYPES
MOD = 'cmp'


def ops(t):
    if t[0] == 'float':
        return f_le, f_lt, f_eq, Flt
    return (lambda a, b: a <= b), (lambda a, b: a < b), Eq, Int


for _n, _t in TYPES.items():
    def mk(t):
        le, lt, eq, K = ops(t)
        fl = t[0] == 'float'

        def ordered(c, *xs):
            if fl:
                c.requires(And(*[Not(f_nan(x)) for x in xs]), 'arguments are ordered (not NaN)')

        def pick(lesser):
            def f(c, x, y):
                ordered(c, x, y)
                c.start()
                r = c.any_result()
                c.ensure(Or(eq(r, x), eq(r, y)), 'the result is one of the arguments')
                c.ensure(And(le(r, x), le(r, y)) if lesser else And(le(x, r), le(y, r)), 'no argument is %s' % ('smaller' if lesser else 'greater'))
                return rv(c, r)
            return f

        def clamp(c, x, l, h):
            ordered(c, x, l, h)
            c.requires(le(l, h), 'the bounds are ordered')
            c.start()
            r = c.any_result()
            c.ensure(And(le(l, r), le(r, h)), 'the result is within the bounds')
            c.ensure(Or(eq(r, x), And(lt(x, l), eq(r, l)), And(lt(h, x), eq(r, h))), 'the value is kept, or replaced by the bound it exceeds')
            return rv(c, r)

        def rv(c, r):
            return r
        return pick(True), pick(False), clamp, K
    _a, _b, _c, _K = mk(_t)
    spec('vt_cmp_min' + _n, _K(_t, 'x'), _K(_t, 'y'), prop='cmp')(_a)
    spec('vt_cmp_max' + _n, _K(_t, 'x'), _K(_t, 'y'), prop='cmp')(_b)
    spec('vt_cmp_clamp' + _n, _K(_t, 'x'), _K(_t, 'l'), _K(_t, 'h'), prop='cmp')(_c)
