"""Terms: python ints/bools or z3 expressions, with constant folding.

The same helpers run on symbolic terms (proof) and on plain integers (replaying a
contract against the real compiled code), so one contract text serves both.
"""
import z3

z3.set_param('smt.random_seed', 7)


def sym(x):
    return isinstance(x, z3.ExprRef)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        else:
            yield x


def And(*xs):
    out = []
    for x in _flat(xs):
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in _flat(xs):
        if isinstance(x, bool):
            if x:
                return True
            continue
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else Not(c)
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        return z3.If(c, z3.IntVal(a), z3.IntVal(b))
    if isinstance(a, int):
        a = z3.IntVal(a)
    if isinstance(b, int):
        b = z3.IntVal(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def Eq(a, b):
    if not sym(a) and not sym(b):
        return a == b
    if sym(a) and sym(b) and a.eq(b):
        return True
    return fold(a == b)


def Ne(a, b):
    return Not(Eq(a, b))


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return Eq(a, b)


def Lt(a, b):
    return a < b


def fold(x):
    """cheap constant folding of a z3 term to a python value"""
    if not sym(x):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def simp(x):
    if not sym(x):
        return x
    return fold(z3.simplify(x))


def concrete(x):
    return not sym(simp(x))


def B2I(b):
    return If(b, 1, 0)


def zint(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zbool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def Min(a, b):
    return If(a <= b, a, b)


def Max(a, b):
    return If(a >= b, a, b)


def Mod(a, m):
    """mathematical (floor) modulus by a positive constant"""
    if not sym(a) and not sym(m):
        return a % m
    return zint(a) % m


def Div(a, m):
    if not sym(a) and not sym(m):
        return a // m
    return zint(a) / m


def Mul(a, b):
    if not sym(a) and not sym(b):
        return a * b
    if not sym(a) and a == 1:
        return b
    if not sym(b) and b == 1:
        return a
    if (not sym(a) and a == 0) or (not sym(b) and b == 0):
        return 0
    return a * b


def Add(a, b):
    if not sym(a) and a == 0:
        return b
    if not sym(b) and b == 0:
        return a
    return a + b


def Sub(a, b):
    if not sym(b) and b == 0:
        return a
    if sym(a) and sym(b) and a.eq(b):
        return 0
    return a - b
