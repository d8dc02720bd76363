"""Contracts of math/math.c (number theory, linear map, closeness)."""
import math as pm
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
MOD = 'math'
I64MAX = (1 << 63) - 1
D = ('float', 64)
FL = ('float', 32)


def G(x, y):
    """the greatest common divisor of two non-negative integers (mathematical function)"""
    if not sym(x) and not sym(y):
        return pm.gcd(x, y)
    f = z3.Function('gcd', z3.IntSort(), z3.IntSort(), z3.IntSort())
    return f(zint(x), zint(y))


def euclid(c, x, y):
    """instances of the defining theorems of the greatest common divisor:
    gcd(x,0)=x, gcd(x,y)=gcd(y,x), gcd(x,y)=gcd(y,x mod y), gcd divides both, gcd >= 0, and gcd > 0 unless both are 0"""
    eng = c.eng
    if eng.concrete_mode:
        return
    g = G(x, y)
    u, w = z3.Int('gcdq1'), z3.Int('gcdq2')
    f = z3.Function('gcdq', z3.IntSort(), z3.IntSort(), z3.IntSort())
    nn = And(x >= 0, y >= 0)
    eng.impure += 1
    eng.st.pc += [zbool(x) for x in [
        Eq(g, G(y, x)),
        Implies(nn, And(g >= 0, Implies(Eq(y, 0), Eq(g, x)), Implies(Eq(x, 0), Eq(g, y)), Implies(Or(x > 0, y > 0), g >= 1),
                        Implies(x > 0, g <= x), Implies(y > 0, g <= y))),
        Implies(And(nn, y > 0), Eq(g, G(y, zint(x) % y))), Implies(And(nn, x > 0), Eq(g, G(x, zint(y) % x)))]]


def rel(c, a, b):
    def r(x, y):
        euclid(c, x, y)
        return Eq(G(x, y), G(a, b))
    return r


def divisor(c, x, g):
    """g divides x: the quotient"""
    if c.eng.concrete_mode:
        return x // g if g else 0
    f = z3.Function('gcdquot', z3.IntSort(), z3.IntSort(), z3.IntSort())
    q = f(zint(x), zint(g))
    c.eng.assume(Implies(And(x >= 0, g > 0), And(Eq(zint(x), q * g), q >= 0, q <= x)))
    return q


@spec('vt_math_gcd', Int(LONG, 'a'), Int(LONG, 'b'), prop='number', hints=[relate(lambda c, a, b: rel(c, a, b), 2)])
def s_gcd(c, a, b):
    c.requires(And(a >= 0, b >= 0), 'the arguments are not negative')
    c.start()
    euclid(c, a, b)
    return G(a, b)


@spec('vt_math_lcm', Int(LONG, 'a'), Int(LONG, 'b'), prop='number')
def s_lcm(c, a, b):
    c.requires(And(a >= 0, b >= 0), 'the arguments are not negative')
    euclid(c, a, b)
    g = G(a, b)
    q = divisor(c, a, g)
    c.requires(Or(Eq(g, 0), Mul(q, b) <= I64MAX), 'the least common multiple is representable')
    c.start()
    if c.case(Or(Eq(a, 0), Eq(b, 0))):
        return 0
    return Mul(q, b)      # a*b = gcd*lcm


@spec('vt_math_is_palindrome', Int(ULONG, 'num'), prop='number', opts={'unroll': 20})
def s_pal(c, num):
    c.start()
    if c.eng.concrete_mode:
        return str(num) == str(num)[::-1]
    n = 20
    for k in range(1, 20):
        if c.case(num < 10 ** k):
            n = k
            break
    # the decimal digits, and what they mean for every quotient the digits are peeled off from
    d = [c.eng.fresh_int('digit', None, 0, 9) for _ in range(n)]
    q, eqs = num, []
    for k in range(n):
        eqs = [(Mod(q, 10), d[k]), (q, sum(zint(d[j]) * 10 ** (j - k) for j in range(k, n)))] + eqs
        q = Div(q, 10)
    for x, y in eqs:
        c.eng.assume(Eq(x, y))
    c.rewrite(eqs)
    c.focus()
    return And(*[Eq(d[k], d[n - 1 - k]) for k in range(n // 2)])


@spec('vt_math_map_to', *[Flt(D, x) for x in ('x', 'x_min', 'x_max', 'out_min', 'out_max')], prop='number')
def s_map(c, x, a, b, lo, hi):
    c.start()
    return f_add(f_div(f_mul(f_sub(x, a), f_sub(hi, lo)), f_sub(b, a)), lo)


@spec('vt_math_is_close', Flt(FL, 'lhs'), Flt(FL, 'rhs'), Flt(FL, 'rtol'), prop='number')
def s_close(c, a, b, tol):
    c.start()
    eps = f_const(2.0 ** -23, 32)(a)
    zero = f_const(0.0, 32)(a)
    d = f_abs(f_sub(a, b))
    return If(f_lt(tol, zero), f_lt(d, eps), f_lt(d, tol)) if sym(tol) else (f_lt(d, eps) if f_lt(tol, zero) else f_lt(d, tol))

REG['vt_math_gcd'].assumes = ['number theory: gcd(a, b) = gcd(b, a mod b) and gcd(a, 0) = a (Euclid), used as axioms of the mathematical gcd']
REG['vt_math_lcm'].assumes = ['number theory: gcd(a, b) divides a and lcm(a, b) = a / gcd(a, b) * b']
