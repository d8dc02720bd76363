"""Contracts of core/conv.c: numbers from text and text from numbers."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from vf import models as MO
from vf.ex import int_bounds
from .span import TYPES
MOD = 'conv'

TXT = CStr('z', pick=[b'0', b'7', b'123', b'00123', b'255', b'256', b'127', b'128', b'65535', b'2147483647', b'4294967295', b'9223372036854775807',
                      b'18446744073709551615', b'12.5', b'.5', b'1.2.3', b'..', b'', b'-5', b'+5', b' 5', b'5 ', b'12a', b'0x10', b'1e3',
                      b'985454325454.22548', b'0.1', b'3.1415926535897932384626'], alpha=b'0123456789.')


def numeric(c, z):
    """digits and dots only"""
    ch = z.chars()
    if c.eng.concrete_mode:
        return all(48 <= ch(k) <= 57 or ch(k) == 46 for k in range(z.len))
    bad = c.first_index(z.len, lambda k: Not(Or(And(ch(k) >= 48, ch(k) <= 57), Eq(ch(k), 46))))
    return bad < 0


for _n, _t in TYPES.items():
    def mk(t):
        def parse_int(c, z):
            c.exit_if(z.null)
            if z.null:
                c.start()
                return 0
            x = MO.num_value(c.eng, c.text(z))
            lo, hi = int_bounds(t)
            ok = numeric(c, z)
            c.requires(Implies(ok, And(x >= lo, x <= hi)), 'the number fits the type')
            c.start()
            return If(ok, x, 0)

        def parse_flt(c, z):
            c.exit_if(z.null)
            c.start()
            if not c.case(numeric(c, z)):
                return f_const(0.0, t[1])(z3.Int('x')) if not c.eng.concrete_mode else bytes(16 if t[1] == 80 else t[1] // 8)
            return MO.real_value(c.eng, c.text(z), t[1])

        def show(c, buf, n, x):
            if t[0] == 'int':
                d = MO.Dec(c.eng, 'd', x)
            elif t[1] == 80:
                d = MO.Dec(c.eng, 'f80', x)
            else:
                if t[1] == 32:
                    x = z3.fpFPToFP(z3.RNE(), x, z3.Float64()) if sym(x) else fval(x).astype('<f8').tobytes()
                d = MO.Dec(c.eng, 'f64', x)
            c.exit_if(buf.null, n < Add(d.len, 1))
            c.start()
            buf.write(Add(d.len, 1), lambda j: If(j < d.len, d.text(j), 0))
            c.limit(buf, Add(d.len, 1), n)
        return (parse_flt if t[0] == 'float' else parse_int), show
    _p, _s = mk(_t)
    spec('vt_conv_str_to_' + _n, TXT, prop='conv')(_p)
    spec('vt_conv_%s_to_str' % _n, Buf(lambda a: a[1], 'buf'), Int(ULONG, 'buf_len', pick=[1, 2, 4, 12, 21, 36, 64]),
         Flt(_t, 'val') if _t[0] == 'float' else Int(_t, 'val'), prop='conv')(_s)

for _c in REG.values():
    if _c.prop == 'conv':
        _c.assumes = ['snprintf renders a number as its decimal text and strtol/strtoul/strtof/strtod read the number a text denotes (vf/models.py)']
