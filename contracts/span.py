"""Contracts of container/span.c: a span is a window of len elements onto memory it does not own."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
MOD = 'span'
U64 = (1 << 64) - 1
SP = ('struct', 'vt_span_t')
RES = [Out(SP, 'res', null=False)]
TYPES = dict(i8=('int', 8, True), u8=('int', 8, False), i16=('int', 16, True), u16=('int', 16, False), i32=('int', 32, True),
             u32=('int', 32, False), i64=('int', 64, True), u64=('int', 64, False), f=('float', 32), d=('float', 64), r=('float', 80))


def make(c, p, n, es):
    # len, element size and data are what a user sees; the rest of the header is unspecified
    return c.ret_struct(S({0: I(n, ULONG), 8: UNINIT, 16: I(es, ULONG), 24: UNINIT, 32: UNINIT, 40: p, 48: UNINIT}, SP))


@spec('vt_span_from', Buf(None, 'ptr'), Int(ULONG, 'n'), Int(ULONG, 'es'), prop='span', va=RES)
def s_from(c, p, n, es):
    c.exit_if(p.null, Eq(n, 0), Eq(es, 0))
    c.requires(Or(p.null, Mul(n, es) <= p.room), 'the elements lie within the data')
    c.start()
    return make(c, p.p, n, es)


@spec('vt_span_from_to', Buf(None, 'ptr'), Int(ULONG, 'i'), Int(ULONG, 'j'), Int(ULONG, 'es'), prop='span', va=RES)
def s_from_to(c, p, i, j, es):
    c.exit_if(p.null, i >= j, Eq(es, 0))
    c.requires(Or(p.null, i >= j, Mul(j, es) <= p.room), 'the range lies within the data')
    c.start()
    return make(c, p.p.plus(Mul(i, es)), Sub(j, i), es)


@spec('vt_span_len', SpanVal(), prop='span')
def s_len(c, s):
    c.start()
    return s.len


@spec('vt_span_get', SpanVal(), Int(ULONG, 'at'), prop='span')
def s_get(c, s, at):
    c.exit_if(at >= s.len)
    c.start()
    return s.data_ptr.plus(Mul(at, s.elsize))


@spec('vt_span_set', SpanVal(), Buf(lambda a: a[0].elsize, 'val'), Int(ULONG, 'at'), prop='span')
def s_set(c, s, val, at):
    c.exit_if(val.null, at >= s.len)
    c.start()
    s.put(Mul(at, s.elsize), s.elsize, val.bytes())


for _n, _t in TYPES.items():
    _sz = 16 if _t == ('float', 80) else _t[1] // 8

    def mk(t, sz):
        def g(c, s, at):
            c.exit_if(at >= s.len)
            c.start()
            return c.eng.load(s.data_ptr.plus(Mul(at, sz)), t)

        def st(c, s, x, at):
            c.exit_if(at >= s.len)
            c.start()
            if t[1] == 80:
                c.eng.store(s.data_ptr.plus(Mul(at, sz)), t, F(x, t))
                return
            s.put(Mul(at, sz), sz, c.temp(t, x).bytes())
        return g, st
    _g, _s = mk(_t, _sz)
    spec('vt_span_get' + _n, SpanVal(elsize=_sz), Int(ULONG, 'at'), prop='span')(_g)
    spec('vt_span_set' + _n, SpanVal(elsize=_sz), Flt(_t, 'x') if _t[0] == 'float' else Int(_t, 'x'), Int(ULONG, 'at'), prop='span')(_s)
