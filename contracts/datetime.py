"""Contracts of time/datetime.c: calendar facts, conversion to and from seconds and text, arithmetic."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from vf import timemodel as T
from vf.ex import UNINIT
MOD = 'datetime'
DT = ('struct', 'VitaDateTime')
I16 = ('int', 16, True)
NAMES = ('year', 'month', 'month_day', 'hour', 'minute', 'second', 'week_day', 'year_day')
RES = [Out(DT, 'res', null=False)]
LOHI = dict(month=(1, 12), month_day=(1, 31), hour=(0, 23), minute=(0, 59), second=(0, 60))


class DTView:
    def __init__(self, vals, conc):
        self.__dict__.update(vals)
        self.conc = conc
        self.f = dict(vals)

    def tm(self):
        """the tm fields this datetime stands for (an unset or negative year means 1900)"""
        return dict(year=If(self.year > 0, Sub(self.year, 1900), 0), mon=Sub(self.month, 1), mday=self.month_day,
                    hour=self.hour, min=self.minute, sec=self.second,
                    wday=If(Eq(self.week_day, 7), 0, self.week_day), yday=Sub(self.year_day, 1))

    def secs(self):
        T.SYMBOLIC[0] = not self.conc
        t = self.tm()
        return T.secs(*[t[f] for f in T.FIELDS])

    def ranged(self, year=(1000, 9999), week=False):
        r = [And(self.f[n] >= lo, self.f[n] <= hi) for n, (lo, hi) in LOHI.items()]
        if week:
            r.append(And(self.week_day >= 1, self.week_day <= 7))
        return And(self.year >= year[0], self.year <= year[1], *r)


class DTVal(Kind):
    """struct VitaDateTime by value"""

    def __init__(self, name='vdt', delta=False):
        self.name, self.delta = name, delta

    def setup(self, ctx, i):
        cells = {}
        for k, n in enumerate(NAMES):
            v = z3.Int('%s_%s' % (self.name, n))
            ctx.eng.set_bounds(v, -32768, 32767)
            cells[2 * k] = I(v, I16)
        return S(cells, DT)

    def view(self, ctx, val):
        eng = ctx.eng
        if isinstance(val, S):
            cs = val.cells
        else:
            cs = {o: v for o, (t, v) in eng.blk(val.p.bid if hasattr(val, 'p') else val.bid).cells.items()}
        out = {}
        for k, n in enumerate(NAMES):
            v = cs[2 * k]
            if v is UNINIT:
                v = eng.fresh_of(I16, n)
            out[n] = v.t
        return DTView(out, eng.concrete_mode)

    def accept(self, ctx, val, i):
        return self.view(ctx, val)

    def gen(self, ctx, i, g):
        eng, r = ctx.eng, g.rng
        b = eng.alloc_type(DT, self.name, 'zero', bid='arg:' + self.name)
        b.initial = True
        x = r.random()
        if self.delta:
            vals = [r.choice([0, 0, 1, -1, r.randrange(-40, 40)]) for _ in NAMES]
        elif x < 0.7:
            y = r.choice([1600, 1900, 1904, 1969, 1970, 1999, 2000, 2023, 2024, 2038, 2100, 2400, r.randrange(1, 10000), r.randrange(1000, 9999)])
            vals = [y, r.randrange(1, 13), r.choice([1, 28, 29, 30, 31, r.randrange(1, 32)]), r.randrange(24), r.randrange(60),
                    r.choice([0, 59, 60, r.randrange(60)]), r.randrange(1, 8), r.randrange(1, 367)]
            if r.random() < 0.3:
                vals = vals[:3] + [0] * 5
        else:
            vals = [r.choice([0, 1, -1, 12, 13, 31, 32, 60, 61, 366, 2000, -5, 32767, -32768, r.randrange(-400, 4000)]) for _ in NAMES]
        for k, v in enumerate(vals):
            v = g.over.get('%s_%s' % (self.name, NAMES[k]), v)
            v = v if isinstance(v, int) else vals[k]
            b.cells[2 * k] = (I16, I(max(-32768, min(32767, v)), I16))
        return P(b.bid, 0)


def result(c, **fs):
    return c.ret_struct(S({2 * k: (I(simp(fs[n]), I16) if n in fs else UNINIT) for k, n in enumerate(NAMES)}, DT))


def from_tm(c, t):
    """the datetime of an instant"""
    f = T.broken(c.eng, t)
    return dict(year=Add(f['year'], 1900), month=Add(f['mon'], 1), month_day=f['mday'], hour=f['hour'], minute=f['min'],
                second=f['sec'], week_day=If(Eq(f['wday'], 0), 7, f['wday']), year_day=Add(f['yday'], 1))


def year_fits(c, t):
    y = T.broken(c.eng, t)['year']
    return And(y >= -32768 - 1900, y <= 32767 - 1900)


# ---- calendar facts
def leap(y):
    return Or(And(Eq(Mod(y, 4), 0), Ne(Mod(y, 100), 0)), Eq(Mod(y, 400), 0))


def eff(y):
    return If(y < 0, 1900, y)


@spec('vt_datetime_is_leap_year', DTVal(), prop='calendar')
def s_leap(c, v):
    c.start()
    return leap(eff(v.year))


@spec('vt_datetime_find_days_in_year', DTVal(), prop='calendar')
def s_diy(c, v):
    c.start()
    return If(leap(eff(v.year)), 366, 365)


def month_days(v):
    m = If(v.month < 1, 1, If(v.month > 12, 12, v.month))
    y = eff(v.year)
    feb = If(And(y > 0, leap(y)), 29, 28)
    return If(Eq(m, 2), feb, If(Or(Eq(m, 4), Eq(m, 6), Eq(m, 9), Eq(m, 11)), 30, 31))


@spec('vt_datetime_find_days_in_month', DTVal(), prop='calendar')
def s_dim(c, v):
    c.start()
    return month_days(v)


@spec('vt_datetime_find_week_day', DTVal(), prop='calendar')
def s_wd(c, v):
    c.start()
    w = T.broken(c.eng, v.secs())['wday']
    return If(Eq(w, 0), 7, w)


@spec('vt_datetime_find_year_day', DTVal(), prop='calendar')
def s_yd(c, v):
    c.start()
    return Add(T.broken(c.eng, v.secs())['yday'], 1)


def clamp(x, lo, hi):
    return If(x < lo, lo, If(x > hi, hi, x))


@spec('vt_datetime_create', *[Int(I16, n) for n in NAMES], prop='calendar', va=RES, opts={'merge': True})
def s_create(c, y, mo, d, h, mi, s, wd, yd):
    c.start()
    f = dict(year=eff(y), month=clamp(mo, 1, 12), hour=clamp(h, 0, 23), minute=clamp(mi, 0, 59), second=clamp(s, 0, 60))
    f['month_day'] = If(d < 1, 1, If(d > 31, month_days(DTView(dict(f, month_day=1, week_day=1, year_day=1), c.eng.concrete_mode)), d))
    v = DTView(dict(f, week_day=1, year_day=1), c.eng.concrete_mode)
    b = T.broken(c.eng, v.secs())
    f['week_day'] = If(And(wd >= 1, wd <= 7), wd, If(Eq(b['wday'], 0), 7, b['wday']))
    f['year_day'] = If(And(yd >= 1, yd <= 366), yd, Add(b['yday'], 1))
    return result(c, **f)


# ---- seconds
def _edges():
    import calendar
    out = []
    for y in list(range(1890, 2050)) + [1600, 2100, 2200, 2400]:
        for m, d in ((1, 1), (2, 28), (3, 1), (12, 31)):
            out.append(calendar.timegm((y, m, d, 0, 0, 0)) + 86400 // 2 * (y % 2) + (m == 12) * 43199)
    return out


EDGES = _edges()


@spec('vt_datetime_to_secs', DTVal(), prop='seconds')
def s_to(c, v):
    c.start()
    return v.secs()


@spec('vt_datetime_from_secs', Int(LONG, 'secs', pick=[0, 1, -1, 86399, 86400, -86400, 951782400, 951868800, 4107542400, -2203891200, 1684528261,
                                                       253402300799, 100000000000] + EDGES), prop='seconds', va=RES)
def s_from(c, t):
    c.requires(And(t >= -1000000000000, t <= 950000000000, year_fits(c, t)), 'the year is representable')
    c.start()
    return result(c, **from_tm(c, t))


@spec('vt_datetime_op', DTVal(), DTVal('delta', delta=True), prop='seconds', va=RES)
def s_op(c, v, d):
    t0 = v.tm()
    T.SYMBOLIC[0] = not c.eng.concrete_mode
    t = T.secs(Add(t0['year'], d.year), Add(t0['mon'], d.month), Add(t0['mday'], d.month_day), Add(t0['hour'], d.hour),
               Add(t0['min'], d.minute), Add(t0['sec'], d.second))
    c.requires(year_fits(c, t), 'the resulting year is representable')
    c.start()
    return result(c, **from_tm(c, t))


def tdiv(x, n):
    """division truncating toward zero"""
    if not sym(x):
        return abs(x) // n * (1 if x >= 0 else -1)
    return If(x >= 0, Div(x, n), -Div(-x, n))


def bounded_secs(c, *vs):
    for v in vs:
        t = v.secs()
        if sym(t):
            c.eng.set_bounds(t, -(1 << 62), 1 << 62)
            c.eng.assume(And(t > -2000000000000, t < 2000000000000))


for _n, _k in (('secs', 1), ('minutes', 60), ('hours', 3600), ('days', 86400)):
    def mk(k):
        def f(c, a, b):
            bounded_secs(c, a, b)
            c.start()
            return tdiv(Sub(a.secs(), b.secs()), k)
        return f
    spec('vt_datetime_diff_' + _n, DTVal('a'), DTVal('b'), prop='seconds')(mk(_k))


@spec('vt_datetime_diff', DTVal('a'), DTVal('b'), prop='seconds', va=RES)
def s_diff(c, a, b):
    bounded_secs(c, a, b)
    n = Sub(a.secs(), b.secs())
    c.requires(And(n > -32768 * 86400, n < 32768 * 86400), 'the number of days is representable')
    c.start()
    d = tdiv(n, 86400)
    h = tdiv(Sub(n, Mul(d, 86400)), 3600)
    m = tdiv(Sub(Sub(n, Mul(d, 86400)), Mul(h, 3600)), 60)
    s = Sub(Sub(Sub(n, Mul(d, 86400)), Mul(h, 3600)), Mul(m, 60))
    exact = dict(month_day=d, hour=h, minute=m, second=s)
    known = float_diff(c, n)
    got = {}
    for f in exact:
        got[f] = c.any_struct_field(f, 2 * NAMES.index(f), I16)
        # known finding (known_findings.json): the parts are computed in single precision and can be off by rounding
        c.ensure(Or(Eq(got[f], exact[f]), Eq(got[f], known[f])), 'the %s of the difference' % f)
    return result(c, year=0, month=0, week_day=0, year_day=0, **got)


def float_diff(c, n):
    """the difference as single-precision arithmetic gives it"""
    if c.eng.concrete_mode:
        import numpy as np
        f = np.float32
        cut = lambda x: (int(x) + 32768) % 65536 - 32768
        q = f(n) / f(86400)
        d = int(q)
        hf = (q - f(d)) * f(24)
        h = int(hf)
        mf = (hf - f(h)) * f(60)
        m = int(mf)
        s = int((mf - f(m)) * f(60))
    else:
        eng, FT = c.eng, ('float', 32)
        R = z3.RNE()
        i2f = lambda t: eng.int_to_float(I(t, LONG), FT).t
        f2i = lambda t: eng.float_to_int(F(t, FT), LONG).t
        k = lambda x: z3.FPVal(x, FP_SORT[32])
        cut = lambda x: eng.conv(x, I16)
        q = z3.fpDiv(R, i2f(n), k(86400))
        d = f2i(q)
        hf = z3.fpMul(R, z3.fpSub(R, q, i2f(d)), k(24))
        h = f2i(hf)
        mf = z3.fpMul(R, z3.fpSub(R, hf, i2f(h)), k(60))
        m = f2i(mf)
        s = f2i(z3.fpMul(R, z3.fpSub(R, mf, i2f(m)), k(60)))
    return dict(month_day=cut(d), hour=cut(h), minute=cut(m), second=cut(s))


# ---- text
FMT = {'': b'%Y-%m-%d %H:%M:%S', '_iso': b'%Y%m%dT%H%M%S', '_iso_ext': b'%Y-%m-%dT%H:%M:%S'}
BUF = [Buf(lambda a: a[-1], 'timebuf'), Int(ULONG, 'len', pick=[26, 26, 27, 40, 25, 0, 20])]


def to_text(chars, **kw):
    def f(c, v, buf, n):
        c.exit_if(buf.null, n < 26)
        c.requires(v.ranged(**kw), 'the fields are in their documented ranges and the year has four digits')
        c.start()
        c.put_text(buf, chars(v), n)
    return f


for _s, _f in FMT.items():
    spec('vt_datetime_to_text' + _s, DTVal(), *BUF, prop='stamp')(
        to_text((lambda f: lambda v: T.stamp(f, v.tm()))(_f)))
spec('vt_datetime_to_text_pretty', DTVal(), *BUF, prop='stamp')(to_text(lambda v: T.asc(v.tm())[:-1], week=True))


PAT = {'': b'YYYY-MM-DD HH:MM:SS', '_iso': b'YYYYMMDDTHHMMSS', '_iso_ext': b'YYYY-MM-DDTHH:MM:SS'}
GOOD = {'': [b'2023-05-19 20:31:01', b'0001-01-01 00:00:00x', b'9999-99-99 99:99:99', b'2023-05-19T20:31:01', b'2023-05', b'2023-05-19 20:31:0', b'2023 05-19 20:31:01'],
        '_iso': [b'20230519T203101', b'20230519 203101', b'20230519T20310', b'00000000T000000', b'2023051', b'99991231T235959Z'],
        '_iso_ext': [b'2023-05-19T20:31:01', b'2023-05-19 20:31:01', b'2023-05-19T20:31:', b'1234-56-78T90:12:34.5', b'20', b'2023-05-19T20-31-01']}


def matches(t, pat):
    """the text starts with the pattern (a digit for every letter except T)"""
    r = [t.len >= len(pat)]
    for k, ch in enumerate(pat):
        x = t.chars()(k)
        r.append(And(x >= 48, x <= 57) if chr(ch).isalpha() and ch != 84 else Eq(x, ch))
    return r


def all_match(c, t, pat):
    if c.eng.concrete_mode:
        if t.len < len(pat):
            return False
        return all(matches(t, pat))
    return And(*matches(t, pat))


for _s, _p in PAT.items():
    def mk(p, ty):
        def valid(c, t):
            c.exit_if(t.null)
            c.start()
            return all_match(c, t, p)

        def parse(c, t):
            c.exit_if(t.null)
            if not t.null:
                c.exit_if(Not(all_match(c, t, p)))
            c.start()
            f, k = {}, 0
            ch = t.chars()
            for n, w in zip(NAMES, (4, 2, 2, 2, 2, 2)):
                while not (chr(p[k]).isalpha() and p[k] != 84):
                    k += 1
                x = 0
                for j in range(w):
                    x = Add(Mul(x, 10), Sub(ch(k + j), 48))
                k += w
                f[n] = x
            return result(c, **f)
        return valid, parse
    _v, _q = mk(_p, _s)
    _k = CStr('timebuf', pick=GOOD[_s], alpha=b'0123456789-:T ')
    spec('vt_datetime_is_valid_text' + _s, _k, prop='stamp')(_v)
    spec('vt_datetime_from_text' + _s, _k, prop='stamp', va=RES)(_q)


def char_of(pat):
    return lambda k, x: And(x >= 48, x <= 57) if chr(pat[k]).isalpha() and pat[k] != 84 else Eq(x, pat[k])


@spec('vt_datetime_get_now_as_text', *BUF, prop='stamp')
def s_now_text(c, buf, n):
    c.exit_if(buf.null, n < 26)
    c.start()
    c.code_text(buf, 19, char_of(PAT['']), n, 'the text is a timestamp')


@spec('vt_datetime_get_now_as_text_pretty', *BUF, prop='stamp')
def s_now_pretty(c, buf, n):
    c.exit_if(buf.null, n < 26)
    c.start()
    c.code_text(buf, 24, lambda k, x: Eq(x, 32) if k in (3, 7, 10, 19) else And(x >= 32, x < 127), n, 'the text is printable')


@spec('vt_datetime_get_now', prop='seconds', va=RES)
def s_now(c):
    c.start()
    f = {}
    for k, n in enumerate(NAMES):
        lo, hi = dict(LOHI, year=(1970, 9999), week_day=(1, 7), year_day=(1, 366))[n]
        if c.mode == 'check':
            x = (c.act_ret if not c.eng.concrete_mode else S({o: v for o, (t, v) in c.act.mem[c.extra[0].p.bid].cells.items()}, DT)).cells[2 * k].t
            c.ensure(And(x >= lo, x <= hi), n + ' is in its documented range')
        else:
            x = c.eng.fresh_int(n, I16, lo, hi)
        f[n] = x
    return result(c, **f)

for _c in REG.values():
    if _c.prop in ('calendar', 'seconds', 'stamp'):
        _c.assumes = ['libc time functions follow the proleptic Gregorian calendar with one fixed UTC offset (vf/timemodel.py); no daylight saving time',
                      'reading back a year, month or day uses the calendar inverse (a second count determines its broken-down time)']
