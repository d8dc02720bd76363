"""Assumed contracts of the C library's calendar (fixed-offset time zone, proleptic Gregorian calendar).

SECS(year, mon, mday, hour, min, sec) is what mktime returns for those tm fields (any ints, normalised as the C
standard describes); FIELD[f](t) are the broken-down fields of the instant t.  On concrete runs both are computed."""
import z3
from .tm import *
from .mem import *
from .cast import Unsupported, INT, LONG, ULONG, CHAR
from .ex import UNINIT
from .models import model, M, conc_str, Text, is_digit, _once, _tid

TM = ('struct', 'tm')
FIELDS = ('year', 'mon', 'mday', 'hour', 'min', 'sec')
ALL = FIELDS + ('wday', 'yday')
BOUND = dict(year=(-(1 << 31), (1 << 31) - 1), mon=(0, 11), mday=(1, 31), hour=(0, 23), min=(0, 59), sec=(0, 60), wday=(0, 6), yday=(0, 365))
OFF = dict(sec=0, min=4, hour=8, mday=12, mon=16, year=20, wday=24, yday=28, isdst=32)


SYMBOLIC = [True]     # False while judging concrete runs


def days_from_civil(y, m, d):
    """days since 1970-01-01; m in 1..12, any d"""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil_from_days(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + (3 if mp < 10 else -9)
    return y + (m <= 2), m, d


def secs(y, mo, d, h, mi, s):
    """year since 1900, month from 0, and so on"""
    if SYMBOLIC[0] or any(sym(x) for x in (y, mo, d, h, mi, s)):
        I_ = z3.IntSort()
        return z3.Function('tm_secs', *([I_] * 7))(*[zint(x) for x in (y, mo, d, h, mi, s)])
    y, mo = y + 1900 + mo // 12, mo % 12
    return days_from_civil(y, mo + 1, 1) * 86400 + (d - 1) * 86400 + h * 3600 + mi * 60 + s


def field(t, f):
    if SYMBOLIC[0] or sym(t):
        return z3.Function('tm_' + f, z3.IntSort(), z3.IntSort())(zint(t))
    d, r = t // 86400, t % 86400
    y, m, md = civil_from_days(d)
    return dict(year=y - 1900, mon=m - 1, mday=md, hour=r // 3600, min=r // 60 % 60, sec=r % 60, wday=(d + 4) % 7,
                yday=d - days_from_civil(y, 1, 1))[f]


def broken(e, t):
    """the broken-down fields of an instant"""
    SYMBOLIC[0] = not e.concrete_mode
    if not e.concrete_mode:
        e.impure += 1
        for f in ALL:
            x = field(t, f)
            e.st.pc.append(z3.And(x >= BOUND[f][0], x <= BOUND[f][1]))
        e.st.pc.append(secs(*[field(t, f) for f in FIELDS]) == t)
    return {f: field(t, f) for f in ALL}


def tm_view(e, p, what):
    p = e.check_ptr(p, 56, what)
    e.shape(p, TM)
    b = e.blk(p.bid)
    if b.kind != 'cells':
        raise Unsupported(what + ' of a tm inside an array')
    return b, p.off


def tm_get(e, b, off, f):
    v = b.cells[off + OFF[f]][1]
    if v is UNINIT:
        e.oblige('mem', 'tm field %s is set' % f, False)
        v = e.fresh_of(INT, f)
    return v.t


def tm_set(e, p, fs):
    b = e.mut(p.bid)
    for f, x in fs.items():
        o = p.off + OFF[f]
        e.log('cell', b.bid, o)
        b.cells[o] = (b.cells[o][0], I(simp(x), INT))


@model('time')
def m_time(e, a, rty):
    t = e.fresh_int('now', LONG, 0, 253402300799)      # until the end of the year 9999
    y = broken(e, t)['year']
    e.assume(And(y >= 70, y <= 8099))
    p = e.resolve(a[0])
    if not p.isnull:
        e.store(p, LONG, I(t, LONG))
    g = e.st.ghost
    g['now'] = t
    return I(t, LONG)


@model('localtime', 'gmtime')
def m_localtime(e, a, rty):
    t = e.load(a[0], LONG)
    t = t.t
    fs = broken(e, t)
    if e.branch(Or(t < -67767976233532800, t > 67767976233446399)):     # the year does not fit
        return NULL
    b = e.alloc_type(TM, 'broken-down time', 'zero')
    p = P(b.bid, 0)
    tm_set(e, p, dict(fs, isdst=0))
    return p


@model('mktime', 'timegm')
def m_mktime(e, a, rty):
    b, off = tm_view(e, a[0], 'mktime')
    p = P(b.bid, off)
    fs = [tm_get(e, b, off, f) for f in FIELDS]
    t = secs(*fs)
    if sym(t):
        e.set_bounds(t, -(1 << 62), (1 << 62))
    n = broken(e, t)
    tm_set(e, p, dict(n, isdst=0))
    return I(t, LONG)


def digits(x, n):
    """n decimal digits of a non-negative term, as characters"""
    return [simp(Add(Mod(Div(x, 10 ** (n - 1 - k)), 10), 48)) for k in range(n)]


DAYS = b'SunMonTueWedThuFriSat'
MONTHS = b'JanFebMarAprMayJunJulAugSepOctNovDec'


def stamp(fmt, fs):
    """the characters strftime produces for in-range fields and a four-digit year; fs: tm fields"""
    out, k = [], 0
    while k < len(fmt):
        ch = fmt[k]
        k += 1
        if ch != 37:
            out.append(ch)
            continue
        c = chr(fmt[k])
        k += 1
        if c == 'Y':
            out += digits(Add(fs['year'], 1900), 4)
        elif c in 'mdHMS':
            out += digits(Add(fs['mon'], 1) if c == 'm' else fs[dict(d='mday', H='hour', M='min', S='sec')[c]], 2)
        elif c == 'F':
            out += stamp(b'%Y-%m-%d', fs)
        elif c == 'T':
            out += stamp(b'%H:%M:%S', fs)
        elif c == '%':
            out.append(37)
        else:
            raise Unsupported('strftime %' + c)
    return out


def in_range(fs, names=ALL):
    r = [And(fs[f] >= BOUND[f][0], fs[f] <= BOUND[f][1]) for f in names if f != 'year']
    return And(And(fs['year'] >= -900, fs['year'] <= 8099), *r)


def put_chars(e, dst, chars, what):
    p = e.check_ptr(dst, len(chars) + 1, what, write=True)
    b = e.mut(p.bid)
    if b.kind != 'bytes':
        raise Unsupported(what + ' into a scalar')
    e.log('content', b.bid)
    seq = list(chars) + [0]

    def at(j):
        if not sym(j):
            return seq[j] if 0 <= j < len(seq) else 0
        r = 0
        for k in range(len(seq) - 1, -1, -1):
            r = If(Eq(j, k), seq[k], r)
        return r
    b.content = c_region(b.content, p.off, len(seq), at)
    b.nul = tuple(b.nul)[-5:] + (simp(Add(p.off, len(chars))),)
    return p


@model('strftime')
def m_strftime(e, a, rty):
    fmt = conc_str(e, a[2])
    if fmt is None:
        raise Unsupported('strftime with a computed format')
    size = e.int_of(a[1])
    b, off = tm_view(e, a[3], 'strftime')
    fs = {f: tm_get(e, b, off, f) for f in FIELDS}
    e.oblige('pre', 'strftime: the fields are in range and the year has four digits', in_range(fs, FIELDS))
    t = stamp(fmt, fs)
    if e.branch(size <= len(t)):
        p = e.check_ptr(a[0], size, 'strftime', write=True)
        e.havoc_region(p, size) if hasattr(e, 'havoc_region') else None
        return I(0, ULONG)
    put_chars(e, a[0], t, 'strftime')
    return I(len(t), ULONG)


def asc(fs):
    out = []
    for nm, tab, n in (('wday', DAYS, 7), ('mon', MONTHS, 12)):
        for k in range(3):
            r = tab[3 * (n - 1) + k]
            for j in range(n - 2, -1, -1):
                r = If(Eq(fs[nm], j), tab[3 * j + k], r)
            out.append(r)
        if nm == 'wday':
            out.append(32)
    d = digits(fs['mday'], 2)
    out += [32, If(fs['mday'] < 10, 32, d[0]), d[1], 32]
    for k, f in enumerate(('hour', 'min', 'sec')):
        out += ([58] if k else []) + digits(fs[f], 2)
    return out + [32] + digits(Add(fs['year'], 1900), 4) + [10]


@model('asctime_r')
def m_asctime(e, a, rty):
    b, off = tm_view(e, a[0], 'asctime_r')
    fs = {f: tm_get(e, b, off, f) for f in FIELDS + ('wday',)}
    e.oblige('pre', 'asctime: the fields are in range and the year has four digits', in_range(fs, FIELDS + ('wday',)))
    return put_chars(e, a[1], asc(fs), 'asctime_r')


@model('sscanf', '__isoc99_sscanf')
def m_sscanf(e, a, rty):
    """constant formats of %Nd and literal characters, on text known to match them"""
    fmt = conc_str(e, a[1])
    if fmt is None:
        raise Unsupported('sscanf with a computed format')
    t = Text(e, a[0])
    pos, k, arg, n = t.off, 0, 2, 0
    while k < len(fmt):
        ch = fmt[k]
        k += 1
        if ch != 37:
            if ch in b' \t\n':
                # any white space: exactly one blank here
                ok = And(Eq(t.c(pos), 32), Ne(t.c(Add(pos, 1)), 32), Not(And(t.c(Add(pos, 1)) >= 9, t.c(Add(pos, 1)) <= 13)))
            else:
                ok = Eq(t.c(pos), ch)
            if not e.valid(ok):
                raise Unsupported('sscanf on text that may not match')
            pos = Add(pos, 1)
            continue
        w = 0
        while chr(fmt[k]).isdigit():
            w = w * 10 + fmt[k] - 48
            k += 1
        if chr(fmt[k]) != 'd' or w == 0:
            raise Unsupported('sscanf %' + chr(fmt[k]))
        k += 1
        cs = [t.c(Add(pos, j)) for j in range(w)]
        for x in cs:
            e.byte_fact(x) if sym(x) else None
        if not e.valid(And(*[is_digit(x) for x in cs])):
            raise Unsupported('sscanf on text that may not match')
        v = 0
        for x in cs:
            v = Add(Mul(v, 10), Sub(x, 48))
        e.store(a[arg], INT, I(simp(v) if sym(v) else v, INT))
        arg += 1
        n += 1
        pos = Add(pos, w)
    return I(n, INT)
