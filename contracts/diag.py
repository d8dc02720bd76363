"""Contracts of util/debug.c and util/log.c: what is reported, where it goes, and when the process ends."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from vf import fs
from .str import FMTS, FV
from .fileio import Path
from .datetime import PAT, char_of
MOD = 'diag'

NOW = b'2023-11-14 22:13:20'     # the moment of the replay driver


def stamp(c):
    if c.eng.concrete_mode:
        return c.fs.lit(NOW)
    return c.fs.printed_prefix(19, char_of(PAT['']), 'the line starts with a time stamp')


# ---------------------------------------------------------------- debug.c
def g_filename(e, bid):
    if e.branch(z3.Bool('redirect_is_null')):
        p = NULL
    else:
        p = P(fresh_cstr(e, 'redirect').bid, 0)
    b = e.mut(bid)
    b.cells[0] = (b.cells[0][0], p)


DBG = dict(console=True, globals={'vt_debug_output_filename': g_filename})


def settings(c):
    """(output is on, redirection target or None)"""
    if c.eng.concrete_mode:
        off, f = c.extra[:2]
        return not off, None if f.null else c.text(f)
    on = c.eng.load(c.glob('vt_debug_output_on'), BOOL)
    f = c.eng.load(c.glob('vt_debug_output_filename'), ('ptr', CHAR))
    on = on.b if isinstance(on, B) else Ne(on.t, 0)
    return on, None if f.isnull else c.text(CV(c, f))


def emit(c, to, pieces):
    if to is None:
        c.say('stderr', pieces)
    else:
        c.fs.append_or_say(to, pieces)


def message(c, fmt):
    if c.eng.concrete_mode:
        c2 = CFmt(c.text(fmt).bytes(), c.extra[2:])
        return [fs.Piece(c.eng, c2.bytes)]
    return c.fs.pieces(fmt)


def pc(c, z):
    return fs.Piece(c.eng, c.text(z))


def dec(c, n):
    from vf.models import Dec
    return fs.Piece(c.eng, Dec(c.eng, 'd', n) if not c.eng.concrete_mode else b'%d' % n)


SET = [Int(BOOL, 'off'), Path('redirect', often_null=0.15, long=0.05)]
# the replay driver changes the settings twice, so that what an earlier one leaves behind shows
PRE = 'vt_debug_disable_output(true); vt_debug_redirect_output("earlier.log"); vt_debug_disable_output(*(bool *)&a[%d]); vt_debug_redirect_output(*(char **)&a[%d]); '
TXTS = dict(pick=[b'', b'x', b'a b', b'%s', b'file.c'])


@spec('vt_debug_assert', Int(BOOL, 'expr'), CStr('zexpr', null=False, **TXTS), CStr('subject', null=False, **TXTS), Int(BOOL, 'quit'),
      CStr('file', null=False, **TXTS), CStr('func', null=False, **TXTS), Int(ULONG, 'line'), CStr('fmt', null=False, pick=FMTS, only=True),
      prop='diag', varargs=True, fs=True, va=SET + FV, opts=DBG,
      tramp=PRE % (8, 9) + 'vt_debug_assert(*(bool *)&a[0], *(char **)&a[1], *(char **)&a[2], *(bool *)&a[3], *(char **)&a[4], '
      '*(char **)&a[5], *(size_t *)&a[6], *(char **)&a[7], *(int *)&a[10], *(char **)&a[11]);')
def debug_assert(c, expr, zexpr, subject, quit, file, func, line, fmt):
    c.ends_if(And(Not(expr), quit))
    if c.mode == 'pre' and not c.eng.concrete_mode:
        settings(c)
    c.start()
    if c.case(expr):
        return
    on, to = settings(c)
    if not c.case(on):
        return
    L = c.fs.lit
    emit(c, to, [stamp(c), L(b' '), pc(c, subject), L(b' ['), pc(c, zexpr), L(b'] '), pc(c, file), L(b':'), pc(c, func), L(b':'), dec(c, line), L(b': ')]
         + message(c, fmt) + [L(b'\n')])


@spec('vt_debug_printf', CStr('subject', null=False, **TXTS), CStr('fmt', pick=FMTS, only=True), prop='diag', varargs=True, fs=True, va=SET + FV, opts=DBG,
      tramp=PRE % (2, 3) + 'vt_debug_printf(*(char **)&a[0], *(char **)&a[1], *(int *)&a[4], *(char **)&a[5]);')
def debug_printf(c, subject, fmt):
    c.exit_if(fmt.null)
    if c.mode == 'pre' and not c.eng.concrete_mode:
        settings(c)
    c.start()
    on, to = settings(c)
    if not c.case(on):
        return
    emit(c, to, [stamp(c), c.fs.lit(b' '), pc(c, subject), c.fs.lit(b' ')] + message(c, fmt))


@spec('vt_debug_redirect_output', CStr('zfilename'), prop='diag', conc=False, through='vt_debug_printf')
def debug_redirect(c, z):
    g = c.glob('vt_debug_output_filename')
    c.start()
    c.eng.store(g, ('ptr', CHAR), z.p)


@spec('vt_debug_disable_output', Int(BOOL, 'off'), prop='diag', conc=False, through='vt_debug_printf')
def debug_disable(c, off):
    g = c.glob('vt_debug_output_on')
    c.start()
    c.eng.store(g, BOOL, B(Not(off), BOOL))


# ---------------------------------------------------------------- log.c
LEVELS = ['INFO', 'WARN', 'DEBUG', 'ERROR', 'FATAL', 'ASSERT FAILURE']
NL = len(LEVELS)
PMAX = 4096


def g_names(e, bid):
    """every stored file name is terminated within its row"""
    b = e.mut(bid)
    b.nul = tuple(PMAX * r + PMAX - 1 for r in range(NL))
    for w in b.nul:
        e.assume(Eq(b.content(w), 0))


LOG = dict(console=True, globals={'vt_log_filenames': g_names})
EARLIER = CStr('earlier', pick=[b'', b'x', b'some/earlier-name.log', b'l' * 40, b'm' * 4095, b'n' * 5000], only=True)
Level = lambda: Int(UINT, 'level', pick=list(range(NL)) * 6 + [NL, NL + 1, 100])


@spec('vt_log_get_level_str', Level(), prop='diag')
def level_str(c, lv):
    c.exit_if(lv >= NL)
    c.start()
    for i, n in enumerate(LEVELS):
        if c.case(Eq(lv, i)):
            return c.eng.literal(n.encode() + b'\0')
    return NULL


def put_name(c, row, z):
    """row of the table := name; what follows the terminator is the code's business"""
    e = c.eng
    g = c.glob('vt_log_filenames')
    n = simp(Min(z.len, PMAX - 1)) if not z.null else 0
    src = z.chars() if not z.null else (lambda k: 0)
    base = simp(Mul(row, PMAX))
    act = c.act.mem[g.bid].content if c.mode == 'check' else None
    b = e.mut(g.bid)
    b.content = c_region(b.content, base, PMAX - 1, lambda j: If(j < n, src(j), If(Eq(j, n), 0, act(Add(base, j)) if act else 0)))


@spec('vt_log_redirect_level_output', Level(), CStr('zfilename'), prop='diag', conc=False, through='vt_log', opts=LOG)
def log_redirect(c, lv, z):
    c.exit_if(lv >= NL)
    c.glob('vt_log_filenames')
    c.start()
    put_name(c, lv, z)


@spec('vt_log_redirect_all_output', CStr('zfilename'), prop='diag', conc=False, through='vt_log', opts=LOG)
def log_redirect_all(c, z):
    c.glob('vt_log_filenames')
    c.start()
    for r in range(NL):
        put_name(c, r, z)


class Cut:
    """(concrete runs) a stored name keeps PATH_MAX-1 characters"""

    def __init__(self, t):
        self.t = t.bytes()[:PMAX - 1]
        self.len = len(self.t)

    def bytes(self):
        return self.t


def log_target(c, lv):
    """file name stored for the level (may be empty)"""
    from vf.models import Text
    if c.eng.concrete_mode:
        f, all_ = c.extra[:2]
        if f.null or c.text(f).len == 0:
            return None
        return Cut(c.text(f))
    g = c.glob('vt_log_filenames')
    p = P(g.bid, simp(Mul(lv, PMAX)))
    t = Text(c.eng, p)
    return None if c.case(Eq(t.len, 0)) else t


@spec('vt_log', Path('zfilename', often_null=0.6), Level(), Int(BOOL, 'expr'), CStr('zexpr', **TXTS), CStr('file', null=False, **TXTS), Int(ULONG, 'line'),
      CStr('fmt', null=False, pick=FMTS, only=True), prop='diag', varargs=True, fs=True, opts=dict(LOG, budget=150), va=[Path('level_file', often_null=0.15, long=0.05), Int(BOOL, 'all')] + FV + [EARLIER],
      tramp='vt_log_redirect_all_output(*(char **)&a[11]); vt_log_redirect_level_output((*(enum VitaLogLevel *)&a[1] + 1) % 6, "other.log"); if (*(bool *)&a[8]) vt_log_redirect_all_output(*(char **)&a[7]); else vt_log_redirect_level_output(*(enum VitaLogLevel *)&a[1], *(char **)&a[7]);'
      ' vt_log(*(char **)&a[0], *(enum VitaLogLevel *)&a[1], *(bool *)&a[2], *(char **)&a[3], *(char **)&a[4], *(size_t *)&a[5], *(char **)&a[6], '
      '*(int *)&a[9], *(char **)&a[10]);')
def log(c, zf, lv, expr, zexpr, file, line, fmt):
    c.exit_if(lv >= NL)
    c.ends_if(And(Not(expr), Or(Eq(lv, 4), Eq(lv, 5))))
    if c.mode == 'pre' and not c.eng.concrete_mode:
        c.glob('vt_log_filenames')
    c.start()
    if c.case(expr):
        return
    if zf.null:
        to = log_target(c, lv)
    else:
        to = None if c.case(Eq(zf.len, 0)) else c.text(zf)
    L = c.fs.lit
    name = [n for i, n in enumerate(LEVELS) if c.case(Eq(lv, i))][0]
    ps = [stamp(c), L(b' ' + name.rjust(5).encode() + b' ')] + ([] if zexpr.null else [L(b'['), pc(c, zexpr), L(b'] ')])
    ps += [pc(c, file), L(b':'), dec(c, line), L(b': ')] + message(c, fmt) + [L(b'\n')]
    if to is None:
        c.say('stderr', ps)
    elif not c.fs.append_or_say(to, ps):
        c.tail_only = True
