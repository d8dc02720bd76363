"""Files, directories and the process environment.

Symbolic side: questions (does a path exist, its type, size, content) are functions of the path and of the number of
changes made so far; every change (mkdir, remove, opening for writing, what was written, ...) is a request in the trace
of vf/world.py.  An open stream is a heap-like object that must be closed exactly once.
Concrete side (replay): the real code runs inside a scratch directory as an unprivileged user; the specification runs
the same operations on a twin directory, and the two trees are compared."""
import os, re, shutil, stat, tempfile
import z3
from .tm import *
from .mem import *
from .cast import Unsupported, VOID, BOOL, CHAR, INT, UINT, LONG, ULONG, UCHAR
from .models import model, M, Text, Fmt, Dec, text_eq, _once, _tid, conc_str, va_use, m_print, fmt_number
from .world import ask, answer, trace, region_data, put_bytes
from .ex import UNINIT

DIR_T, REG_T = 4, 8
NOBODY = 65534


# ---------------------------------------------------------------- symbolic questions
def _ver(e):
    return len(trace(e))


def _q(e, what, t, lo, hi, srt=None):
    nm = 'fs!%s!%s!%d' % (what, t.key, _ver(e))
    f = z3.Function(nm, z3.IntSort(), z3.IntSort(), srt if srt is not None else z3.IntSort())
    v = f(zint(t.off), zint(t.end))
    if srt is None:
        e.bnd[nm] = (lo, hi)
        if _once(e, (nm, _tid(t.off), _tid(t.end))):
            e.assume(And(v >= lo, v <= hi))
    return v


def answer_bool(e, k, what):
    return z3.Bool('sys!%d!%s' % (k, what))


class Fs:
    """the file system as specifications see it"""

    def __init__(self, ctx):
        self.ctx, self.e = ctx, ctx.eng

    # questions
    def exists(self, t):
        if self.e.concrete_mode:
            return self.e.twin.do(lambda: _stat(t.bytes()) is not None)
        return q_exists(self.e, t)

    def _fmt(self, t, want):
        if self.e.concrete_mode:
            s = self.e.twin.do(lambda: _stat(t.bytes()))
            return s is not None and (s.st_mode >> 12) == want
        return And(q_exists(self.e, t), Eq(q_fmt(self.e, t), want))

    def is_dir(self, t):
        return self._fmt(t, DIR_T)

    def is_file(self, t):
        return self._fmt(t, REG_T)

    def size(self, t):
        if self.e.concrete_mode:
            return self.e.twin.do(lambda: _stat(t.bytes()).st_size)
        return q_size(self.e, t)

    def readable(self, t):
        if self.e.concrete_mode:
            return self.e.twin.do(lambda: _read(t.bytes())) is not None
        return q_readable(self.e, t)

    def data(self, t):
        """(number of bytes reading yields, the bytes)"""
        if self.e.concrete_mode:
            b = self.e.twin.do(lambda: _read(t.bytes()))
            return len(b), const_content(b)
        return q_data(self.e, t)

    # changes
    def change(self, name, *args):
        """truth value of: the request succeeded"""
        e = self.e
        if e.concrete_mode:
            a = [x.bytes() if isinstance(x, Text) else x for x in args]
            return e.twin.do(lambda: _ok(OPS[name], *a))
        k = ask(e, name, *args)
        return Eq(answer(e, k, 'r', -1, 0), 0)

    def write(self, t, mode, pieces):
        """open for writing ('w') or appending ('a'), put the pieces, close; truth value of: all of it succeeded"""
        e, ctx = self.e, self.ctx
        if e.concrete_mode:
            return bool(e.twin.do(lambda: _write(t.bytes(), mode, b''.join(p.bytes() for p in pieces), e.limit)))
        k = ask(e, 'fopen', t, mode)
        if not ctx.case(answer_bool(e, k, 'ok')):
            return False
        fail = answer_bool(e, k + 1, 'fail')
        if ctx.mode == 'check':
            at = ctx.act.ghost.get('trace', ())
            if len(at) > k + 1 and at[k + 1][0] == 'wrote':
                fail = at[k + 1][1].fail
        ask(e, 'wrote', Wrote(pieces, fail))
        return Not(fail)

    def append_or_say(self, t, pieces):
        """append to the file, or print to standard error when it cannot be opened; truth value of: it was opened"""
        e, ctx = self.e, self.ctx
        if e.concrete_mode:
            if e.twin.do(lambda: _write(t.bytes(), 'a', b''.join(p.bytes() for p in pieces)) is not None):
                return True
            ctx.say('stderr', pieces)
            return False
        k = ask(e, 'fopen', t, 'a')
        if not ctx.case(answer_bool(e, k, 'ok')):
            ctx.say('stderr', pieces)
            return False
        fail = answer_bool(e, k + 1, 'fail')
        if ctx.mode == 'check':
            at = ctx.act.ghost.get('trace', ())
            if len(at) > k + 1 and at[k + 1][0] == 'wrote':
                fail = at[k + 1][1].fail
        ask(e, 'wrote', Wrote(pieces, fail))
        return True

    def printed_prefix(self, n, pred, what):
        """(symbolic) the first n characters of whatever text the code printed or appended"""
        e, act = self.e, self.ctx.act
        ps = [y for x in act.ghost.get('trace', ()) if x[0] == 'wrote' for y in x[1].pieces]
        for nm in ('stderr', 'stdout'):
            ps = ps or list(act.ghost.get('console', {}).get(nm, ()))
        m, at = cat(ps) if ps else (0, lambda j: 0)
        self.ctx.ensure(m >= n, what + ' (length)')
        cs = [simp(at(k)) for k in range(n)]
        for k in range(n):
            self.ctx.ensure(pred(k, cs[k]), what)
        p = Piece(e, b'?' * n)
        p.key, p.at = ('adopted', n), at
        return p

    def getenv(self, name):
        """None or (length, characters)"""
        e = self.e
        if e.concrete_mode:
            v = e.env.get(name)
            return None if v is None else (len(v), const_content(v))
        n, f, null = env_var(e, name)
        return None if self.ctx.case(null) else (n, f)

    def link(self, name):
        """target of a symbolic link: (length, characters), length -1 if there is none"""
        e = self.e
        if e.concrete_mode:
            n = e.script[0]
            return (n, lambda j: b'/exe'[j % 4]) if n >= 0 else (-1, None)
        n, f, null = env_var(e, '@link:' + name)
        return simp(If(null, -1, n)), f

    def cwd(self):
        e = self.e
        if e.concrete_mode:
            for x in self.ctx.act.ghost.get('log', ()):
                if x[:1] == b'C':
                    return (len(x) - 1, const_content(x[1:])) if len(x) > 1 else None
            return None
        n, f, null = env_var(e, '@cwd')
        return None if self.ctx.case(null) else (n, f)

    def pieces(self, fmt, args=None):
        """what a format and the variadic arguments of this call print"""
        e, ctx = self.e, self.ctx
        if e.concrete_mode:
            return [Piece(e, ctx.fmt(fmt).bytes)]
        if ctx.mode == 'apply':
            f = conc_str(e, fmt.p)
            ps = fmt_pieces(e, f, ctx.extra) if f is not None else None
            if ps is not None:
                return ps
        return [Piece(e, ctx.fmt(fmt))]

    def lit(self, b):
        return Piece(self.e, b)


def q_exists(e, t):
    return _q(e, 'exists', t, 0, 0, z3.BoolSort())


def q_fmt(e, t):
    return _q(e, 'type', t, 0, 15)


def q_size(e, t):
    v = _q(e, 'size', t, 0, MAXOBJ - 1)
    if _once(e, ('fssize', _tid(v))):
        e.st.pc.append(zbool(And(v >= 0, v < MAXOBJ)))
    return v


def q_readable(e, t):
    v = _q(e, 'readable', t, 0, 0, z3.BoolSort())
    if _once(e, ('fsread', _tid(v))):
        e.st.pc.append(z3.Implies(v, zbool(q_exists(e, t))))
    return v


def q_data(e, t):
    n = _q(e, 'avail', t, 0, MAXOBJ)
    if _once(e, ('fsavail', _tid(n))):
        e.st.pc.append(zbool(And(n >= 0, n < MAXOBJ)))
    nm = 'fs!content!%s!%d' % (t.key, _ver(e))
    f = z3.Function(nm, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    e.bnd[nm] = (0, 255)
    o, end = zint(t.off), zint(t.end)
    return n, (lambda j: f(o, end, zint(j)))


def env_var(e, name):
    """(length, characters, is unset)"""
    key = ('memo', 'env', name)
    hit = e.st.ghost.get(key)
    if hit is None:
        e.impure += 1
        n = z3.Int('env!%s!len' % name)
        e.set_bounds(n, 1 if name == '@cwd' else 0, MAXOBJ - 2)
        nm = 'env!%s!text' % name
        f = z3.Function(nm, z3.IntSort(), z3.IntSort())
        e.bnd[nm] = (0, 255)
        q = z3.Int(e.name('q'))
        e.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f(q) != 0), patterns=[f(q)]))
        e.st.pc.append(f(n) == 0)
        hit = e.st.ghost[key] = (n, Content(lambda k: f(zint(k))), z3.Bool('env!%s!null' % name))
    return hit


# ---------------------------------------------------------------- what is written
class Piece:
    def __init__(self, e, x):
        if isinstance(x, bytes):
            self.key, self.len, self.at = x, len(x), lit_at(x)
        elif isinstance(x, Text):
            self.key, self.len = ('t', x.key, _tid(x.off), _tid(x.end)), x.len
            c, o = x.c, x.off
            self.at = lambda j: c(Add(o, j))
        elif isinstance(x, Dec):
            self.key, self.len, self.at = ('d', x.kind, _tid(x.v)), x.len, x.text
        else:
            self.key, self.len, self.at = ('f', x.key), x.len, x.text

    def bytes(self):
        return bytes(self.at(j) for j in range(self.len))


def lit_at(b):
    def at(j):
        if not sym(j):
            return b[j] if 0 <= j < len(b) else 0
        r = 0
        for k in range(len(b) - 1, -1, -1):
            r = If(Eq(j, k), b[k], r)
        return r
    return at


def squeeze(e, ps):
    out = []
    for p in ps:
        if not sym(p.len) and p.len == 0:
            continue
        if isinstance(p.key, bytes) and out and isinstance(out[-1].key, bytes):
            out[-1] = Piece(e, out[-1].key + p.key)
        else:
            out.append(p)
    return out


def cat(ps):
    n = 0
    for p in ps:
        n = Add(n, p.len)

    def at(j):
        r, o = 0, n
        for p in reversed(ps):
            o = Sub(o, p.len)
            r = If(j >= o, p.at(Sub(j, o)), r) if p is not ps[0] else If(j >= p.len, r, p.at(j))
        return r
    return simp(n), at


class Wrote:
    def __init__(self, pieces, fail):
        self.pieces, self.fail = tuple(pieces), fail

    def cmp(self, ctx, other, what):
        e = ctx.eng
        if not isinstance(other, Wrote):
            e.oblige('sys', what, False)
            return
        s, a = squeeze(e, self.pieces), squeeze(e, other.pieces)
        while s and a and s[-1].key == a[-1].key and len(s) + len(a) > 2:
            s.pop(), a.pop()
        if [p.key for p in s] == [p.key for p in a]:
            e.oblige('sys', 'the text written to the file is as specified', True)
            return
        (n, f), (m, g) = cat(s), cat(a)
        ok = Not(other.fail)
        e.oblige('sys', 'the amount of text written to the file is as specified', Implies(ok, Eq(n, m)))
        k = e.fresh_int('k')
        saved = list(e.st.pc)
        e.st.pc.append(zbool(And(k >= 0, k < n)))
        e.oblige('sys', 'the text written to the file is as specified', Implies(ok, Eq(f(k), g(k))))
        e.st.pc[:] = saved


def padded(e, t, w):
    """the text, right-aligned in at least w columns"""
    if not sym(t.len) and all(not sym(t.c(Add(t.off, k))) for k in range(t.len)):
        return Piece(e, bytes(t.c(Add(t.off, k)) for k in range(t.len)).rjust(w))
    p = Piece(e, t)
    n, at = t.len, p.at
    pad = simp(Max(Sub(w, n), 0))
    p.key, p.len, p.at = ('p', w, p.key), simp(Max(n, w)), (lambda j: If(j < pad, 32, at(Sub(j, pad))))
    return p


def fmt_pieces(e, fmt, args):
    """pieces of a known format, or None"""
    out, args = [], list(args)
    for lit, spec in re.findall(rb'([^%]+)|(%[^a-zA-Z%]*(?:hh|h|ll|l|j|z|t|L)?[a-zA-Z%])', fmt):
        if lit:
            out.append(Piece(e, lit))
        elif spec == b'%%':
            out.append(Piece(e, b'%'))
        elif not args:
            return None
        else:
            v = args.pop(0)
            if spec == b'%s':
                out.append(Piece(e, Text(e, v)))
            elif re.fullmatch(rb'%[1-9]\d*s', spec):
                out.append(padded(e, Text(e, v), int(spec[1:-1])))
            elif spec == b'%c':
                c = e.int_of(v)
                p = Piece(e, b'?')
                p.key, p.at = ('c', _tid(c)), (lambda j, c=c: c)
                out.append(p)
            else:
                d = fmt_number(e, spec, v)
                if d is None:
                    return None
                out.append(Piece(e, d))
    return out


# ---------------------------------------------------------------- standard output and standard error
def std_stream(e, v):
    """'stdout' / 'stderr' if the argument is that stream"""
    p = e.resolve(v)
    for nm in ('stderr', 'stdout'):
        b = e.st.mem.get('g:' + nm)
        if b is not None and p.bid is None and p.addr is not None:
            x = b.cells[0][1]
            if isinstance(x, P) and x.addr is not None and (x.addr is p.addr or (sym(x.addr) and sym(p.addr) and x.addr.eq(p.addr))):
                return nm
    return None


def say(e, nm, pieces):
    if e.st.log is not None:
        raise Unsupported('printing in a loop')
    c = dict(e.st.ghost.get('console', {}))
    c[nm] = tuple(c.get(nm, ())) + tuple(pieces)
    e.st.ghost['console'] = c


def printed(e, v, mk, a, rty):
    """print to something that is no file opened here"""
    if e.opts.get('console'):
        nm = std_stream(e, v)
        if nm is None:
            raise Unsupported('unknown stream')
        ps = mk()
        if ps is None:
            raise Unsupported('format')
        say(e, nm, ps)
    return m_print(e, a, rty)


def cmp_console(ctx, spec, act):
    e = ctx.eng
    s, a = spec.ghost.get('console', {}), act.ghost.get('console', {})
    if e.concrete_mode:
        for nm in ('stdout', 'stderr'):
            x, y = s.get(nm, b''), a.get(nm, b'')
            ok = y.endswith(x) if ctx.tail_only else x == y
            e.oblige('sys', 'the text printed to %s is as specified (%r, printed %r)' % (nm, x[:200], y[:200]), ok)
        return
    for nm in ('stdout', 'stderr'):
        Wrote(s.get(nm, ()), False).cmp(ctx, Wrote(a.get(nm, ()), False), 'text printed to ' + nm)


# ---------------------------------------------------------------- streams
class Stream:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def but(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return Stream(**d)


def _stream(e, v, what):
    p = e.resolve(v)
    if p.bid is None:
        if p.isnull:
            e.oblige('mem', '%s on NULL' % what, False)
        raise Unsupported('unknown stream')
    s = e.st.ghost.get('file:%s' % p.bid)
    if s is None:
        return p, None
    e.oblige('mem', '%s on an open file' % what, e.blk(p.bid).alive)
    return p, s


def _set(e, p, s):
    if e.st.log is not None:
        raise Unsupported('file operation in a loop')
    e.st.ghost['file:%s' % p.bid] = s


def is_file(e, v):
    """the argument is a stream opened by the code (not stdout or stderr)"""
    p = e.resolve(v)
    return p.bid is not None and ('file:%s' % p.bid) in e.st.ghost


@model('fopen', 'fopen64')
def m_fopen(e, a, rty):
    t, mode = Text(e, a[0]), conc_str(e, a[1])
    if mode is None or mode.replace(b'b', b'') not in (b'r', b'w', b'a'):
        raise Unsupported('file mode')
    mode = mode[:1].decode()
    if e.st.log is not None:
        raise Unsupported('file opened in a loop')
    k = None
    if mode == 'r':
        if not e.branch(q_readable(e, t)):
            return NULL
    else:
        k = ask(e, 'fopen', t, mode)
        if not e.branch(answer_bool(e, k, 'ok')):
            return NULL
    p = e.heap_alloc(216, False, 'FILE', 'open file')
    for nm in ('stdout', 'stderr') if e.opts.get('console') else ():
        x = e.st.mem.get('g:' + nm)
        if x is not None:
            e.assume(Ne(e.addr(p), e.addr(x.cells[0][1])))
    n, f = q_data(e, t) if mode == 'r' else (0, None)
    e.st.ghost['file:%s' % p.bid] = Stream(path=t, mode=mode, k=k, pos=0, pieces=(), fail=False, nfail=0, avail=n, data=f,
                                           size=q_size(e, t) if mode == 'r' else 0)
    return p


def _failure(e, s):
    x = z3.Bool('sys!%d!fail!%d' % (s.k, s.nfail))
    return x, s.but(fail=Or(s.fail, x), nfail=s.nfail + 1)


@model('fclose')
def m_fclose(e, a, rty):
    if not is_file(e, a[0]) and e.opts.get('console') and std_stream(e, a[0]):
        e.oblige('own', 'the standard streams are not closed', False)
        return I(0, INT)
    p, s = _stream(e, a[0], 'fclose')
    if s is None:
        raise Unsupported('fclose of a standard stream')
    x = e.fresh_bool('fclose')
    if s.mode != 'r':
        x, s = _failure(e, s)
        ask(e, 'wrote', Wrote(s.pieces, s.fail))
    _set(e, p, s)
    e.heap_free(p, 'FILE', 'fclose')
    return I(If(x, -1, 0), INT)


def put(e, p, s, pieces):
    """append pieces; truth value of: it failed"""
    e.oblige('mem', 'writing to a file opened for writing', s.mode != 'r')
    x, s = _failure(e, s)
    _set(e, p, s.but(pieces=s.pieces + tuple(pieces)))
    return x


def _printed(e, x, pieces):
    n = cat(pieces)[0] if pieces else 0
    r = e.fresh_int('printed', INT)
    e.assume(If(x, Eq(r, -1), And(r >= 0, Implies(n <= (1 << 31) - 1, Eq(r, n)))))
    return I(r, INT)


def _fprintf(e, a, rty):
    if not is_file(e, a[0]):
        return printed(e, a[0], lambda: fmt_pieces(e, conc_str(e, a[1]) or b'%q', a[2:]), a, rty)
    p, s = _stream(e, a[0], 'fprintf')
    f = conc_str(e, a[1])
    ps = fmt_pieces(e, f, a[2:]) if f is not None else None
    if ps is None:
        raise Unsupported('fprintf format')
    return _printed(e, put(e, p, s, ps), ps)


def _vfprintf(e, a, rty):
    if not is_file(e, a[0]):
        return printed(e, a[0], lambda: [Piece(e, Fmt(e, a[1], va_use(e, a[2], 'vfprintf')))], a, rty)
    p, s = _stream(e, a[0], 'vfprintf')
    ps = [Piece(e, Fmt(e, a[1], va_use(e, a[2], 'vfprintf')))]
    return _printed(e, put(e, p, s, ps), ps)


def _fputs(e, a, rty):
    if not is_file(e, a[1]):
        return printed(e, a[1], lambda: [Piece(e, Text(e, a[0]))], a, rty)
    p, s = _stream(e, a[1], 'fputs')
    x = put(e, p, s, [Piece(e, Text(e, a[0]))])
    return I(If(x, -1, 1), INT)


def _fputc(e, a, rty):
    c = simp(Mod(e.int_of(a[0]), 256))
    pc = Piece(e, b'?' if sym(c) else bytes([c]))
    if sym(c):
        pc.key, pc.at = ('c', _tid(c)), (lambda j: c)
    if not is_file(e, a[1]):
        return printed(e, a[1], lambda: [pc], a, rty)
    p, s = _stream(e, a[1], 'fputc')
    x = put(e, p, s, [pc])
    return I(If(x, -1, c), INT)


def _fwrite(e, a, rty):
    if not is_file(e, a[3]):
        return I(e.fresh_int('written', ULONG), ULONG)
    p, s = _stream(e, a[3], 'fwrite')
    n = simp(Mul(e.int_of(a[1]), e.int_of(a[2])))
    q = e.check_ptr(a[0], n, 'fwrite')
    r = e.region(q)
    pc = Piece(e, b'')
    pc.key, pc.len, pc.at = ('w', e.name('w')), n, (lambda j: r(j))
    b = e.blk(q.bid)
    if b.kind == 'bytes':
        from .models import region_key
        pc.key = ('t', region_key(e, q), _tid(simp(q.off)), _tid(simp(Add(q.off, n))))
    x = put(e, p, s, [pc])
    cnt = e.int_of(a[2])
    k = e.fresh_int('written', ULONG)
    e.assume(k <= cnt)
    e.assume(If(x, Or(k < cnt, Eq(n, 0)), Eq(k, cnt)))
    return I(k, ULONG)


M['fprintf'], M['vfprintf'], M['fputs'], M['fwrite'] = _fprintf, _vfprintf, _fputs, _fwrite
M['fputc'] = M['putc'] = M['_IO_putc'] = _fputc


@model('ferror')
def m_ferror(e, a, rty):
    p, s = _stream(e, a[0], 'ferror')
    if s is None:
        raise Unsupported('ferror of a standard stream')
    return I(B2I(s.fail) if s.mode != 'r' else e.fresh_int('ferror', INT), INT)


@model('fflush')
def m_fflush(e, a, rty):
    if not is_file(e, a[0]):
        return m_print(e, a, rty)
    p, s = _stream(e, a[0], 'fflush')
    if s.mode == 'r':
        return I(0, INT)
    x, s = _failure(e, s)
    _set(e, p, s)
    return I(If(x, -1, 0), INT)


@model('fread')
def m_fread(e, a, rty):
    p, s = _stream(e, a[3], 'fread')
    if s is None or s.mode != 'r':
        raise Unsupported('fread')
    sz, cnt = simp(e.int_of(a[1])), e.int_of(a[2])
    if sz != 1:
        if not e.valid(Eq(sz, 1)):
            raise Unsupported('fread of wide elements')
    q = e.check_ptr(a[0], cnt, 'fread', write=True)
    left = Sub(s.avail, s.pos)
    r = simp(Min(cnt, left))
    pos = s.pos
    put_bytes(e, q, r, lambda j: s.data(Add(pos, j)))
    _set(e, p, s.but(pos=simp(Add(pos, r))))
    return I(r, ULONG)


@model('fseek', 'fseeko')
def m_fseek(e, a, rty):
    p, s = _stream(e, a[0], 'fseek')
    off, wh = simp(e.int_of(a[1])), simp(e.int_of(a[2]))
    if s is None or s.mode != 'r' or sym(wh) or wh == 1:
        raise Unsupported('fseek')
    if e.branch(e.fresh_bool('fseek_fails')):
        raise Unsupported('fseek can fail')
    _set(e, p, s.but(pos=simp(off if wh == 0 else Add(s.size, off))))
    return I(0, INT)


@model('ftell', 'ftello')
def m_ftell(e, a, rty):
    p, s = _stream(e, a[0], 'ftell')
    if s is None or s.mode != 'r':
        raise Unsupported('ftell')
    return I(s.pos, LONG)


@model('rewind')
def m_rewind(e, a, rty):
    p, s = _stream(e, a[0], 'rewind')
    if s is None or s.mode != 'r':
        raise Unsupported('rewind')
    _set(e, p, s.but(pos=0))


# ---------------------------------------------------------------- directories
def _field(e, name):
    for n, o, t, _i in e.prog.records['stat']['fields']:
        if n == name:
            return o, t
    raise Unsupported('struct stat')


@model('stat', 'stat64')
def m_stat(e, a, rty):
    t = Text(e, a[0])
    if not e.branch(q_exists(e, t)):
        return I(-1, INT)
    n = e.prog.sizeof(('struct', 'stat'))
    p = e.check_ptr(a[1], n, 'stat', write=True)
    for nm, v in (('st_mode', Add(Mul(q_fmt(e, t), 4096), _q(e, 'perm', t, 0, 4095))), ('st_size', q_size(e, t))):
        o, ty = _field(e, nm)
        e.store(p.plus(o), ty, I(v, ty))
    return I(0, INT)


@model('access')
def m_access(e, a, rty):
    if simp(e.int_of(a[1])) != 0:
        raise Unsupported('access mode')
    return I(If(q_exists(e, Text(e, a[0])), 0, -1), INT)


def _change(name, texts, ints=0):
    def f(e, a, rty):
        args = [Text(e, x) for x in a[:texts]] + [e.int_of(x) for x in a[texts:texts + ints]]
        return I(answer(e, ask(e, name, *args), 'r', -1, 0), INT)
    return f


M['mkdir'], M['rmdir'], M['remove'], M['unlink'] = _change('mkdir', 1, 1), _change('rmdir', 1), _change('remove', 1), _change('unlink', 1)
M['rename'] = _change('rename', 2)


@model('getenv', 'secure_getenv')
def m_getenv(e, a, rty):
    nm = conc_str(e, a[0])
    if nm is None:
        raise Unsupported('getenv')
    n, f, null = env_var(e, nm.decode('latin1'))
    if e.branch(null):
        return NULL
    bid = 'env:%s' % nm.decode('latin1')
    if bid not in e.st.mem:
        b = e.new_block('bytes', Add(n, 1), bid, bid=bid)
        b.content, b.nul, b.const = f, (n,), True
    return P(bid, 0)


@model('getcwd')
def m_getcwd(e, a, rty):
    p = e.resolve(a[0])
    n, f, null = env_var(e, '@cwd')
    if not p.isnull:
        size = e.int_of(a[1])
        if e.branch(Or(null, size <= n)):
            return NULL
        p = e.check_ptr(p, size, 'getcwd', write=True)
        put_bytes(e, p, Add(n, 1), lambda j: f(j))
        b = e.mut(p.bid)
        b.nul = tuple(b.nul)[-5:] + (simp(Add(p.off, n)),)
        return p
    if simp(e.int_of(a[1])) != 0:
        raise Unsupported('getcwd size')
    if e.branch(null):
        return NULL
    p = e.heap_alloc(Add(n, 1), False, None, 'working directory')
    b = e.mut(p.bid)
    b.content, b.nul = f, (n,)
    return p


@model('readlink')
def m_readlink(e, a, rty):
    nm = conc_str(e, a[0])
    if nm is None:
        raise Unsupported('readlink')
    n, f, null = env_var(e, '@link:' + nm.decode('latin1'))
    size = e.int_of(a[2])
    p = e.check_ptr(a[1], size, 'readlink', write=True)
    if e.branch(null):
        return I(-1, LONG)
    r = simp(Min(n, size))
    put_bytes(e, p, r, lambda j: f(j))
    return I(r, LONG)


# ---------------------------------------------------------------- concrete: scratch trees
def _stat(p):
    try:
        return os.stat(p)
    except OSError:
        return None


def _read(p):
    """what fopen and fread yield: None, or the bytes"""
    try:
        fd = os.open(p, os.O_RDONLY)
    except OSError:
        return None
    try:
        out = b''
        while True:
            x = os.read(fd, 65536)
            if not x:
                return out
            out += x
            if len(out) > 1 << 22:
                return out
    except OSError:
        return b''
    finally:
        os.close(fd)


def _ok(f, *a):
    try:
        f(*a)
        return True
    except OSError:
        return False


def _write(p, mode, data, limit=-1):
    """True, False (a write failed) or None (cannot be opened)"""
    try:
        fd = os.open(p, os.O_WRONLY | os.O_CREAT | (os.O_TRUNC if mode == 'w' else os.O_APPEND), 0o666)
    except OSError:
        return None
    try:
        short = False
        if limit >= 0 and stat.S_ISREG(os.fstat(fd).st_mode):
            keep = data[:max(0, limit - os.fstat(fd).st_size)]
            short, data = len(keep) < len(data), keep
        while data:
            data = data[os.write(fd, data):]
        return not short
    except OSError:
        return False
    finally:
        os.close(fd)


def remove(p):
    """remove(3)"""
    try:
        os.unlink(p)
    except IsADirectoryError:
        os.rmdir(p)


OPS = dict(mkdir=os.mkdir, rmdir=os.rmdir, rename=os.rename, remove=remove, unlink=os.unlink)


def build_tree(root, tree, own=None):
    os.makedirs(root, exist_ok=True)
    made = [root]
    for path, kind, data in tree:
        p = os.path.join(os.fsencode(root), path)
        if kind == 'd':
            os.mkdir(p, 0o755)
        elif kind == 'l':
            os.symlink(data, p)
        else:
            with open(p, 'wb') as f:
                f.write(data)
            os.chmod(p, 0o644)
        made.append(p)
    if own is not None:
        for p in made:
            os.lchown(p, own, own)


def dump_tree(root):
    out = []
    root = os.fsencode(root)
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            s = os.lstat(p)
            r = os.path.relpath(p, root)
            if stat.S_ISLNK(s.st_mode):
                out.append((r, 'l', os.readlink(p)))
            elif stat.S_ISDIR(s.st_mode):
                out.append((r, 'd', oct(s.st_mode & 0o777)))
            else:
                out.append((r, 'f', open(p, 'rb').read()))
    return sorted(out)


class Twin:
    """the specification's copy of the case's directory"""

    def __init__(self, tree):
        self.root = tempfile.mkdtemp(prefix='vitatwin')
        build_tree(self.root, tree)

    def do(self, f):
        cwd, um = os.getcwd(), os.umask(0)
        os.chdir(self.root)
        try:
            return f()
        finally:
            os.chdir(cwd)
            os.umask(um)

    def dump(self):
        return dump_tree(self.root)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


# ---------------------------------------------------------------- generated trees
NAMES = [b'a', b'b', b'c', b'd.txt', b'.h', b'e', b'ab', b'a.b', b'..x', b'a b', b'a-longer-name.text', b'n' * 200]


def gen_name(r):
    if r.random() < 0.6:
        return r.choice(NAMES)
    ab = r.choice([b'ab', b'a.', b' a', b'ab.-_ ~', b'.', b'aA1', b'x\\:*?"\'%s$', bytes(range(1, 47)) + bytes(range(48, 256))])
    n = bytes(r.choice(ab) for _ in range(r.choice([1, 1, 2, 3, 3, 3, 4, 5, 8, 13, 40])))
    return b'...' if n in (b'.', b'..') else n


def gen_tree(g):
    """a random small tree (memoised on the chooser)"""
    if getattr(g, 'tree', None) is not None:
        return g.tree
    r = g.rng
    out, dirs = [], [b'']
    used = set()
    for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 14, 24])):
        d = r.choice(dirs[-3:] + dirs[:1])
        p = d + gen_name(r)
        if p in used:
            continue
        used.add(p)
        x = r.random()
        if x < 0.42 and p.count(b'/') < 6:
            out.append((p, 'd', None))
            dirs.append(p + b'/')
        elif x < 0.55 and p.count(b'/') < 6:
            # links stay inside the tree (or lead to a device that refuses every write)
            up = b'../' * p.count(b'/')
            tgt = r.choice([o[0] for o in out] or [b'a'])
            out.append((p, 'l', r.choice([up + tgt, up + tgt, up + b'missing', b'/dev/full'])))
        else:
            out.append((p, 'f', gen_data(r)))
    g.tree = out
    return out


def gen_data(r):
    x = r.random()
    if x < 0.15:
        return b''
    if x < 0.8:
        return bytes(r.choice(b'ab\n c%s\\/') for _ in range(r.randrange(1, 12)))
    if x < 0.9:
        return bytes(r.randrange(256) for _ in range(r.randrange(1, 40)))
    return bytes(r.randrange(1, 256) for _ in range(r.choice([255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 70000])))


def gen_path(g):
    r = g.rng
    tree = gen_tree(g)
    x = r.random()
    ps = [t[0] for t in tree]
    ds = [t[0] for t in tree if t[1] == 'd']
    if x < 0.03:
        return b''
    if x < 0.5 and ps:
        p = r.choice(ps)
    elif x < 0.6 and ds:
        p = r.choice(ds)
    elif x < 0.75:
        p = (r.choice(ds) + b'/' if ds else b'') + gen_name(r)
    elif x < 0.85:
        p = (r.choice(ps) + b'/' if ps else b'') + b'n/' * r.randrange(0, 3) + gen_name(r)
    else:
        p = r.choice([b'n', b'n/m', b'n/m/k', b'x.y', gen_name(r), b'/'.join(gen_name(r) for _ in range(r.choice([2, 2, 3, 5, 9])))])
    y = r.random()
    if y < 0.08:
        p = p + b'/'
    elif y < 0.14:
        p = b'./' + p
    elif y < 0.18:
        p = p.replace(b'/', b'//')
    elif y < 0.2:
        p = b'.'
    elif y < 0.3:
        p = b'/proc/self/cwd/' + p
    return p
