"""Contracts of system/fileio.c: what is read is what the file holds, what is written is what was asked for, success is
reported only if it happened, and every opened file is closed."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from vf import fs
from .str import new_str, FMTS, FV
MOD = 'fileio'


class PathArg(CStr):
    """a path; replay picks it in relation to the generated directory tree"""

    def __init__(self, name='z', often_null=0.04, long=0.0, **kw):
        super().__init__(name, **kw)
        self.long = long
        self.often_null = often_null

    def gen(self, ctx, i, g):
        from vf.concrete import cblock
        if self.nullable and g.flag(self.name + '_is_null', self.often_null):
            return NULL
        t = fs.gen_path(g)
        if self.long and g.rng.random() < self.long:
            t = b'./' * 2047 + g.rng.choice([b'', b'a', b'b', b'ab', b'abc', b'a.b'])
        b = cblock(ctx.eng, self.name, 'cstr:' + self.name, t + b'\0')
        return P(b.bid, 0)


Path = lambda name='z', **kw: PathArg(name, **kw)


def reader(name):
    @spec(name, Path('filename'), Alloc(), prop='fileio', fs=True)
    def f(c, z, al):
        c.exit_if(z.null)
        c.start()
        t = c.text(z)
        if not c.case(c.fs.readable(t)):
            return NULL
        n = c.fs.size(t)
        m, data = c.fs.data(t)
        if c.case(m < n):
            return NULL
        return new_str(c, al, n, simp(Max(n, 1)), data)


reader('vt_file_read')
reader('vt_file_readb')


@spec('vt_file_read_to_buffer', Path('filename'), Buf(lambda a: a[2], 'buffer'), Int(ULONG, 'n'), prop='fileio', fs=True)
def read_to_buffer(c, z, buf, n):
    c.exit_if(z.null, buf.null, Eq(n, 0))
    c.start()
    t = c.text(z)
    if not c.case(c.fs.readable(t)):
        return NULL
    m, data = c.fs.data(t)
    want = simp(Min(n, c.fs.size(t)))
    if c.case(m < want):
        c.limit(buf, 0, n)
        return NULL
    buf.write(want, data)
    return buf


def writer(name, mode, ln, binary=False):
    @spec(name, Path('filename'), CStr('buffer', pick=[b'', b'hello', b'%s%d', b'a\nb\n'] + [b'x' * 5000]), prop='fileio', fs=True, opts={'disk': True})
    def f(c, z, b):
        c.exit_if(z.null, b.null)
        c.start()
        return c.fs.write(c.text(z), mode, [fs.Piece(c.eng, c.text(b))] + [c.fs.lit(b'\n')] * ln)


for _b in ('', 'b'):
    for _l in ('', 'ln'):
        writer('vt_file_write' + _b + _l, 'w', int(_l != ''))
        writer('vt_file_append' + _b + _l, 'a', int(_l != ''))

FARG = dict(va=FV, varargs=True, prop='fileio', fs=True, opts={'disk': True})


def _tramp(fn, args):
    return 'bool x = %s(%s, *(int *)&a[%d], *(char **)&a[%d]); memcpy(r, &x, sizeof x);' % (fn, ', '.join(
        '*(%s *)&a[%d]' % (t, i) for i, t in enumerate(args)), len(args), len(args) + 1)


def writerf(name, ln):
    @spec(name, Path('filename'), CStr('fmt', pick=FMTS, only=True), tramp=_tramp(name, ['char *', 'char *']), **FARG)
    def f(c, z, fmt):
        c.exit_if(z.null, fmt.null)
        c.start()
        return c.fs.write(c.text(z), 'w', c.fs.pieces(fmt) + [c.fs.lit(b'\n')] * ln)


writerf('vt_file_writef', 0)
writerf('vt_file_writefln', 1)


@spec('vt_file_writefc', Path('filename'), Int(BOOL, 'binary'), Int(BOOL, 'app'), Int(BOOL, 'ln'), CStr('fmt', pick=FMTS, only=True),
      tramp=_tramp('vt_file_writefc', ['char *', 'bool', 'bool', 'bool', 'char *']), **FARG)
def writefc(c, z, binary, app, ln, fmt):
    c.exit_if(z.null, fmt.null)
    c.start()
    mode = 'a' if c.case(app) else 'w'
    return c.fs.write(c.text(z), mode, c.fs.pieces(fmt) + ([c.fs.lit(b'\n')] if c.case(ln) else []))
