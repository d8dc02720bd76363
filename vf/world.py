"""The outside world: system calls as an ordered trace of requests with arbitrary answers.

Symbolic side: each request is appended to the ghost trace of the path; its answer is a symbol named by its position,
so that specification and code, which must issue the same requests, speak about the same answers.
Concrete side (replay): the real code runs against stand-ins that take their answers from a script and log the
requests; the specification consumes the same script, and the logs are compared."""
import struct
import z3
from .tm import *
from .mem import *
from .cast import Unsupported, VOID, BOOL, CHAR, INT, UINT, LONG, ULONG, UCHAR
from .models import model, M, Text, text_eq, _once, _tid, conc_str
from .ex import UNINIT

U16, I16 = ('int', 16, False), ('int', 16, True)


class Data:
    """n bytes handed to the outside world"""

    def __init__(self, c, n):
        self.c, self.n = c, n


def trace(e):
    return e.st.ghost.get('trace', ())


def ask(e, name, *args):
    """record a request; returns its position in the trace"""
    if e.st.log is not None:
        raise Unsupported('outside call %s in a loop' % name)
    t = trace(e)
    e.st.ghost['trace'] = t + ((name,) + tuple(args),)
    return len(t)


def answer(e, k, what, lo, hi):
    """the k-th answer: a number in lo..hi"""
    v = z3.Int('sys!%d!%s' % (k, what))
    if _once(e, ('sys', k, what)):
        e.set_bounds(v, None if sym(lo) else lo, None if sym(hi) else hi)
        if sym(hi):
            e.st.pc.append(zbool(v <= hi))
    return v


def answer_fn(e, k, what, lo=0, hi=255):
    nm = 'sys!%d!%s' % (k, what)
    f = z3.Function(nm, z3.IntSort(), z3.IntSort())
    e.bnd[nm] = (lo, hi)
    return lambda j: f(zint(j))


def cmp_trace(ctx, spec, act):
    """the code issued exactly the specified requests, in order"""
    eng = ctx.eng
    s, a = spec.ghost.get('trace', ()), act.ghost.get('trace', ())
    for k in range(max(len(s), len(a))):
        if k >= len(s) or k >= len(a) or s[k][0] != a[k][0] or len(s[k]) != len(a[k]):
            eng.oblige('sys', 'request %d to the system: specified %s, made %s' % (
                k + 1, s[k][0] if k < len(s) else 'none', a[k][0] if k < len(a) else 'none'), False)
            return
        nm = s[k][0]
        for i, (x, y) in enumerate(zip(s[k][1:], a[k][1:])):
            what = '%s: operand %d is as specified' % (nm, i + 1)
            if isinstance(x, Text):
                eng.oblige('sys', what, text_eq(eng, x, y))
            elif isinstance(x, Data):
                eng.oblige('sys', what + ' (size)', Eq(x.n, y.n))
                ctx.cmp_content(x.c, y.c, x.n, what, cat='sys')
            elif hasattr(x, 'cmp'):
                x.cmp(ctx, y, what)
            else:
                eng.oblige('sys', what, Eq(x, y))


def cmp_log(ctx, act):
    eng = ctx.eng
    got = [x[1:].decode('latin1') for x in act.ghost.get('log', ()) if x[:1] == b'E']
    for k in range(max(len(got), len(eng.spec_log))):
        s, a = (x[k] if k < len(x) else 'none' for x in (eng.spec_log, got))
        eng.oblige('sys', 'request %d to the system: specified <%s>, made <%s>' % (k + 1, s, a), s == a)


# ---------------------------------------------------------------- sockets
def bswap16(x):
    x = Mod(x, 65536)
    return Add(Mul(Mod(x, 256), 256), Div(x, 256))


@model('htons', 'ntohs', '__bswap_16', '__builtin_bswap16')
def m_htons(e, a, rty):
    return I(simp(bswap16(e.int_of(a[0]))), U16)


@model('htonl', 'ntohl', '__bswap_32', '__builtin_bswap32')
def m_htonl(e, a, rty):
    x = e.int_of(a[0])
    hi, lo = Div(x, 65536), Mod(x, 65536)
    return I(simp(Add(Mul(bswap16(lo), 65536), bswap16(hi))), UINT)


def inet_term(e, t):
    """inet_addr of a text"""
    if e.concrete_mode:
        import ctypes
        f = ctypes.CDLL(None).inet_addr
        f.restype, f.argtypes = ctypes.c_uint32, [ctypes.c_char_p]
        return f(t.bytes())
    f = z3.Function('inet!%s' % (t.key,), z3.IntSort(), z3.IntSort(), z3.IntSort())
    v = f(zint(t.off), zint(t.end))
    e.bnd['inet!%s' % (t.key,)] = (0, (1 << 32) - 1)
    return v


@model('inet_addr')
def m_inet_addr(e, a, rty):
    return I(inet_term(e, Text(e, a[0])), UINT)


def region_data(e, p, n):
    r = e.region(p)
    return Data(r if isinstance(r, Content) else Content(r), n)


def sockaddr(e, p, n, what):
    """(family, port, address) of an IPv4 socket address object"""
    n = simp(e.int_of(n))
    p = e.check_ptr(p, n, what)
    e.oblige('sys', what + ': the whole IPv4 address is passed', Eq(n, 16))
    fam, port = e.load(p, U16, what), e.load(p.plus(2), U16, what)
    return fam.t, port.t, e.load(p.plus(4), UINT, what).t


# Each operation: one function used by the code's call (model) and by contracts.
class Sys:
    """requests as the specification states them; answers are terms (symbolic) or numbers (replay)"""

    def __init__(self, e):
        self.e = e

    def _r(self, name, args, lo, hi, pick):
        e = self.e
        if e.concrete_mode:
            r = e.script.pop(0) if e.script else 0
            e.spec_log.append(name + ''.join(' %s' % (x.hex() if isinstance(x, bytes) else x) for x in
                                             [cdata(x) if isinstance(x, Data) else x for x in args]))
            return pick(r), r
        k = ask(e, name, *args)
        return answer(e, k, 'r', lo, hi), k

    def socket(self, dom, ty, proto):
        return self._r('socket', (dom, ty, proto), -1, (1 << 31) - 1, lambda r: -1 if r < 0 else 3 + r % 50)[0]

    def status(self, name, *args):
        """0 or -1"""
        return self._r(name, args, -1, 0, lambda r: -1 if r < 0 else 0)[0]

    def accept(self, fd):
        return self._r('accept', (fd,), -1, (1 << 31) - 1, lambda r: -1 if r < 0 else 60 + r % 50)[0]

    def send(self, name, fd, data, *args):
        return self._r(name, (fd, data) + args, -1, data.n, lambda r: -1 if r < 0 else r % (data.n + 1))[0]

    def recv(self, name, fd, n, flags):
        """(count, byte function, source port, source address)"""
        r, k = self._r(name, (fd, n, flags), -1, n, lambda r: -1 if r < 0 else r % (n + 1))
        e = self.e
        if e.concrete_mode:
            return r, (lambda j: (k + 7 * j + 1) & 255), k & 0xffff, (k * 2654435761) & 0xffffffff
        return r, answer_fn(e, k, 'byte'), answer(e, k, 'port', 0, 65535), answer(e, k, 'addr', 0, (1 << 32) - 1)

    def poll(self, fds, n, timeout):
        """(count, revents function)"""
        r, k = self._r('poll', (fds, n, timeout), -1, n, lambda r: -1 if r < 0 else sum(1 for j in range(n) if revents(r, j)))
        e = self.e
        if e.concrete_mode:
            return r, (lambda j: revents(k, j))
        f = answer_fn(e, k, 'revents', 0, 0x7fff)
        return r, lambda j: If(Eq(r, 0), 0, f(j))


def revents(r, j):
    return [0, 1, 1, 4, 8, 1, 0, 17, 16][(r + 3 * j) % 9] if r >= 0 else 0


def cdata(d):
    """bytes of a concrete Data, pollfd answers excluded"""
    return bytes(d.c(k) & 255 for k in range(d.n) if c_def(d.c, k))


def fds_data(e, p, n):
    """the request part (descriptor, events) of n pollfd records"""
    r = e.region(p)
    return Data(Content(lambda k: r(k), defined=lambda k: Mod(k, 8) < 6), Mul(n, 8))


def set_revents(e, p, n, f):
    b = e.blk(p.bid)
    if b.kind == 'cells':
        if sym(n) or n != 1:
            raise Unsupported('poll of several descriptors in a single object')
        e.store(p.plus(6), I16, I(f(0), I16))
        return
    b = e.mut(p.bid)
    if b.kind != 'bytes':
        raise Unsupported('poll array')
    off, old = p.off, b.content
    e.log('content', b.bid)

    def get(k):
        j = Sub(k, off)
        v = f(Div(j, 8))
        return If(And(j >= 0, j < Mul(n, 8), Mod(j, 8) >= 6), If(Eq(Mod(j, 8), 6), Mod(v, 256), Div(v, 256)), old(k))
    b.content = Content(get, defined=old.defined)


def _i(e, v):
    return e.int_of(v)


@model('socket')
def m_socket(e, a, rty):
    return I(Sys(e).socket(*[_i(e, x) for x in a]), INT)


@model('setsockopt')
def m_setsockopt(e, a, rty):
    n = simp(_i(e, a[4]))
    p = e.check_ptr(a[3], n, 'setsockopt')
    if n != 4:
        raise Unsupported('socket option size')
    return I(Sys(e).status('setsockopt', _i(e, a[0]), _i(e, a[1]), _i(e, a[2]), e.load(p, INT).t), INT)


def _addr_call(name):
    def f(e, a, rty):
        return I(Sys(e).status(name, _i(e, a[0]), *sockaddr(e, a[1], a[2], name)), INT)
    return f


M['bind'], M['connect'] = _addr_call('bind'), _addr_call('connect')
M['listen'] = lambda e, a, rty: I(Sys(e).status('listen', _i(e, a[0]), _i(e, a[1])), INT)
M['close'] = lambda e, a, rty: I(Sys(e).status('close', _i(e, a[0])), INT)
M['shutdown'] = lambda e, a, rty: I(Sys(e).status('shutdown', _i(e, a[0]), _i(e, a[1])), INT)


def src_addr(e, pa, pl, what, port, addr):
    """the system fills in the source address and its length"""
    pa, pl = e.resolve(pa), e.resolve(pl)
    if pa.isnull:
        return
    n = e.load(e.check_ptr(pl, 4, what), UINT).t
    pa = e.check_ptr(pa, n, what, write=True)
    e.oblige('sys', what + ': room for a whole IPv4 address', n >= 16)
    e.store(pa, U16, I(2, U16))
    e.store(pa.plus(2), U16, I(port, U16))
    e.store(pa.plus(4), UINT, I(addr, UINT))
    e.store(pl, UINT, I(16, UINT))


@model('accept')
def m_accept(e, a, rty):
    s = Sys(e)
    k = len(trace(e))
    r = s.accept(_i(e, a[0]))
    src_addr(e, a[1], a[2], 'accept', answer(e, k, 'port', 0, 65535), answer(e, k, 'addr', 0, (1 << 32) - 1))
    return I(r, INT)


@model('send')
def m_send(e, a, rty):
    n = simp(_i(e, a[2]))
    p = e.check_ptr(a[1], n, 'send')
    return I(Sys(e).send('send', _i(e, a[0]), region_data(e, p, n), _i(e, a[3])), LONG)


@model('sendto')
def m_sendto(e, a, rty):
    if e.resolve(a[4]).isnull:
        return m_send(e, a, rty)
    n = simp(_i(e, a[2]))
    p = e.check_ptr(a[1], n, 'sendto')
    return I(Sys(e).send('sendto', _i(e, a[0]), region_data(e, p, n), _i(e, a[3]), *sockaddr(e, a[4], a[5], 'sendto')), LONG)


def put_bytes(e, p, n, f):
    b = e.mut(p.bid)
    if b.kind != 'bytes':
        raise Unsupported('receiving into a scalar')
    e.log('content', b.bid)
    b.content = c_region(b.content, p.off, n, f)


def _recv(name):
    def g(e, a, rty):
        if name == 'recvfrom' and e.resolve(a[4]).isnull:
            return M['recv'](e, a, rty)
        n = simp(_i(e, a[2]))
        p = e.check_ptr(a[1], n, name, write=True)
        r, f, port, addr = Sys(e).recv(name, _i(e, a[0]), n, _i(e, a[3]))
        put_bytes(e, p, Max(r, 0), f)
        if name == 'recvfrom' and not e.resolve(a[4]).isnull and not e.branch(r < 0):
            src_addr(e, a[4], a[5], name, port, addr)
        return I(r, LONG)
    return g


M['recv'], M['recvfrom'] = _recv('recv'), _recv('recvfrom')


@model('poll')
def m_poll(e, a, rty):
    n = simp(_i(e, a[1]))
    p = e.check_ptr(a[0], Mul(n, 8), 'poll', write=True)
    r, f = Sys(e).poll(fds_data(e, p, n), n, _i(e, a[2]))
    if not e.branch(r < 0):
        set_revents(e, p, n, f)
    return I(r, INT)
