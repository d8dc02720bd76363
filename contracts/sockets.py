"""Contracts of network/sockets.c: which requests are made of the system, and what is reported back."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from vf.world import Data, region_data, put_bytes, bswap16, inet_term, fds_data, set_revents
MOD = 'sockets'
ADDR = ('struct', 'VitaSocketAddress')
U16 = ('int', 16, False)
I16 = ('int', 16, True)
AF_INET, SOCK_STREAM, SOCK_DGRAM, SOL_SOCKET, SO_REUSEADDR, POLLIN = 2, 1, 2, 1, 2, 1
ERR = dict(options=-1, bind=-2, listen=-3, connect=-4, send=-5, receive=-6, poll=-7)
FD = Int(LONG, 'fd', lo=0, hi=(1 << 31) - 1)


def script(g):
    return [g.rng.choice([-1, 0, 1, 2, 3, 4, 5, 6, 7, g.rng.randrange(1 << 40)]) for _ in range(8)]


class AddrVal(Kind):
    """struct VitaSocketAddress by value"""

    def __init__(self, name='address'):
        self.name = name

    def setup(self, ctx, i):
        p, a = z3.Int(self.name + '_port'), z3.Int(self.name + '_addr')
        ctx.eng.set_bounds(p, 0, 65535)
        ctx.eng.set_bounds(a, 0, (1 << 32) - 1)
        return S({0: I(p, U16), 4: I(a, UINT)}, ADDR)

    def view(self, ctx, val):
        cs = val.cells if isinstance(val, S) else {o: v for o, (t, v) in ctx.eng.blk(val.bid).cells.items()}
        return cs[0].t, cs[4].t

    def gen(self, ctx, i, g):
        b = ctx.eng.alloc_type(ADDR, self.name, 'zero', bid='arg:' + self.name)
        b.initial = True
        b.cells[0] = (U16, I(g.int(self.name + '_port', 0, 65535), U16))
        b.cells[4] = (UINT, I(g.int(self.name + '_addr', 0, (1 << 32) - 1), UINT))
        return P(b.bid, 0)


def sspec(name, *kinds, **kw):
    return spec(name, *kinds, prop='socket', script=script, **kw)


@sspec(['vt_socket_init', 'vt_socket_quit'])
def s_init(c):
    c.start()
    return True


@sspec('vt_socket_make_address', Int(I16, 'port'), CStr('address', alpha=b'0123456789..1'), va=[Out(ADDR, 'res', null=False)])
def s_make(c, port, z):
    c.exit_if(z.null)
    c.start()
    return c.ret_struct(S({0: I(simp(bswap16(port)), U16), 4: I(inet_term(c.eng, c.text(z)), UINT)}, ADDR))


KIND = Int(UINT, 'type', pick=[1, 2])


@sspec('vt_socket_startup_server', KIND, Int(INT, 'port', pick=[0, 80, 8080, 65535, 65536, -1]), Int(INT, 'backlog'))
def s_server(c, ty, port, backlog):
    c.requires(Or(Eq(ty, SOCK_STREAM), Eq(ty, SOCK_DGRAM)), 'a known socket type')
    c.start()
    s = c.sys
    fd = s.socket(AF_INET, ty, 0)
    if c.case(fd < 0):
        return -1
    if c.case(s.status('setsockopt', fd, SOL_SOCKET, SO_REUSEADDR, 1) < 0):
        s.status('close', fd)
        return ERR['options']
    if c.case(s.status('bind', fd, AF_INET, bswap16(port), 0) < 0):
        s.status('close', fd)
        return ERR['bind']
    if c.case(Eq(ty, SOCK_STREAM)) and c.case(s.status('listen', fd, backlog) < 0):
        s.status('close', fd)
        return ERR['listen']
    return fd


@sspec('vt_socket_startup_client', KIND, AddrVal())
def s_client(c, ty, address):
    c.requires(Or(Eq(ty, SOCK_STREAM), Eq(ty, SOCK_DGRAM)), 'a known socket type')
    c.start()
    s = c.sys
    fd = s.socket(AF_INET, ty, 0)
    if c.case(fd < 0):
        return -1
    if c.case(s.status('connect', fd, AF_INET, address[0], address[1]) < 0):
        s.status('close', fd)
        return ERR['connect']
    return fd


@sspec('vt_socket_accept_client', FD)
def s_accept(c, fd):
    c.start()
    return c.sys.accept(fd)


@sspec('vt_socket_close', FD)
def s_close(c, fd):
    c.start()
    return Eq(c.sys.status('close', fd), 0)


LEN = Int(ULONG, 'data_len', hi=(1 << 31) - 1, pick=[0, 1, 2, 3, 5, 8, 100])
BUF = Buf(lambda a: a[2], 'data_buf', null=False)
MAXLEN = 'at most INT32_MAX bytes per call'


def sent(c, r):
    return If(r < 0, ERR['send'], r)


@sspec('vt_socket_send', FD, BUF, LEN)
def s_send(c, fd, buf, n):
    c.requires(n <= (1 << 31) - 1, MAXLEN)
    c.start()
    return sent(c, c.sys.send('send', fd, region_data(c.eng, buf.p, n), 0))


@sspec('vt_socket_send_to', FD, AddrVal(), Buf(lambda a: a[3], 'data_buf', null=False), LEN)
def s_send_to(c, fd, address, buf, n):
    c.requires(n <= (1 << 31) - 1, MAXLEN)
    c.start()
    return sent(c, c.sys.send('sendto', fd, region_data(c.eng, buf.p, n), 0, AF_INET, address[0], address[1]))


def received(c, buf, r, f):
    if c.case(r < 0):
        return ERR['receive']
    put_bytes(c.eng, buf.p, r, f)
    return r


@sspec('vt_socket_receive', FD, BUF, LEN)
def s_receive(c, fd, buf, n):
    c.requires(n <= (1 << 31) - 1, MAXLEN)
    c.start()
    r, f, _p, _a = c.sys.recv('recv', fd, n, 0)
    return received(c, buf, r, f)


def from_(c, fd, out, buf, n):
    r, f, port, addr = c.sys.recv('recvfrom', fd, n, 0)
    if c.case(r < 0):
        return ERR['receive']
    b = c.eng.mut(out.p.bid)
    b.cells[0], b.cells[4] = (U16, I(port, U16)), (UINT, I(addr, UINT))
    put_bytes(c.eng, buf.p, r, f)
    return r


@sspec('vt_socket_receive_from', FD, Out(ADDR, 'address', null=False), Buf(lambda a: a[3], 'data_buf', null=False), LEN)
def s_receive_from(c, fd, out, buf, n):
    c.requires(n <= (1 << 31) - 1, MAXLEN)
    c.start()
    return from_(c, fd, out, buf, n)


def to_int(x):
    """uint32_t -> int"""
    return If(x >= 1 << 31, x - (1 << 32), x)


@sspec('vt_socket_poll', Buf(lambda a: Mul(a[1], 8), 'pfd', null=False), Int(ULONG, 'pfd_size', hi=1 << 20, pick=[0, 1, 2, 3, 7]), Int(UINT, 'timeout'))
def s_poll(c, fds, n, timeout):
    c.requires(n <= 1 << 20, 'a representable number of descriptors')
    c.start()
    r, f = c.sys.poll(fds_data(c.eng, fds.p, n), n, to_int(timeout))
    if c.case(r < 0):
        return ERR['poll']
    set_revents(c.eng, fds.p, n, f)
    return r


def polled(c, fd, timeout):
    """(failed, ready): one descriptor is polled for input"""
    req = Data(Content(lambda k: If(k < 4, byte(fd, k), If(Eq(k, 4), POLLIN, 0)), defined=lambda k: Mod(k, 8) < 6), 8)
    r, f = c.sys.poll(req, 1, to_int(timeout))
    return r < 0, And(r > 0, Eq(Mod(f(0), 2), 1))


def byte(x, k):
    r = 0
    for j in range(3, -1, -1):
        r = If(Eq(k, j), Mod(Div(x, 256 ** j), 256), r)
    return r


@sspec('vt_socket_receive_timed', FD, BUF, LEN, Int(UINT, 'timeout'))
def s_timed(c, fd, buf, n, timeout):
    c.requires(n <= (1 << 31) - 1, MAXLEN)
    c.start()
    bad, ready = polled(c, fd, timeout)
    if c.case(bad):
        return ERR['poll']
    if not c.case(ready):
        return 0
    r, f, _p, _a = c.sys.recv('recv', fd, n, 0)
    return received(c, buf, r, f)


@sspec('vt_socket_receive_timed_from', FD, Out(ADDR, 'address', null=False), Buf(lambda a: a[3], 'data_buf', null=False), LEN, Int(UINT, 'timeout'))
def s_timed_from(c, fd, out, buf, n, timeout):
    c.requires(n <= (1 << 31) - 1, MAXLEN)
    c.start()
    bad, ready = polled(c, fd, timeout)
    if c.case(bad):
        return ERR['poll']
    if not c.case(ready):
        return 0
    return from_(c, fd, out, buf, n)
