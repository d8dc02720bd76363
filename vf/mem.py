"""Values, blocks and states of the verifier's memory model.

A pointer is (block, byte offset).  A block is one of
  cells : fixed-size object, concrete offsets -> typed values (structs, scalars)
  bytes : array of bytes of symbolic size, content = function index -> 0..255
  elems : array of fixed-stride records of symbolic length; per leaf offset a
          function index -> term (pointers as integer addresses)
Terms are python ints/bools or z3 terms (see tm.py).
"""
from .tm import *

MAXOBJ = 1 << 47        # user address space of x86-64: no live object is larger


class I:
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return 'I(%s)' % (self.t,)


class B:
    """a C int/bool whose value is 0/1, kept as a truth value"""
    __slots__ = ('b', 'ty')

    def __init__(self, b, ty):
        self.b = b
        self.ty = ty

    def __repr__(self):
        return 'B(%s)' % (self.b,)


class F:
    """floating point; t is a z3 FP term, an opaque term or a python float"""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return 'F(%s)' % (self.t,)


class P:
    __slots__ = ('bid', 'off', 'addr', 'fn')

    def __init__(self, bid=None, off=0, addr=None, fn=None):
        self.bid = bid
        self.off = off
        self.addr = addr
        self.fn = fn

    @property
    def isnull(self):
        return self.bid is None and self.addr is None and self.fn is None

    def plus(self, d):
        if self.bid is not None:
            return P(self.bid, simp(Add(self.off, d)))
        return P(addr=simp(Add(self.addr if self.addr is not None else 0, d)))

    def __repr__(self):
        if self.fn:
            return 'P(fn %s)' % self.fn
        if self.isnull:
            return 'P(NULL)'
        if self.bid is None:
            return 'P(addr %s)' % (self.addr,)
        return 'P(b%s+%s)' % (self.bid, self.off)


NULL = P()


class S:
    """struct rvalue: leaf offset -> value"""
    __slots__ = ('cells', 'ty')

    def __init__(self, cells, ty):
        self.cells = cells
        self.ty = ty


_ver = [0]


class Content:
    """index -> term.  `ver` identifies the content (unchanged content, same ver)."""
    __slots__ = ('get', 'ver', 'uniform', 'defined', 'pget', 'conc')

    def __init__(self, get, uniform=None, defined=None, pget=None, conc=None):
        self.get = get
        _ver[0] += 1
        self.ver = _ver[0]
        self.uniform = uniform       # 0 for zero-filled, 'junk' for unspecified, else None
        self.defined = defined       # None = everywhere; else predicate index -> bool
        self.pget = pget
        self.conc = conc             # concrete bytes, when known

    def __call__(self, k):
        return self.get(k)


EAGER = [False]      # replay: contents are computed byte by byte at once


def eager(old, off, n, src, d):
    """the new content as bytes, if everything is a known byte"""
    if not EAGER[0] or old.conc is None or type(off) is not int or type(n) is not int or off < 0 or n < 0 or n > 1 << 20:
        return None
    x = [src(k) for k in range(n)]
    if any(type(v) is not int or not 0 <= v <= 255 for v in x):
        return None
    b = bytearray(old.conc)
    if len(b) < off + n:
        b += bytes(off + n - len(b))
    b[off:off + n] = bytes(x)
    c = const_content(b)
    c.defined = d
    return c


def c_def(c, k):
    return True if c.defined is None else c.defined(k)


def c_store(old, off, t):
    d = None if old.defined is None else (lambda k: Or(Eq(k, off), old.defined(k)))
    return eager(old, off, 1, lambda k: t, d) or Content(lambda k: If(Eq(k, off), t, old(k)), defined=d)


def c_region(old, off, n, src, sdef=None):
    """old with [off, off+n) replaced by src(k-off)"""
    d = None
    if old.defined is not None or sdef is not None:
        d = lambda k: If(And(k >= off, k < off + n), True if sdef is None else sdef(Sub(k, off)), c_def(old, k))
    return eager(old, off, n, src, d) or Content(lambda k: If(And(k >= off, k < off + n), src(Sub(k, off)), old(k)), defined=d)


def c_clip(c, n, junk):
    """c below n, unspecified from n on"""
    return Content(lambda k: If(k < n, c(k), junk(k)), defined=lambda k: And(k < n, c_def(c, k)))


def const_content(data):
    data = bytes(data)
    n = len(data)

    def get(k):
        if type(k) is int:
            return data[k] if 0 <= k < n else 0
        k = simp(k)
        if not sym(k):
            return data[k] if 0 <= k < n else 0
        r = 0
        for i in range(n - 1, -1, -1):
            r = If(Eq(k, i), data[i], r)
        return r
    return Content(get, conc=data)


class Block:
    __slots__ = ('bid', 'kind', 'size', 'cells', 'content', 'stride', 'fields', 'alive', 'heap',
                 'owner', 'name', 'const', 'nul', 'base', 'ty', 'initial', 'caddr', 'owner_list')

    def __init__(self, bid, kind, size, name=''):
        self.bid = bid
        self.kind = kind
        self.size = size
        self.cells = None
        self.content = None
        self.stride = None
        self.fields = None      # leaf offset -> (type, Content)
        self.alive = True
        self.heap = False
        self.owner = None       # None: libc; else bid of the allocator it came from
        self.name = name
        self.const = False
        self.nul = ()
        self.base = None
        self.ty = None
        self.initial = False
        self.caddr = None       # concrete address (replay)
        self.owner_list = False  # its address was stored in a pointer list

    def clone(self):
        b = Block(self.bid, self.kind, self.size, self.name)
        for a in ('content', 'stride', 'alive', 'heap', 'owner', 'const', 'nul', 'base', 'ty', 'initial', 'caddr', 'owner_list'):
            setattr(b, a, getattr(self, a))
        b.cells = dict(self.cells) if self.cells is not None else None
        b.fields = dict(self.fields) if self.fields is not None else None
        return b


class State:
    __slots__ = ('pc', 'mem', 'frames', 'ghost', 'glob', 'log')

    def __init__(self):
        self.pc = []
        self.mem = {}
        self.frames = []
        self.ghost = {}
        self.glob = {}
        self.log = None     # write log for loop analysis: set of keys

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.frames = [dict(f) for f in self.frames]
        s.ghost = dict(self.ghost)
        s.glob = dict(self.glob)
        s.log = self.log
        return s
