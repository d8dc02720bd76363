"""Assumed contracts of libc and of the allocator interface (the trusted base)."""
import z3
from .tm import *
from .mem import *
from .cast import Unsupported, VOID, BOOL, CHAR, INT, UINT, LONG, ULONG, UCHAR
from .ex import ExitEx, Infeasible, UNINIT, FP_SORT

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


# ---- process termination
@model('exit', 'abort', '_exit', '__assert_fail')
def m_exit(e, a, rty):
    raise ExitEx('exit')


# ---- heap
@model('malloc')
def m_malloc(e, a, rty):
    n = e.int_of(a[0])
    if e.branch(e.fresh_bool('malloc_fails')):
        e.st.ghost['oom'] = True
        return NULL
    return e.heap_alloc(n, False)


@model('calloc')
def m_calloc(e, a, rty):
    n = Mul(e.int_of(a[0]), e.int_of(a[1]))
    if e.branch(e.fresh_bool('calloc_fails')):
        e.st.ghost['oom'] = True
        return NULL
    return e.heap_alloc(n, True)


@model('realloc')
def m_realloc(e, a, rty):
    p, n = e.resolve(a[0]), e.int_of(a[1])
    if p.isnull:
        return m_malloc(e, [a[1]], rty)
    if e.branch(e.fresh_bool('realloc_fails')):
        e.st.ghost['oom'] = True
        return NULL
    return e.heap_realloc(p, n)


@model('free')
def m_free(e, a, rty):
    p = e.resolve(a[0])
    if p.isnull:
        return None
    e.heap_free(p)
    return None


# ---- the allocator interface stored in struct VitaBaseAllocatorType
def _alloctr(e, v, what):
    p = e.resolve(v)
    if p.bid is None or not e.blk(p.bid).alive:
        e.oblige('mem', what + ' through an invalid allocator', False)
    return p


@model('@alloc')
def m_aalloc(e, a, rty):
    p = _alloctr(e, a[0], 'allocation')
    n = e.int_of(a[1])
    if e.branch(n <= 0 if sym(n) else n <= 0):
        raise ExitEx('allocator rejects zero bytes')
    return e.heap_alloc(n, True, p.bid)


@model('@realloc')
def m_arealloc(e, a, rty):
    p = _alloctr(e, a[0], 'reallocation')
    q = e.resolve(a[1])
    n = e.int_of(a[2])
    if q.isnull:
        raise ExitEx('allocator rejects NULL')
    if e.branch(n <= 0 if sym(n) else n <= 0):
        raise ExitEx('allocator rejects zero bytes')
    return e.heap_realloc(q, n, p.bid)


@model('@free')
def m_afree(e, a, rty):
    p = _alloctr(e, a[0], 'free')
    q = e.resolve(a[1])
    if q.isnull:
        raise ExitEx('allocator rejects NULL')
    e.heap_free(q, p.bid)
    return None


# ---- floating point
@model('fabs', 'fabsf', 'fabsl', '__builtin_fabs', '__builtin_fabsf')
def m_fabs(e, a, rty):
    return F(z3.fpAbs(a[0].t), a[0].ty)


# ---- memory
@model('memcpy')
def m_memcpy(e, a, rty):
    e.copy(a[0], a[1], e.int_of(a[2]), 'memcpy', overlap_ok=False)
    return a[0]


@model('memmove')
def m_memmove(e, a, rty):
    e.copy(a[0], a[1], e.int_of(a[2]), 'memmove')
    return a[0]


@model('memset')
def m_memset(e, a, rty):
    e.fill(a[0], e.int_of(a[1]), e.int_of(a[2]), 'memset')
    return a[0]


def region_key(e, p):
    b = e.blk(p.bid)
    if b.kind == 'bytes':
        if b.content.conc is not None and len(b.content.conc) <= 64:
            return 'k' + b.content.conc.hex()
        return ('c', b.content.ver)
    return ('o', tuple(sorted((o, repr(v[1])) for o, v in (b.cells or {}).items())))


def same_bytes(e, p, q, n):
    """truth value of: the n bytes at p and q are equal.  One predicate symbol per pair of
    contents, so that specification and code speak about the same predicate."""
    return same_snap(e, Snap(e, p), Snap(e, q), n)


class Snap:
    """the bytes behind a pointer as they are now"""

    def __init__(self, e, p, off=None):
        self.key, self.r, self.off = region_key(e, p), e.region(P(p.bid, 0)), p.off

    def plus(self, k):
        x = Snap.__new__(Snap)
        x.key, x.r, x.off = self.key, self.r, Add(self.off, k)
        return x


def same_snap(e, p, q, n):
    kp, kq, rp, rq = p.key, q.key, p.r, q.r
    n, po, qo = simp(n), simp(p.off), simp(q.off)
    if not sym(n) and (e.concrete_mode or n <= 16):
        return And(*[Eq(rp(po + j), rq(qo + j)) for j in range(n)])
    f = z3.Function('same!%s!%s' % (kp, kq), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    t = f(zint(po), zint(qo), zint(n))
    e.impure += 1
    w = z3.Function('diff!%s!%s' % (kp, kq), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())(zint(po), zint(qo), zint(n))
    key = ('same', t.get_id())
    seen = e.st.ghost.get('same_seen', ())
    if t.get_id() not in seen:
        e.st.ghost['same_seen'] = seen + (t.get_id(),)
        e.keep.append(t)
        j = z3.Int(e.name('qj'))
        e.st.pc.append(z3.Or(t, zbool(And(w >= 0, w < n, Ne(rp(Add(po, w)), rq(Add(qo, w)))))))
        e.st.pc.append(z3.Implies(t, z3.ForAll([j], zbool(Implies(And(j >= 0, j < n), Eq(rp(Add(po, j)), rq(Add(qo, j))))))))
    return t


@model('memcmp')
def m_memcmp(e, a, rty):
    n = e.int_of(a[2])
    p = e.check_ptr(a[0], n, 'memcmp')
    q = e.check_ptr(a[1], n, 'memcmp')
    eq = same_bytes(e, p, q, n)
    if isinstance(eq, bool) and eq:
        return I(0, INT)
    r = e.fresh_int('memcmp', INT)
    e.assume(Iff(eq, Eq(r, 0)))
    return I(r, INT)


# ---- strings
def far_len(e, p):
    """length of the C string an element of the caller's table points to"""
    a = e.addr(p)
    e.oblige('mem', 'strlen of NULL', Ne(a, 0))
    n = FARLEN(zint(a))
    e.assume(And(n >= 0, n < MAXOBJ))
    return n


FARLEN = z3.Function('len_of_text_at', z3.IntSort(), z3.IntSort())


def strlen_term(e, p):
    """strlen(p) as a term, with the obligation that the string is terminated"""
    p = e.resolve(p)
    if p.bid is None:
        if p.isnull:
            e.oblige('mem', 'strlen of NULL', False)
        if e.opts.get('cstr_elems'):
            return far_len(e, p)
        raise Unsupported('strlen of unknown pointer')
    b = e.blk(p.bid)
    if not b.alive:
        e.oblige('mem', 'use after free: string', False)
    off = simp(p.off)
    if b.kind == 'cells':
        raise Unsupported('strlen of a scalar')
    if b.kind != 'bytes':
        raise Unsupported('strlen of a record array')
    c = b.content
    if not sym(off) and (e.concrete_mode or c.conc is not None) and not sym(simp(b.size)):
        k = off
        size = simp(b.size)
        while k < size and c(k) != 0:
            k += 1
        if k >= size:
            e.oblige('mem', 'string is terminated', False)
        return k - off
    key = 'strlen:%s:%s' % (c.ver, off if not sym(off) else off.sexpr())
    if key in e.st.ghost:
        return e.st.ghost[key]
    if c.uniform == 0 and not isinstance(c.uniform, str):
        e.oblige('mem', 'string is NUL-terminated inside its object', off < b.size)
        return 0
    wit = None
    for w in reversed(b.nul):
        g = And(w >= off, w < b.size, Eq(simp(c(w)), 0))
        if e.valid(g):
            wit = w
            break
    if wit is None:
        last = b.nul[-1] if b.nul else Sub(b.size, 1)
        t = simp(c(last))
        e.byte_fact(t)
        e.oblige('mem', 'string is NUL-terminated inside its object', And(last >= off, last < b.size, Eq(t, 0)))
        wit = last
    n = e.fresh_int('strlen', None, 0, MAXOBJ)
    e.assume(n <= Sub(wit, off))
    t = simp(c(Add(off, n)))
    e.byte_fact(t)
    e.assume(Eq(t, 0))
    q = z3.Int(e.name('q'))
    body = c(q)
    if sym(body):
        e.st.pc.append(z3.ForAll([q], zbool(Implies(And(q >= off, q < Add(off, n)), Ne(body, 0)))))
    # the common case: the string is exactly as long as the witness says
    if e.valid(Eq(n, Sub(wit, off))):
        n = simp(Sub(wit, off))
    e.st.ghost[key] = n
    return n


@model('strlen')
def m_strlen(e, a, rty):
    return I(strlen_term(e, a[0]), ULONG)


@model('strnlen')
def m_strnlen(e, a, rty):
    p = e.resolve(a[0])
    m = e.int_of(a[1])
    if p.bid is None and not p.isnull and e.opts.get('cstr_elems'):
        return I(simp(Min(far_len(e, p), m)), ULONG)
    b = e.blk(p.bid)
    if b.kind != 'bytes':
        raise Unsupported('strnlen')
    c = b.content
    off = simp(p.off)
    if not b.alive:
        e.oblige('mem', 'use after free: strnlen', False)
    # scanned bytes: up to min(m, first NUL): it suffices that m bytes are readable or a NUL comes first
    ok = e.valid(off + m <= b.size)
    if not ok:
        n0 = strlen_term(e, p)
    n = e.fresh_int('strnlen', None, 0, MAXOBJ)
    e.assume(n <= m)
    t = simp(c(Add(off, n)))
    e.byte_fact(t)
    e.assume(Or(Eq(n, m), Eq(t, 0)))
    q = z3.Int(e.name('q'))
    if sym(c(q)):
        e.st.pc.append(z3.ForAll([q], zbool(Implies(And(q >= off, q < Add(off, n)), Ne(c(q), 0)))))
    return I(n, ULONG)


def conc_str(e, p):
    """bytes of a fully known string, else None"""
    p = e.resolve(p)
    if p.bid is None:
        return None
    b = e.blk(p.bid)
    off = simp(p.off)
    if b.kind != 'bytes' or sym(off) or sym(simp(b.size)):
        return None
    if b.content.conc is None and not e.concrete_mode:
        return None
    out = bytearray()
    for k in range(off, simp(b.size)):
        x = b.content(k)
        if x == 0:
            return bytes(out)
        out.append(x)
    return None


# ---- searching: one function symbol per pair of contents, shared by specification and code
class Text:
    """a C string as it is now: key, bytes, start offset, length"""

    def __init__(self, e, p):
        p = e.resolve(p)
        self.len = strlen_term(e, p)
        b = e.blk(p.bid)
        self.p, self.off = p, simp(p.off)
        self.key, self.c = region_key(e, p), b.content
        self.end = simp(Add(self.off, self.len))

    def snap(self, e):
        x = Snap.__new__(Snap)
        x.key, x.r, x.off = self.key, self.c, self.off
        return x

    def bytes(self):
        # contents are immutable: compute once
        k = (id(self.c), self.off, self.len)
        hit = self.__dict__.get('_bytes')
        if hit is None or hit[0] != k:
            d = self.c.conc
            if d is not None and 0 <= self.off and self.off + self.len <= len(d):
                t = d[self.off:self.off + self.len]
            else:
                t = bytes(self.c(self.off + j) for j in range(self.len))
            self._bytes = hit = (k, t)
        return hit[1]

    def at(self, k):
        """the same text from absolute offset k on (inside the text)"""
        x = Text.__new__(Text)
        x.__dict__.update(self.__dict__)
        x.off = simp(k)
        x.p = P(self.p.bid, x.off)
        x.len = simp(Sub(self.end, k))
        return x


def _once(e, key):
    e.impure += 1
    k = ('memo',) + key
    if k in e.st.ghost:
        return False
    e.st.ghost[k] = True
    return True


def _tid(t):
    return t if not sym(t) else t.sexpr()


def find_fns(h, n):
    I_ = z3.IntSort()
    nm = '%s!%s' % (h.key, n.key)
    return tuple(z3.Function('%s!%s' % (f, nm), I_, I_, I_, I_) for f in ('find', 'count', 'lastfind'))


def find_term(e, h, n):
    """absolute offset of the first occurrence of text n in text h, or -1"""
    if e.concrete_mode or (h.c.conc is not None and n.c.conc is not None and not sym(h.off) and not sym(n.off)):
        k = h.bytes().find(n.bytes())
        return -1 if k < 0 else h.off + k
    F_, C_, L_ = find_fns(h, n)
    m, k, no = n.len, h.off, n.off
    w = F_(zint(k), zint(no), zint(h.end))
    if not _once(e, ('find', str(F_), _tid(k), _tid(no), _tid(h.end))):
        return w
    e.bnd['find!%s!%s' % (h.key, n.key)] = (-1, MAXOBJ)
    e.bnd['count!%s!%s' % (h.key, n.key)] = (0, MAXOBJ)
    e.bnd['lastfind!%s!%s' % (h.key, n.key)] = (-1, MAXOBJ)
    hs, ns = h.snap(e), n.snap(e)

    def same(j):
        x = Snap.__new__(Snap)
        x.key, x.r, x.off = hs.key, hs.r, j
        return same_snap(e, x, ns, m)
    e.assume(Or(Eq(w, -1), And(w >= k, Add(w, m) <= h.end, same(w))))
    e.assume(Implies(Eq(m, 0), Eq(w, k)))
    e.assume(Implies(h.len < m, Eq(w, -1)))
    j = z3.Int(e.name('qj'))
    lim = If(w >= 0, w, Add(Sub(h.end, m), 1))
    if sym(m) or m > 16:
        f = z3.Function('same!%s!%s' % (h.key, n.key), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        t = f(j, zint(no), zint(m))
        e.st.pc.append(z3.ForAll([j], zbool(Implies(And(j >= k, j < lim), Not(t))), patterns=[t]))
    elif m > 0:
        e.st.pc.append(z3.ForAll([j], zbool(Implies(And(j >= k, j < lim), Not(same(j))))))
    nx = Add(w, m)
    cn, ln = C_(zint(nx), zint(no), zint(h.end)), L_(zint(nx), zint(no), zint(h.end))
    e.assume(Implies(m > 0, And(cn >= 0, Eq(C_(zint(k), zint(no), zint(h.end)), If(w < 0, 0, Add(cn, 1))))))
    e.assume(Implies(m > 0, Eq(L_(zint(k), zint(no), zint(h.end)), If(w < 0, -1, If(ln < 0, w, ln)))))
    return w


def count_term(e, h, n):
    """number of occurrences found by scanning from left to right without overlap"""
    if e.concrete_mode:
        return h.bytes().count(n.bytes()) if n.len else 0
    find_term(e, h, n)
    return find_fns(h, n)[1](zint(h.off), zint(n.off), zint(h.end))


def last_term(e, h, n):
    """absolute offset of the last occurrence of that scan, or -1 (n not empty)"""
    if e.concrete_mode:
        b, x, w, k = h.bytes(), n.bytes(), -1, 0
        while x and b.find(x, k) >= 0:
            w = b.find(x, k)
            k = w + len(x)
        return w if w < 0 else h.off + w
    find_term(e, h, n)
    return find_fns(h, n)[2](zint(h.off), zint(n.off), zint(h.end))


@model('strstr')
def m_strstr(e, a, rty):
    h, n = Text(e, a[0]), Text(e, a[1])
    w = find_term(e, h, n)
    if e.branch(w < 0):
        return NULL
    return P(h.p.bid, w)


def chr_term(e, h, ch, last=False):
    """absolute offset of the first (last) byte ch in the string (terminator included), or -1"""
    ch = simp(Mod(ch, 256)) if sym(ch) else ch & 255
    if not sym(ch) and (e.concrete_mode or (h.c.conc is not None and not sym(h.off))):
        t = h.bytes() + b'\0'
        k = t.rfind(bytes([ch])) if last else t.find(bytes([ch]))
        return -1 if k < 0 else h.off + k
    nm = '%s!%s' % ('lchr' if last else 'chr', h.key)
    f = z3.Function(nm, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    k = h.off
    w = f(zint(k), zint(ch), zint(h.end))
    if not _once(e, ('chr', nm, _tid(k), _tid(ch), _tid(h.end))):
        return w
    e.bnd[nm] = (-1, MAXOBJ)
    x = simp(h.c(w))
    e.byte_fact(x)
    e.assume(Or(Eq(w, -1), And(w >= k, w <= h.end, Eq(x, ch))))
    if not last:
        e.assume(Implies(Eq(ch, 0), Eq(w, h.end)))
    j = z3.Int(e.name('qj'))
    if last:
        r = And(j > w, j >= k, j <= h.end)
    else:
        r = And(j >= k, j < If(w >= 0, w, Add(h.end, 1)))
    e.st.pc.append(z3.ForAll([j], zbool(Implies(r, Ne(h.c(j), ch)))))
    e.add_index(w)
    return w


def _chr(last):
    def f(e, a, rty):
        h = Text(e, a[0])
        w = chr_term(e, h, e.int_of(a[1]), last)
        if e.branch(w < 0):
            return NULL
        return P(h.p.bid, w)
    return f


M['strchr'] = _chr(False)
M['strrchr'] = _chr(True)


def text_eq(e, x, y, n=None):
    """the two texts are equal (in their first n characters)"""
    if n is None:
        return And(Eq(x.len, y.len), same_snap(e, x.snap(e), y.snap(e), x.len))
    return And(Eq(Min(n, x.len), Min(n, y.len)), same_snap(e, x.snap(e), y.snap(e), simp(Min(n, x.len))))


def _cmp(e, eq):
    if isinstance(eq, bool) and eq:
        return I(0, INT)
    r = e.fresh_int('strcmp', INT)
    e.assume(Iff(eq, Eq(r, 0)))
    return I(r, INT)


@model('strcmp')
def m_strcmp(e, a, rty):
    return _cmp(e, text_eq(e, Text(e, a[0]), Text(e, a[1])))


@model('strncmp')
def m_strncmp(e, a, rty):
    n = e.int_of(a[2])
    x, y = Text(e, a[0]), Text(e, a[1])
    k = simp(Min(n, x.len))
    if sym(k) and e.valid(n <= x.len):
        k = n
    eq = And(Eq(k, Min(n, y.len)), same_snap(e, x.snap(e), y.snap(e), k))
    return _cmp(e, eq)


# ---- formatted output.  The text of one (format, argument list) pair is an uninterpreted
# string without embedded NUL; formatting it again gives the same text.
class Fmt:
    def __init__(self, e, fmt, vid):
        t = fmt if isinstance(fmt, Text) else Text(e, fmt)
        k = 'fmt!%s!%s!%s' % (t.key, _tid(t.off), vid)
        self.fails = z3.Bool(k + '!fails')
        self.len = z3.Int(k + '!len')
        f = z3.Function(k + '!text', z3.IntSort(), z3.IntSort())
        if _once(e, ('fmt', k)):
            e.set_bounds(self.len, 0, (1 << 31) - 1)
            e.bnd[k + '!text'] = (0, 255)
            q = z3.Int(e.name('q'))
            e.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < self.len), f(q) != 0), patterns=[f(q)]))
        self.key = k
        self.text = lambda j: f(zint(j))


def va_use(e, v, what):
    p = e.resolve(v)
    st = e.st.ghost.get('va:%s' % p.bid)
    e.oblige('mem', what + ' reads an argument list that is started and not yet consumed', st is not None and st[0] == 'fresh')
    e.st.ghost['va:%s' % p.bid] = ('used', st[1])
    e.log('ghost', 'va:%s' % p.bid)
    return st[1]


@model('__builtin_va_start')
def m_va_start(e, a, rty):
    p = e.resolve(a[0])
    e.st.ghost['va:%s' % p.bid] = ('fresh', len(e.callstack))
    return None


@model('__builtin_va_copy')
def m_va_copy(e, a, rty):
    d, s = e.resolve(a[0]), e.resolve(a[1])
    st = e.st.ghost.get('va:%s' % s.bid)
    e.oblige('mem', 'va_copy of a started argument list', st is not None and st[0] != 'ended')
    e.st.ghost['va:%s' % d.bid] = st
    return None


@model('__builtin_va_end')
def m_va_end(e, a, rty):
    p = e.resolve(a[0])
    e.st.ghost['va:%s' % p.bid] = ('ended', 0)
    return None


def fmt_write(e, dst, f, size, what):
    """write min(len, size-1) characters and the terminator"""
    n = simp(If(f.len < size, f.len, Sub(size, 1))) if size is not None else f.len
    if size is not None and not sym(simp(size)) and simp(size) == 0:
        return
    if size is not None and sym(size) and e.branch(Eq(size, 0)):
        return
    if size is not None and e.valid(f.len < size):
        n = f.len
    p = e.check_ptr(dst, simp(Add(n, 1)), what, write=True)
    b = e.mut(p.bid)
    if b.kind != 'bytes':
        raise Unsupported(what + ' into a scalar')
    e.log('content', b.bid)
    off = p.off
    b.content = c_region(b.content, off, Add(n, 1), lambda j: If(j < n, f.text(j), 0))
    b.nul = tuple(b.nul)[-5:] + (simp(Add(off, n)),)


def str_put(e, dst, off, src, n, total, what):
    """bytes [0, n) of src at dst+off, zeros up to `total`"""
    d, q = e.resolve(dst), e.resolve(src)
    if d.bid == q.bid:
        raise Unsupported(what + ' within one object')
    d = e.check_ptr(d.plus(off) if d.bid is not None else d, total, what, write=True)
    b, c, so = e.mut(d.bid), e.blk(q.bid).content, q.off
    if b.kind != 'bytes':
        raise Unsupported(what + ' into a scalar')
    e.log('content', b.bid)
    b.content = c_region(b.content, d.off, total, lambda j: If(j < n, c(Add(so, j)), 0))
    return d, b


@model('strncpy')
def m_strncpy(e, a, rty):
    l, m = strlen_term(e, a[1]), simp(e.int_of(a[2]))
    n = simp(Min(l, m))
    d, b = str_put(e, a[0], 0, a[1], n, m, 'strncpy')
    if e.valid(l < m):
        b.nul = tuple(b.nul)[-5:] + (simp(Add(d.off, l)),)
    return a[0]


@model('strcpy')
def m_strcpy(e, a, rty):
    l = strlen_term(e, a[1])
    d, b = str_put(e, a[0], 0, a[1], l, Add(l, 1), 'strcpy')
    b.nul = tuple(b.nul)[-5:] + (simp(Add(d.off, l)),)
    return a[0]


@model('strncat', 'strcat')
def m_strncat(e, a, rty):
    at, l = strlen_term(e, a[0]), strlen_term(e, a[1])
    n = simp(Min(l, e.int_of(a[2]))) if len(a) > 2 else l
    if len(a) > 2 and e.valid(l <= e.int_of(a[2])):
        n = l
    d, b = str_put(e, a[0], at, a[1], n, Add(n, 1), 'strncat')
    b.nul = tuple(b.nul)[-5:] + (simp(Add(d.off, n)),)
    return a[0]


@model('vsnprintf')
def m_vsnprintf(e, a, rty):
    vid = va_use(e, a[3], 'vsnprintf')
    f = Fmt(e, a[2], vid)
    if e.branch(f.fails):
        return I(-1, INT)
    size = simp(e.int_of(a[1]))
    fmt_write(e, a[0], f, size, 'vsnprintf')
    return I(f.len, INT)


@model('vsprintf')
def m_vsprintf(e, a, rty):
    vid = va_use(e, a[2], 'vsprintf')
    f = Fmt(e, a[1], vid)
    if e.branch(f.fails):
        return I(-1, INT)
    fmt_write(e, a[0], f, None, 'vsprintf')
    return I(f.len, INT)


# ---- ctype ("C" locale)
def is_space(c):
    return Or(Eq(c, 32), And(c >= 9, c <= 13))


def is_digit(c):
    return And(c >= 48, c <= 57)


def is_upper(c):
    return And(c >= 65, c <= 90)


def is_lower(c):
    return And(c >= 97, c <= 122)


def is_alpha(c):
    return Or(is_upper(c), is_lower(c))


def is_punct(c):
    return Or(And(c >= 33, c <= 47), And(c >= 58, c <= 64), And(c >= 91, c <= 96), And(c >= 123, c <= 126))


def to_upper(c):
    return If(is_lower(c), c - 32, c)


def to_lower(c):
    return If(is_upper(c), c + 32, c)


for _n, _p in (('isspace', is_space), ('isdigit', is_digit), ('isalpha', is_alpha), ('ispunct', is_punct),
               ('isupper', is_upper), ('islower', is_lower),
               ('isalnum', lambda c: Or(is_alpha(c), is_digit(c)))):
    def _mk(pred):
        def f(e, a, rty):
            return B(pred(e.int_of(a[0])), INT)
        return f
    M[_n] = _mk(_p)
M['toupper'] = lambda e, a, rty: I(simp(to_upper(e.int_of(a[0]))), INT)
M['tolower'] = lambda e, a, rty: I(simp(to_lower(e.int_of(a[0]))), INT)


# ---- diagnostics
@model('vt_debug_assert')
def m_dbg_assert(e, a, rty):
    if e.branch(e.truth(a[0])):
        return None
    if e.branch(e.truth(a[3])):
        raise ExitEx('assertion')
    return None


@model('vt_debug_printf', 'printf', 'fprintf', 'puts', 'fflush', 'vfprintf', 'vprintf', 'perror', 'putchar', 'fputs', 'fputc')
def m_print(e, a, rty):
    if rty == INT:
        return I(e.fresh_int('printed', INT), INT)
    return None


# ---- user callback: records the call in ghost state, changes nothing
@model('@callback')
def m_callback(e, a, rty):
    g = e.st.ghost
    n = g.get('cb_n', 0)
    rec = dict(g.get('cb_args') or {})
    for i, v in enumerate(a):
        t = e.addr(v) if isinstance(v, P) else e.int_of(v)
        old = rec.get(i)
        rec[i] = (lambda old, t: (lambda k: If(Eq(k, n), t, old(k)) if old else t))(old, t)
    g['cb_args'] = rec
    g['cb_n'] = simp(Add(n, 1))
    e.log('ghost', 'cb_n')
    e.log('ghost', 'cb_args')
    return None


# ---- numbers and text.  The decimal text of a value is a function of the value alone; the value read from a text
# is a function of the text.
class Dec:
    """text of an integer ('d') or floating-point ('f64', 'f80') value as printf writes it"""

    def __init__(self, e, kind, v):
        self.kind, self.v = kind, v
        if e.concrete_mode:
            t = dec_bytes(kind, v)
            self.len = len(t)
            self.text = lambda j: t[j] if 0 <= j < len(t) else 0
            return
        srt = z3.IntSort() if kind == 'd' else FP_SORT[int(kind[1:])]
        v = zint(v) if kind == 'd' else v
        ln = z3.Function('declen!' + kind, srt, z3.IntSort())
        ch = z3.Function('dectext!' + kind, srt, z3.IntSort(), z3.IntSort())
        self.len = ln(v)
        e.bnd['declen!' + kind] = (1, 20 if kind == 'd' else 5000)
        e.bnd['dectext!' + kind] = (0, 255)
        self.text = lambda j: ch(v, zint(j))
        if _once(e, ('dec', kind, _tid(v))):
            e.st.pc += [self.len >= 1, self.len <= (20 if kind == 'd' else 5000)]
            q = z3.Int(e.name('q'))
            e.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < self.len), ch(v, q) != 0), patterns=[ch(v, q)]))


def dec_bytes(kind, v):
    import ctypes
    from .contract import fval
    if kind == 'd':
        return b'%d' % v
    if kind == 'f64':
        import numpy as np
        x = float(fval(v))
        return (b'%f' % x) if x == x and abs(x) != float('inf') else (b'nan' if x != x else (b'inf' if x > 0 else b'-inf'))
    buf = ctypes.create_string_buffer(6000)
    x = ctypes.c_longdouble.from_buffer_copy(bytes(v[:10]).ljust(16, b'\0'))
    ctypes.CDLL(None).snprintf(buf, ctypes.c_size_t(6000), b'%Lf', x)
    return buf.value


def fmt_number(e, fmt, v):
    """the text of a single-number format, else None"""
    import re
    m = re.fullmatch(rb'%(hh|h|l|ll|j|z|t|)([dui])', fmt)
    if m and isinstance(v, (I, B)):
        w = {b'hh': 8, b'h': 16, b'': 32}.get(m[1], 64)
        lo, hi = (0, (1 << w) - 1) if m[2] == b'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        t = e.int_of(v)
        if not e.valid(And(t >= lo, t <= hi)):
            t = simp(Mod(t, 1 << w))
            if m[2] != b'u':
                t = If(t > hi, t - (1 << w), t)
        return Dec(e, 'd', t)
    if fmt in (b'%f', b'%lf') and isinstance(v, F) and v.ty[1] == 64:
        return Dec(e, 'f64', v.t)
    if fmt == b'%Lf' and isinstance(v, F) and v.ty[1] == 80:
        return Dec(e, 'f80', v.t)
    return None


@model('snprintf')
def m_snprintf(e, a, rty):
    fmt = conc_str(e, a[2])
    f = fmt_number(e, fmt, a[3]) if fmt is not None and len(a) == 4 else None
    if f is None:
        raise Unsupported('snprintf format')
    size = simp(e.int_of(a[1]))
    p = e.resolve(a[0])
    if not (p.isnull and not sym(size) and size == 0):
        fmt_write(e, a[0], f, size, 'snprintf')
    return I(f.len, INT)


def num_value(e, t, signed=True):
    """the value of the decimal number at the start of a text (unbounded)"""
    if e.concrete_mode:
        import re
        m = re.match(rb'[ \t\n\v\f\r]*([+-]?)(\d+)', t.bytes())
        return (-1 if m[1] == b'-' else 1) * int(m[2]) if m else 0
    f = z3.Function('number!%s' % (t.key,), z3.IntSort(), z3.IntSort(), z3.IntSort())
    v = f(zint(t.off), zint(t.end))
    if _once(e, ('number', str(f), _tid(t.off), _tid(t.end))):
        # a text without a sign has no negative value
        q = z3.Int(e.name('q'))
        e.assume(Implies(t.len > 0, zbool(Implies(z3.ForAll([q], zbool(Implies(And(q >= t.off, q < t.end), Ne(t.c(q), 45)))), v >= 0))))
        e.assume(Implies(Eq(t.len, 0), Eq(v, 0)))
    return v


def _strto(signed):
    def f(e, a, rty):
        t = Text(e, a[0])
        base = e.int_of(a[2])
        if sym(base) or base != 10:
            raise Unsupported('strtol base')
        if not e.resolve(a[1]).isnull:
            raise Unsupported('strtol end pointer')
        v = num_value(e, t)
        lo, hi = (-(1 << 63), (1 << 63) - 1) if signed else (0, (1 << 64) - 1)
        if not e.valid(And(v >= lo, v <= hi)):
            if not signed and not e.valid(v >= 0):
                raise Unsupported('strtoul of negative text')
            v = If(v < lo, lo, If(v > hi, hi, v))
        return I(v, rty)
    return f


for _n in ('strtol', 'strtoll', '__isoc23_strtol', '__isoc23_strtoll'):
    M[_n] = _strto(True)
for _n in ('strtoul', 'strtoull', '__isoc23_strtoul', '__isoc23_strtoull'):
    M[_n] = _strto(False)


def real_value(e, t, w):
    """the floating-point value of a text"""
    if e.concrete_mode:
        import ctypes
        c = ctypes.CDLL(None)
        fn, ty, n = {32: (c.strtof, ctypes.c_float, 4), 64: (c.strtod, ctypes.c_double, 8), 80: (c.strtold, ctypes.c_longdouble, 10)}[w]
        fn.restype = ty
        fn.argtypes = [ctypes.c_char_p, ctypes.c_void_p]
        x = fn(t.bytes(), None)
        if w == 80:
            import struct
            b = _ld_bytes(t.bytes())
            return b
        return bytes(ty(x))[:n]
    f = z3.Function('real%d!%s' % (w, t.key), z3.IntSort(), z3.IntSort(), FP_SORT[w])
    return f(zint(t.off), zint(t.end))


def _ld_bytes(text):
    import numpy as np, re
    m = re.match(rb'\d*\.?\d*', text)
    s = m[0].decode()
    x = np.longdouble(s) if any(ch.isdigit() for ch in s) else np.longdouble(0)
    return x.tobytes()[:10] + bytes(6)


def _strtof(w):
    def f(e, a, rty):
        t = Text(e, a[0])
        if not e.resolve(a[1]).isnull:
            raise Unsupported('strtod end pointer')
        return F(real_value(e, t, w), ('float', w))
    return f


M['strtof'], M['strtod'], M['strtold'] = _strtof(32), _strtof(64), _strtof(80)
M['atoi'] = lambda e, a, rty: I(num_value(e, Text(e, a[0])), rty)
