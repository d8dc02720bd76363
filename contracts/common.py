"""Contracts of container/common.c (shared by vec, plist, str, span)."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
MOD = 'common'
U64 = (1 << 64) - 1


def anyarr(name='v', **kw):
    kw.setdefault('view', 'maybe')
    return Arr('any', name, **kw)


@spec('vt_array_new', Alloc(), prop='array')
def s_new(c, al):
    c.start()
    eng = c.eng
    b = eng.alloc_type(ARR, 'container', 'zero')
    b.heap = True
    b.owner = al.bid
    eng.log('alloc', b.bid)
    v = AV(c, P(b.bid, 0))
    v.setp('alloctr', al)
    return v.p


@spec('vt_array_free', Arr('any', 'v', noinv=True), prop='array')
def s_afree(c, v):
    c.exit_if(v.null)
    c.start()
    v.free()


def getter(name, f, kind=None, **kw):
    @spec(name, kind or anyarr(), prop='array', **kw)
    def g(c, v):
        c.exit_if(v.null)
        c.start()
        return f(v)


getter('vt_array_head', lambda v: v.data_ptr)
getter('vt_array_len', lambda v: v.len)
getter('vt_array_capacity', lambda v: v.capacity)
getter('vt_array_has_space', lambda v: Mod(v.capacity - v.len, 1 << 64))
getter('vt_array_elsize', lambda v: v.elsize)
getter('vt_array_has_alloctr', lambda v: not v.alloctr.isnull)


SPAN = Arr('span', 'v', view='maybe', alloc=False)


@spec('vt_array_get', SPAN, Int(ULONG, 'at'), prop='array')
def s_aget(c, v, at):
    c.exit_if(v.null)
    if not v.null:
        c.exit_if(at >= v.len)
    c.start()
    return v.data_ptr.plus(Mul(at, v.elsize))


@spec('vt_array_set', SPAN, Buf(lambda a: a[0].elsize if not a[0].null else 0, 'val'), Int(ULONG, 'at'), prop='array')
def s_aset(c, v, val, at):
    c.exit_if(v.null, val.null)
    if not v.null:
        c.exit_if(at >= v.len)
    c.start()
    v.put(Mul(at, v.elsize), v.elsize, val.bytes())


def slide_front(c, v):
    c.exit_if(v.null)
    c.start()
    i = v.slider
    if c.case(i < v.len):
        v.slider = Add(i, 1)
        return v.data_ptr.plus(Mul(i, v.elsize))
    v.slider = 0
    return NULL


def slide_back(c, v):
    c.exit_if(v.null)
    c.start()
    i = v.slider
    if c.case(i < v.len):
        v.slider = Add(i, 1)
        return v.data_ptr.plus(Mul(v.len - 1 - i, v.elsize))
    v.slider = 0
    return NULL


def slide_reset(c, v):
    c.exit_if(v.null)
    c.start()
    v.slider = 0


spec('vt_array_slide_front', anyarr(), prop='slide')(slide_front)
spec('vt_array_slide_back', anyarr(), prop='slide')(slide_back)
spec('vt_array_slide_reset', anyarr(), prop='slide')(slide_reset)


@spec('vt_index_2d_to_1d', Int(ULONG, 'row'), Int(ULONG, 'col'), Int(ULONG, 'ncols'), prop='index')
def s_21(c, row, col, ncols):
    c.requires(ncols * row + col <= U64, 'the flat index is representable')
    c.start()
    return ncols * row + col


O = ULONG


@spec('vt_index_1d_to_2d', Out(O, 'row'), Out(O, 'col'), Int(ULONG, 'idx'), Int(ULONG, 'ncols'), prop='index')
def s_12(c, row, col, idx, ncols):
    c.requires(ncols >= 1, 'at least one column')
    c.exit_if(row.null, col.null)
    c.start()
    r, k = c.any_out(row, O), c.any_out(col, O)
    # the unique decomposition: flattening gives idx back and the column is in range
    c.ensure(Eq(ncols * r + k, idx), 'flattening (row, col) gives the index back')
    c.ensure(And(k >= 0, k < ncols, r >= 0), 'column within the row')


@spec('vt_index_3d_to_1d', Int(ULONG, 'row'), Int(ULONG, 'col'), Int(ULONG, 'depth'), Int(ULONG, 'nrows'), Int(ULONG, 'ncols'), prop='index')
def s_31(c, row, col, depth, nrows, ncols):
    c.requires(depth * ncols * nrows + row * ncols + col <= U64, 'the flat index is representable')
    c.requires(And(row < nrows, col < ncols), 'row and column in range')
    c.start()
    return depth * ncols * nrows + row * ncols + col


@spec('vt_index_1d_to_3d', Out(O, 'row'), Out(O, 'col'), Out(O, 'depth'), Int(ULONG, 'idx'), Int(ULONG, 'nrows'), Int(ULONG, 'ncols'), prop='index')
def s_13(c, row, col, depth, idx, nrows, ncols):
    c.requires(And(ncols >= 1, nrows >= 1), 'at least one row and column')
    c.requires(nrows * ncols <= U64, 'plane size representable')
    c.exit_if(row.null, col.null, depth.null)
    c.start()
    r, k, d = c.any_out(row, O), c.any_out(col, O), c.any_out(depth, O)
    c.ensure(Eq(d * ncols * nrows + r * ncols + k, idx), 'flattening (row, col, depth) gives the index back')
    c.ensure(And(k >= 0, k < ncols), 'column in range')
    c.ensure(And(r >= 0, r < nrows), 'row in range')
