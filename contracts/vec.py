"""Contracts of container/vec.c: a vector is a sequence of len elements of elsize bytes."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from vf.models import same_bytes, Snap, same_snap
from .common import slide_front, slide_back, slide_reset, getter
MOD = 'vec'
U64 = (1 << 64) - 1
V = lambda name='v', **kw: Arr('vec', name, **kw)
VAL = Buf(lambda a: a[0].elsize if not a[0].null else 0, 'val')


@spec('vt_vec_create', Int(ULONG, 'n'), Int(ULONG, 'elsize'), Alloc(), ret=V(), prop='vec')
def s_create(c, n, es, al):
    c.exit_if(Eq(n, 0), Eq(es, 0))
    c.requires(Mul(n, es) <= U64, 'total size representable')
    c.start()
    return c.new_array(al, 0, n, es)


@spec('vt_vec_destroy', V(), prop='vec')
def s_destroy(c, v):
    c.exit_if(v.null)
    c.start()
    v.free_data()
    v.free()


@spec('vt_vec_dup', V(), Alloc(), ret=V(), prop='vec')
def s_dup(c, v, al):
    c.exit_if(v.null)
    c.start()
    r = c.new_array(al, v.len, Max(v.len, 1), v.elsize)
    r.put(0, Mul(v.len, v.elsize), v.content())
    return r


getter('vt_vec_len', lambda v: v.len, V())
getter('vt_vec_capacity', lambda v: v.capacity, V())
getter('vt_vec_has_space', lambda v: v.capacity - v.len, V())
getter('vt_vec_is_empty', lambda v: Eq(v.len, 0), V())


@spec('vt_vec_shrink', V(), prop='vec')
def s_shrink(c, v):
    c.exit_if(v.null)
    c.start()
    n = simp(Max(v.len, 1))
    if c.case(Eq(n, v.capacity)):
        return
    v.grow(Mul(n, v.elsize))
    v.capacity = n


@spec('vt_vec_clear', V(), prop='vec')
def s_clear(c, v):
    c.exit_if(v.null)
    c.start()
    v.len = 0


@spec('vt_vec_reserve', V(), Int(ULONG, 'n'), prop='vec')
def s_reserve(c, v, n):
    c.exit_if(v.null, Eq(n, 0))
    if not v.null:
        c.requires((v.capacity + n) * v.elsize <= U64, 'total size representable')
    c.start()
    v.grow(Mul(v.capacity + n, v.elsize))
    v.capacity = v.capacity + n


@spec('vt_vec_resize', V(), Int(ULONG, 'n'), prop='vec')
def s_resize(c, v, n):
    c.exit_if(v.null, Eq(n, 0))
    if not v.null:
        c.requires(Mul(n, v.elsize) <= U64, 'total size representable')
    c.start()
    if c.case(Ne(n, v.capacity)):
        v.grow(Mul(n, v.elsize))
        v.capacity = n
    v.len = n


def make_room(c, v):
    """reallocate to a larger capacity iff the vector is full"""
    if c.case(Eq(v.len, v.capacity)):
        cap = c.any_field(v, 'capacity')
        c.ensure(And(cap > v.len, Mul(cap, v.elsize) <= U64), 'capacity grows')
        v.grow(Mul(cap, v.elsize))
        v.capacity = cap


def push_back(c, v, src):
    es = v.elsize
    make_room(c, v)
    v.put(Mul(v.len, es), es, src)
    v.len = v.len + 1


def insert(c, v, src, at):
    es = v.elsize
    make_room(c, v)
    old = v.content()
    a = Mul(at, es)
    v.put(Add(a, es), Mul(v.len - at, es), lambda j: old(Add(a, j)))
    v.put(a, es, src)
    v.len = v.len + 1


@spec('vt_vec_push_back', V(), VAL, prop='vec')
def s_push_back(c, v, val):
    c.exit_if(v.null, val.null)
    c.start()
    push_back(c, v, val.bytes())


@spec('vt_vec_push_front', V(), VAL, prop='vec')
def s_push_front(c, v, val):
    c.exit_if(v.null, val.null)
    c.start()
    insert(c, v, val.bytes(), 0)


@spec('vt_vec_insert', V(), VAL, Int(ULONG, 'at'), prop='vec')
def s_insert(c, v, val, at):
    c.exit_if(v.null, val.null)
    if not v.null:
        c.exit_if(at >= v.len)
    c.start()
    insert(c, v, val.bytes(), at)


@spec('vt_vec_pop', V(), prop='vec')
def s_pop(c, v):
    c.exit_if(v.null)
    c.start()
    if c.case(v.len > 0):
        v.len = v.len - 1


@spec('vt_vec_pop_get', V(), prop='vec')
def s_pop_get(c, v):
    c.exit_if(v.null)
    c.start()
    if c.case(v.len > 0):
        v.len = v.len - 1
        return v.data_ptr.plus(Mul(v.len, v.elsize))
    return NULL


@spec('vt_vec_set', V(), VAL, Int(ULONG, 'at'), prop='vec')
def s_set(c, v, val, at):
    c.exit_if(v.null, val.null)
    if not v.null:
        c.exit_if(at >= v.len)
    c.start()
    v.put(Mul(at, v.elsize), v.elsize, val.bytes())


@spec('vt_vec_get', V(), Int(ULONG, 'at'), prop='vec')
def s_get(c, v, at):
    c.exit_if(v.null)
    if not v.null:
        c.exit_if(at >= v.len)
    c.start()
    return v.data_ptr.plus(Mul(at, v.elsize))


@spec('vt_vec_remove', V(), Int(ULONG, 'at'), Int(UINT, 'rs'), prop='vec')
def s_remove(c, v, at, rs):
    en = c.eng.prog.enums
    c.exit_if(v.null, rs >= en['VT_REMOVE_STRATEGY_COUNT'])
    if not v.null:
        c.exit_if(at >= v.len)
    c.start()
    es = v.elsize
    old = v.content()
    if c.case(Eq(rs, en['VT_REMOVE_STRATEGY_STABLE'])):
        a = Mul(at, es)
        v.put(a, Mul(v.len - at - 1, es), lambda j: old(Add(Add(a, es), j)))
    else:
        l = Mul(v.len - 1, es)
        v.put(Mul(at, es), es, lambda j: old(Add(l, j)))
    v.len = v.len - 1


def find(c, v, src):
    """index of the first equal element, else -1"""
    eng = c.eng
    r = c.any_result()
    n, es = v.len, v.elsize
    d = v.data_ptr
    sd, ss = Snap(eng, d), Snap(eng, src.p)
    m = lambda k: same_snap(eng, sd.plus(Mul(k, es)), ss, es)
    if eng.concrete_mode:
        w = -1
        for k in range(n):
            if m(k):
                w = k
                break
        c.ensure(r == w, 'index of the first equal element')
        return r
    if c.case(r >= 0):
        c.ensure(r < n, 'the index is inside the vector')
        c.ensure(m(r), 'the element at the returned index is equal')
        c.ensure_forall(0, r, lambda k: Not(m(k)), 'no earlier element is equal')
    else:
        c.ensure(Eq(r, -1), 'not found is -1')
        c.ensure_forall(0, n, lambda k: Not(m(k)), 'no element is equal')
    return r


def differs(c, v, val):
    d, es = v.data_ptr, v.elsize
    sd, ss = Snap(c.eng, d), Snap(c.eng, val.p)
    return lambda k: Not(same_snap(c.eng, sd.plus(Mul(k, es)), ss, es))


@spec('vt_vec_can_find', V(), VAL, prop='vec',
      hints=[scan(lambda c, v, val: None if v.null or val.null else differs(c, v, val))])
def s_can_find(c, v, val):
    c.exit_if(v.null, val.null)
    c.start()
    return find(c, v, val)


spec('vt_vec_slide_front', V(), prop='slide')(slide_front)
spec('vt_vec_slide_back', V(), prop='slide')(slide_back)
spec('vt_vec_slide_reset', V(), prop='slide')(slide_reset)


@spec('vt_vec_apply', V(), Callback('func'), prop='vec')
def s_apply(c, v, f):
    c.exit_if(v.null, f.null)
    c.start()
    d, es = v.data_ptr, v.elsize
    f.called(v.len, lambda k: [d.plus(Mul(k, es)), k])


# typed variants ------------------------------------------------------------
TYPES = dict(i8=('int', 8, True), u8=('int', 8, False), i16=('int', 16, True), u16=('int', 16, False),
             i32=('int', 32, True), u32=('int', 32, False), i64=('int', 64, True), u64=('int', 64, False),
             f=FLOAT, d=DOUBLE, r=LDOUBLE)


def val_kind(ty):
    return Flt(ty, 'val') if ty[0] == 'float' else Int(ty, 'val')


def _typed(t, ty):
    n = {32: 4, 64: 8, 80: 16}[ty[1]] if ty[0] == 'float' else ty[1] // 8

    def mk(c, x):
        return c.temp(ty, x)

    def pre(c, v):
        if not v.null:
            c.requires(Eq(v.elsize, n), 'element size matches the type')

    @spec('vt_vec_push_back' + t, V(), val_kind(ty), prop='vec', elsize=n)
    def pb(c, v, x):
        pre(c, v)
        c.exit_if(v.null)
        c.start()
        push_back(c, v, mk(c, x).bytes())

    @spec('vt_vec_push_front' + t, V(), val_kind(ty), prop='vec', elsize=n)
    def pf(c, v, x):
        pre(c, v)
        c.exit_if(v.null)
        c.start()
        insert(c, v, mk(c, x).bytes(), 0)

    @spec('vt_vec_set' + t, V(), val_kind(ty), Int(ULONG, 'at'), prop='vec', elsize=n)
    def st(c, v, x, at):
        pre(c, v)
        c.exit_if(v.null)
        if not v.null:
            c.exit_if(at >= v.len)
        c.start()
        v.put(Mul(at, v.elsize), v.elsize, mk(c, x).bytes())

    @spec('vt_vec_insert' + t, V(), val_kind(ty), Int(ULONG, 'at'), prop='vec', elsize=n)
    def ins(c, v, x, at):
        pre(c, v)
        c.exit_if(v.null)
        if not v.null:
            c.exit_if(at >= v.len)
        c.start()
        insert(c, v, mk(c, x).bytes(), at)

    @spec('vt_vec_get' + t, V(), Int(ULONG, 'at'), prop='vec', elsize=n)
    def gt(c, v, at):
        pre(c, v)
        c.exit_if(v.null)
        if not v.null:
            c.exit_if(at >= v.len)
        c.start()
        return c.eng.load(v.data_ptr.plus(Mul(at, v.elsize)), ty)

    @spec('vt_vec_pop_get' + t, V(), prop='vec', elsize=n)
    def pg(c, v):
        pre(c, v)
        c.exit_if(v.null)
        c.start()
        if c.case(v.len > 0):
            v.len = v.len - 1
            return c.eng.load(v.data_ptr.plus(Mul(v.len, v.elsize)), ty)
        return c.eng.zero_of(ty)

    @spec('vt_vec_can_find' + t, V(), val_kind(ty), prop='vec', elsize=n)
    def cf(c, v, x):
        pre(c, v)
        c.exit_if(v.null)
        c.start()
        return find(c, v, mk(c, x))


for _t, _ty in TYPES.items():
    _typed(_t, _ty)
