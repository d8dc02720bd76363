"""Contracts of container/plist.c: a pointer list is a sequence of len pointers."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from .common import slide_reset, getter
MOD = 'plist'
U64 = (1 << 64) - 1
L = lambda name='p', **kw: Arr('plist', name, **kw)
PT = lambda name='ptr': Ptr(name)


@spec('vt_plist_create', Int(ULONG, 'n'), Alloc(), ret=L(), prop='plist')
def s_create(c, n, al):
    c.exit_if(Eq(n, 0))
    c.requires(Mul(n, 8) <= U64, 'total size representable')
    c.start()
    return c.new_array(al, 0, n, 8, elems=True)


@spec('vt_plist_destroy', L(), prop='plist')
def s_destroy(c, p):
    c.exit_if(p.null)
    c.start()
    p.free_data()
    p.free()


@spec('vt_plist_dup', L(), Alloc(), ret=L(), prop='plist')
def s_dup(c, p, al):
    c.exit_if(p.null)
    c.start()
    r = c.new_array(al, p.len, Max(p.len, 1), 8, elems=True)
    r.put(0, p.len, p.content())
    return r


getter('vt_plist_len', lambda v: v.len, L())
getter('vt_plist_capacity', lambda v: v.capacity, L())
getter('vt_plist_has_space', lambda v: v.capacity - v.len, L())
getter('vt_plist_is_empty', lambda v: Eq(v.len, 0), L())


@spec('vt_plist_reserve', L(), Int(ULONG, 'n'), prop='plist')
def s_reserve(c, p, n):
    c.exit_if(p.null, Eq(n, 0))
    if not p.null:
        c.requires((p.capacity + n) * 8 <= U64, 'total size representable')
    c.start()
    p.grow(Mul(p.capacity + n, 8))
    p.capacity = p.capacity + n


@spec('vt_plist_shrink', L(), prop='plist')
def s_shrink(c, p):
    c.exit_if(p.null)
    c.start()
    n = simp(Max(p.len, 1))
    if c.case(Eq(n, p.capacity)):
        return
    p.grow(Mul(n, 8))
    p.capacity = n


@spec('vt_plist_resize', L(), Int(ULONG, 'n'), prop='plist')
def s_resize(c, p, n):
    c.exit_if(p.null, Eq(n, 0))
    if not p.null:
        c.requires(Mul(n, 8) <= U64, 'total size representable')
    c.start()
    if c.case(Ne(n, p.capacity)):
        p.grow(Mul(n, 8))
        p.capacity = n
    p.len = n


def make_room(c, p):
    if c.case(Eq(p.len, p.capacity)):
        cap = c.any_field(p, 'capacity')
        c.ensure(And(cap > p.len, Mul(cap, 8) <= U64), 'capacity grows')
        p.grow(Mul(cap, 8))
        p.capacity = cap


def push_back(c, p, t):
    make_room(c, p)
    p.put(p.len, 1, lambda j: t)
    p.len = p.len + 1


def insert(c, p, t, at):
    make_room(c, p)
    old = p.content()
    p.put(Add(at, 1), p.len - at, lambda j: old(Add(at, j)))
    p.put(at, 1, lambda j: t)
    p.len = p.len + 1


def val(c, x):
    c.eng.kept_by_list(x.p)
    return c.eng.addr(x.p)


@spec('vt_plist_push_back', L(), PT(), prop='plist')
def s_pb(c, p, x):
    c.exit_if(p.null, x.null)
    c.start()
    push_back(c, p, val(c, x))


@spec('vt_plist_push_front', L(), PT(), prop='plist')
def s_pf(c, p, x):
    c.exit_if(p.null, x.null)
    c.start()
    insert(c, p, val(c, x), 0)


@spec('vt_plist_insert', L(), PT(), Int(ULONG, 'at'), prop='plist')
def s_ins(c, p, x, at):
    c.exit_if(p.null, x.null)
    if not p.null:
        c.exit_if(at >= p.len)
    c.start()
    insert(c, p, val(c, x), at)


@spec('vt_plist_clear', L(), prop='plist')
def s_clear(c, p):
    c.exit_if(p.null)
    c.start()
    p.len = 0


@spec('vt_plist_set', L(), PT(), Int(ULONG, 'at'), prop='plist')
def s_set(c, p, x, at):
    c.exit_if(p.null, x.null)
    if not p.null:
        c.exit_if(at >= p.len)
    c.start()
    t = val(c, x)
    p.put(at, 1, lambda j: t)


def elem(c, p, at):
    return c.eng.load(p.data_ptr.plus(Mul(at, 8)), ('ptr', VOID))


@spec('vt_plist_get', L(), Int(ULONG, 'at'), prop='plist')
def s_get(c, p, at):
    c.exit_if(p.null)
    if not p.null:
        c.exit_if(at >= p.len)
    c.start()
    return elem(c, p, at)


@spec('vt_plist_pop', L(), prop='plist')
def s_pop(c, p):
    c.exit_if(p.null)
    c.start()
    if c.case(p.len > 0):
        p.len = p.len - 1


@spec('vt_plist_pop_get', L(), prop='plist')
def s_pop_get(c, p):
    c.exit_if(p.null)
    c.start()
    if c.case(p.len > 0):
        p.len = p.len - 1
        return elem(c, p, p.len)
    return NULL


def remove(c, p, at, rs):
    en = c.eng.prog.enums
    old = p.content()
    if c.case(Eq(rs, en['VT_REMOVE_STRATEGY_STABLE'])):
        p.put(at, p.len - at - 1, lambda j: old(Add(Add(at, 1), j)))
    else:
        l = p.len - 1
        p.put(at, 1, lambda j: old(l))
    p.len = p.len - 1


@spec('vt_plist_remove', L(), Int(ULONG, 'at'), Int(UINT, 'rs'), prop='plist')
def s_remove(c, p, at, rs):
    c.exit_if(p.null, rs >= c.eng.prog.enums['VT_REMOVE_STRATEGY_COUNT'])
    if not p.null:
        c.exit_if(at >= p.len)
    c.start()
    remove(c, p, at, rs)


def find(c, p, x):
    """index of the first occurrence, else -1"""
    eng = c.eng
    t = val(c, x)
    n, el = p.len, p.content()
    m = lambda k: Eq(el(k), t)
    if eng.concrete_mode:
        w = -1
        for k in range(n):
            if m(k):
                w = k
                break
        return w
    raise AssertionError


@spec('vt_plist_can_find', L(), PT(), prop='plist',
      hints=[scan(lambda c, p, x: None if p.null or x.null else (lambda el, t: lambda k: Ne(el(k), t))(p.content(), val(c, x)))])
def s_can_find(c, p, x):
    c.exit_if(p.null, x.null)
    c.start()
    eng = c.eng
    if eng.concrete_mode:
        return find(c, p, x)
    r = c.any_result()
    t, n, el = val(c, x), p.len, p.content()
    if c.case(r >= 0):
        c.ensure(r < n, 'the index is inside the list')
        c.ensure(Eq(el(r), t), 'the element at the returned index is equal')
        c.ensure_forall(0, r, lambda k: Ne(el(k), t), 'no earlier element is equal')
    else:
        c.ensure(Eq(r, -1), 'not found is -1')
        c.ensure_forall(0, n, lambda k: Ne(el(k), t), 'no element is equal')
    return r


@spec('vt_plist_remove_element', L(), PT(), Int(UINT, 'rs'), prop='plist')
def s_remove_element(c, p, x, rs):
    c.exit_if(p.null, x.null, rs >= c.eng.prog.enums['VT_REMOVE_STRATEGY_COUNT'])
    c.start()
    eng = c.eng
    if eng.concrete_mode:
        w = find(c, p, x)
        if w >= 0:
            remove(c, p, w, rs)
        return
    # the first occurrence, as a function of the content (shared with the callee's contract)
    t, n, el = val(c, x), p.len, p.content()
    w = c.first_index(n, lambda k: Eq(el(k), t))
    if c.case(w >= 0):
        remove(c, p, w, rs)


@spec('vt_plist_slide_front', L(), prop='slide')
def s_sf(c, p):
    c.exit_if(p.null)
    c.start()
    i = p.slider
    if c.case(i < p.len):
        p.slider = Add(i, 1)
        return elem(c, p, i)
    p.slider = 0
    return NULL


@spec('vt_plist_slide_back', L(), prop='slide')
def s_sb(c, p):
    c.exit_if(p.null)
    c.start()
    i = p.slider
    if c.case(i < p.len):
        p.slider = Add(i, 1)
        return elem(c, p, p.len - 1 - i)
    p.slider = 0
    return NULL


spec('vt_plist_slide_reset', L(), prop='slide')(slide_reset)


@spec('vt_plist_apply', L(), Callback('func'), prop='plist')
def s_apply(c, p, f):
    c.exit_if(p.null, f.null)
    c.start()
    el = p.content()
    f.called(p.len, lambda k: [el(k), k])
