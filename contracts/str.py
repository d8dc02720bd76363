"""Contracts of container/str.c: a string is len characters followed by a terminator; a view is a
string over memory it does not own (is_view), which must never be resized or freed."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from vf.models import (same_snap, Text, find_term, count_term, last_term, chr_term, text_eq, Fmt,
                       is_space, is_punct, is_digit, to_upper, to_lower)
from .common import slide_front, slide_back, slide_reset, getter
from . import plist as PL
MOD = 'str'
U64 = (1 << 64) - 1
Z = lambda name='z', **kw: CStr(name, **kw)


def S_(name='s', **kw):
    kw.setdefault('view', 'maybe')
    return Arr('str', name, **kw)


RET = Arr('str', 'ret', view='maybe')


def st(c, n):
    return c.eng.prog.enums[n]


OK = lambda c: st(c, 'VT_STATUS_OPERATION_SUCCESS')


def new_str(c, al, n, cap, src):
    v = c.new_array(al, n, cap, 1, tail=1)
    v.tail = 1
    v.put(0, n, src)
    v.end(n)
    return v


def room(c, s, need):
    """reallocate iff the text no longer fits"""
    if c.case(need > s.capacity):
        cap = c.any_field(s, 'capacity', hi=MAXOBJ)
        c.ensure(cap >= need, 'capacity suffices')
        s.grow(Add(cap, 1))
        s.capacity = cap


def append(c, s, n, src):
    room(c, s, Add(s.len, n))
    s.put(s.len, n, src)
    s.end(Add(s.len, n))


def insert(c, s, at, n, src):
    room(c, s, Add(s.len, n))
    old = s.content()
    ln = s.len
    s.put(Add(at, n), Sub(ln, at), lambda j: old(Add(at, j)))
    s.put(at, n, src)
    s.end(Add(ln, n))


def remove(c, s, at, n):
    old = s.content()
    ln = s.len
    s.put(at, Sub(Sub(ln, at), n), lambda j: old(Add(Add(at, n), j)))
    s.end(Sub(ln, n))


# ---------------------------------------------------------------- creation
@spec('vt_str_create_static', Z('z'), prop='strbase', rty=ARR,
      tramp='vt_str_t x = vt_str_create_static(*(char **)&a[0]); memcpy(*(void **)&a[1], &x, sizeof x);', va=[Out(ARR, 'res', null=False)])
def s_static(c, z):
    c.exit_if(z.null)
    c.start()
    r = S({0: I(z.len, ULONG), 8: I(0, ULONG), 16: I(1, ULONG), 24: I(0, ULONG), 32: B(True, BOOL), 40: z.p, 48: NULL}, ARR)
    if c.eng.concrete_mode:
        b = c.eng.mut(c.extra[0].p.bid)
        for o, v in r.cells.items():
            b.cells[o] = (b.cells[o][0], v)
        return None
    return r


@spec('vt_str_create', Z('z'), Alloc(), ret=RET, prop='strbase')
def s_create(c, z, al):
    c.exit_if(z.null)
    c.start()
    n = z.len
    return new_str(c, al, n, simp(Max(n, 1)), z.chars())


@spec('vt_str_create_len', Int(ULONG, 'n'), Alloc(), ret=RET, prop='strbase')
def s_create_len(c, n, al):
    c.requires(n < U64, 'size representable')
    c.exit_if(Eq(n, 0))
    c.start()
    return new_str(c, al, n, n, lambda j: 63)


@spec('vt_str_create_capacity', Int(ULONG, 'n'), Alloc(), ret=RET, prop='strbase')
def s_create_cap(c, n, al):
    c.requires(n < U64, 'size representable')
    c.exit_if(Eq(n, 0))
    c.start()
    return new_str(c, al, 0, n, lambda j: 0)


@spec('vt_str_destroy', S_(text=False), prop='strbase')
def s_destroy(c, s):
    c.exit_if(s.null)
    c.start()
    if not c.case(s.is_view):
        s.free_data()
        s.free()


@spec('vt_str_dup', S_(), ret=RET, prop='strbase')
def s_dup(c, s):
    c.exit_if(s.null)
    c.start()
    return new_str(c, s.alloctr, s.len, simp(Max(s.len, 1)), s.content())


@spec('vt_str_take_ownership', OwnedStr('z'), AllocOf(0), ret=RET, prop='strbase')
def s_take(c, z, al):
    c.exit_if(z.null)
    c.start()
    eng = c.eng
    ob = eng.alloc_type(ARR, 'container', 'zero')
    ob.heap, ob.owner = True, al.bid
    eng.log('alloc', ob.bid)
    v = AV(c, P(ob.bid, 0), tail=1)
    v.setp('ptr', z.p)
    for f in ('len', 'capacity'):
        v.set(f, z.len)
    v.set('elsize', 1)
    v.setp('alloctr', al)
    return v


getter('vt_str_z', lambda v: v.data_ptr, S_(text=False))
getter('vt_str_len', lambda v: v.len, S_(text=False))
getter('vt_str_capacity', lambda v: v.capacity, S_(text=False))
getter('vt_str_has_space', lambda v: Mod(Sub(v.capacity, v.len), 1 << 64), S_(text=False))
getter('vt_str_is_empty', lambda v: Eq(v.len, 0), S_(text=False))


@spec('vt_str_validate_len', S_(view=False, text=False), prop='strbase')
def s_validate(c, s):
    c.exit_if(s.null)
    c.start()
    t = s.content()
    w = c.first_index(s.capacity, lambda k: Eq(t(k), 0))
    n = simp(If(w >= 0, w, s.capacity))
    s.end(n)
    return n


@spec('vt_str_shrink', S_(), prop='strbase')
def s_shrink(c, s):
    c.exit_if(s.null)
    if not s.null:
        c.exit_if(s.is_view)
    c.start()
    if c.case(Ne(s.len, s.capacity)):
        s.grow(Add(s.len, 1))
        s.capacity = s.len
        s.end(s.len)


@spec('vt_str_clear', S_(), prop='strbase')
def s_clear(c, s):
    c.exit_if(s.null)
    c.start()
    s.end(0)


@spec('vt_str_reserve', S_(), Int(ULONG, 'n'), prop='strbase')
def s_reserve(c, s, n):
    c.exit_if(s.null, Eq(n, 0))
    if not s.null:
        c.exit_if(s.is_view)
        c.requires(Add(Add(s.capacity, n), 1) <= U64, 'size representable')
    c.start()
    cap = simp(Add(s.capacity, n))
    s.grow(Add(cap, 1))
    s.capacity = cap
    s.end(s.len)


@spec('vt_str_resize', S_(), Int(ULONG, 'n'), prop='strbase')
def s_resize(c, s, n):
    c.exit_if(s.null, Eq(n, 0))
    if not s.null:
        c.exit_if(s.is_view)
    c.requires(n < U64, 'size representable')
    c.start()
    ln = simp(Min(n, s.len))
    s.grow(Add(n, 1))
    s.capacity = n
    s.end(ln)


# ---------------------------------------------------------------- editing
@spec('vt_str_set', S_(), Z('z', apart=0), prop='stredit')
def s_set(c, s, z):
    c.exit_if(s.null, z.null)
    if not s.null and not z.null:
        c.exit_if(z.len > s.len)
    c.start()
    s.put(0, z.len, z.chars())
    s.end(z.len)


@spec('vt_str_set_at', S_(), Z('z', apart=0), Int(ULONG, 'at'), prop='stredit')
def s_set_at(c, s, z, at):
    c.exit_if(s.null, z.null)
    if not s.null and not z.null:
        c.exit_if(at >= s.len, z.len > s.len - at, And(s.is_view, z.len > 0))
    c.start()
    s.put(at, z.len, z.chars())
    s.end(Add(at, z.len))
    return OK(c)


@spec('vt_str_set_c', S_(), Int(CHAR, 'c'), Int(ULONG, 'at'), prop='stredit')
def s_set_c(c, s, ch, at):
    c.requires(Ne(ch, 0), 'not the terminator')
    c.exit_if(s.null)
    if not s.null:
        c.exit_if(at >= s.len)
    c.start()
    b = simp(Mod(ch, 256))
    s.put(at, 1, lambda j: b)
    return OK(c)


@spec('vt_str_set_n', S_(), Chars(lambda a: a[2], 'z', apart=0), Int(ULONG, 'n'), prop='stredit')
def s_set_n(c, s, z, n):
    c.exit_if(s.null, z.null, Eq(n, 0))
    if not s.null:
        c.exit_if(n > s.len)
    c.start()
    s.put(0, n, z.bytes())
    s.end(n)


@spec('vt_str_append', S_(), Z('z', apart=0), prop='stredit')
def s_append(c, s, z):
    c.exit_if(s.null, z.null)
    if not s.null and not z.null:
        c.exit_if(And(s.is_view, z.len > 0))
    c.start()
    if c.case(z.len > 0):
        append(c, s, z.len, z.chars())


@spec('vt_str_append_n', S_(), Chars(lambda a: a[2], 'z', apart=0), Int(ULONG, 'n'), prop='stredit')
def s_append_n(c, s, z, n):
    c.exit_if(s.null, z.null, Eq(n, 0))
    if not s.null:
        c.exit_if(s.is_view)
    c.start()
    append(c, s, n, z.bytes())


@spec('vt_str_insert', S_(), Z('z', apart=0), Int(ULONG, 'at'), prop='stredit')
def s_insert(c, s, z, at):
    c.exit_if(s.null, z.null)
    if not s.null:
        c.exit_if(at >= s.len, s.is_view)
    c.start()
    insert(c, s, at, z.len, z.chars())


@spec('vt_str_insert_n', S_(), Chars(lambda a: a[3], 'z', apart=0), Int(ULONG, 'at'), Int(ULONG, 'n'), prop='stredit')
def s_insert_n(c, s, z, at, n):
    c.exit_if(s.null, z.null, Eq(n, 0))
    if not s.null:
        c.exit_if(at > s.len, s.is_view)
    c.start()
    insert(c, s, at, n, z.bytes())


FV = [Int(INT, 'x'), CStr('w', null=False)]
FMTS = [b'%d', b'%d%s', b'n=%d', b'abc', b'%d:%s;', b'%03d|%s|', b'%%', b'%x %s', b'%5d', b'%-4dx%s',
        b'%500d', b'%1021d', b'%1022d', b'%1023d', b'%1100d%s', b'']


def _formats():
    """more formats: texts around an integer and a string conversion"""
    import random
    r = random.Random(7)

    def lit():
        ab = r.choice([b'ab', b'a b', b' ', b'/a.', b'a.b', b'\n\t', b'xyz0-'])
        return bytes(r.choice(ab) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5, 9, 30])))
    out = []
    for _ in range(160):
        f = lit()
        k = r.randrange(4)
        if k:
            f += r.choice([b'%d', b'%d', b'%4d', b'%x', b'%05d']) + lit()
            if k > 1:
                f += b'%s' + lit()
        out.append(f)
    return out


FMTS = FMTS + _formats()


@spec('vt_str_appendf', S_(), Z('fmt', pick=FMTS, only=True, apart=0), prop='stredit', va=FV, varargs=True,
      tramp='enum VitaStatus x = vt_str_appendf(*(vt_str_t **)&a[0], *(char **)&a[1], *(int *)&a[2], *(char **)&a[3]); memcpy(r, &x, sizeof x);')
def s_appendf(c, s, fmt):
    c.exit_if(s.null, fmt.null)
    if not s.null:
        c.exit_if(s.is_view)
    c.start()
    f = c.fmt(fmt)
    if c.case(f.fails):
        return st(c, 'VT_STATUS_OPERATION_FAILURE')
    append(c, s, f.len, f.text)
    return OK(c)


@spec('vt_str_insertf', S_(), Int(ULONG, 'at'), Z('fmt', pick=FMTS, only=True, apart=0), prop='stredit', va=FV, varargs=True,
      tramp='enum VitaStatus x = vt_str_insertf(*(vt_str_t **)&a[0], *(size_t *)&a[1], *(char **)&a[2], *(int *)&a[3], *(char **)&a[4]); memcpy(r, &x, sizeof x);')
def s_insertf(c, s, at, fmt):
    c.exit_if(s.null, fmt.null)
    if not s.null and not fmt.null:
        f = c.fmt(fmt)
        c.exit_if(And(Not(f.fails), Or(at >= s.len, s.is_view)))
    c.start()
    if c.case(f.fails):
        return st(c, 'VT_STATUS_OPERATION_FAILURE')
    insert(c, s, at, f.len, f.text)
    return OK(c)


def W(c, s, z):
    """index of the first occurrence of z in s, or -1"""
    return find_term(c.eng, c.text(s), c.text(z))


@spec('vt_str_insert_before', S_(), Z('sub', sub=True, apart=0), Z('z', apart=0), prop='stredit')
def s_ins_before(c, s, sub, z):
    c.exit_if(s.null, sub.null, z.null)
    if not (s.null or sub.null or z.null):
        w = W(c, s, sub)
        c.exit_if(sub.len > s.len, And(w >= 0, Or(s.is_view, w >= s.len)))
    c.start()
    if c.case(w >= 0):
        insert(c, s, w, z.len, z.chars())


@spec('vt_str_insert_after', S_(), Z('sub', sub=True, apart=0), Z('z', apart=0), prop='stredit')
def s_ins_after(c, s, sub, z):
    c.exit_if(s.null, sub.null, z.null)
    if not (s.null or sub.null or z.null):
        w = W(c, s, sub)
        at = simp(Add(w, sub.len))
        c.exit_if(sub.len > s.len, And(w >= 0, s.is_view, Or(at < s.len, z.len > 0)))
    c.start()
    if c.case(And(w >= 0, Or(z.len > 0, at < s.len))):
        insert(c, s, at, z.len, z.chars())


@spec('vt_str_remove', S_(), Int(ULONG, 'from'), Int(ULONG, 'n'), prop='stredit')
def s_remove(c, s, at, n):
    c.exit_if(s.null, Eq(n, 0))
    if not s.null:
        c.exit_if(at >= s.len)
    c.start()
    remove(c, s, at, simp(Min(n, s.len - at)))


# ---------------------------------------------------------------- removing and replacing by content
NOTFOUND = lambda c: st(c, 'VT_STATUS_ERROR_ELEMENT_NOT_FOUND')


@spec('vt_str_remove_first', S_(), Z('z', sub=True, apart=0), prop='strrepl')
def s_rm_first(c, s, z):
    c.exit_if(s.null, z.null)
    c.start()
    w = W(c, s, z)
    if c.case(w < 0):
        return NOTFOUND(c)
    remove(c, s, w, z.len)
    return OK(c)


def _texts(c, s, z):
    if s.null or z.null:
        return None
    return c.text(s), c.text(z)


def h_count(i, j):
    def mk(c, *a):
        t = _texts(c, a[i], a[j])
        if t is None:
            return None
        h, n = t
        return lambda cnt, p: Eq(Add(cnt, count_term(c.eng, h.at(p), n)), count_term(c.eng, h, n))
    return relate(mk, 2)


def h_last(i, j):
    def mk(c, *a):
        t = _texts(c, a[i], a[j])
        if t is None:
            return None
        h, n = t

        def rel(p):
            l = last_term(c.eng, h.at(simp(Add(p, n.len))), n)
            return And(p >= 0, Add(p, n.len) <= h.end, Eq(last_term(c.eng, h, n), If(l < 0, p, l)))
        return rel
    return relate(mk, 1)


@spec('vt_str_remove_last', S_(), Z('z', sub=True, apart=0), prop='strrepl', hints=[h_last(0, 1)])
def s_rm_last(c, s, z):
    c.exit_if(s.null, z.null)
    c.start()
    if c.case(Eq(z.len, 0)):
        return NOTFOUND(c)
    w = last_term(c.eng, c.text(s), c.text(z))
    if c.case(w < 0):
        return NOTFOUND(c)
    remove(c, s, w, z.len)
    return OK(c)


@spec('vt_str_remove_all', S_(), Z('z', sub=True, apart=0), prop='strrepl')
def s_rm_all(c, s, z):
    c.exit_if(s.null, z.null)
    c.start()
    if c.case(Eq(z.len, 0)):
        return OK(c)

    def exact():
        t, x = s.text(), c.text(z).bytes()
        while x in t:
            t = t.replace(x, b'', 1)
        return t
    tz = c.text(z)
    n0 = s.len
    c.any_text(s, exact)
    c.ensure(s.len <= n0, 'the text does not get longer')
    c.ensure(find_term(c.eng, c.text(s), tz) < 0, 'no occurrence is left')
    return OK(c)


def member(c, cs, x):
    """character x (never 0) occurs in the text cs"""
    return chr_term(c.eng, cs, x) >= 0


def first_of(c, s, cs):
    """inner scans: characters of the set already seen differ from the character at hand"""
    if s.null or cs.null:
        return None
    t, u = s.content(), cs.chars()
    return lambda j, i: Ne(u(j), t(i))


def _rank(c, s, cs):
    t, u = s.content(), c.text(cs)
    return c.filtered(s.len, t, lambda k: member(c, u, t(k)))


@spec('vt_str_remove_c', S_(), Z('c', sub=True, apart=0), prop='strrepl', opts={'budget': 120},
      hints=[scan(first_of, each=True),
             content(lambda c, s, cs: None if s.null or cs.null else {s.data_ptr.bid: _rank(c, s, cs)[1]},
                     bound=lambda c: (lambda s, cs: None if s.null or cs.null else _rank(c, s, cs)[2])(*c.args)),
             relate(lambda c, s, cs: None if s.null or cs.null else (lambda r: lambda i, off: Eq(Sub(i, off), r(i)))(_rank(c, s, cs)[2]), 2)])
def s_rm_c(c, s, cs):
    c.exit_if(s.null, cs.null)
    c.start()
    n, el, _ = _rank(c, s, cs)
    s.put(0, n, el)
    s.end(n)


def repl(c, s, w, sub, rsub):
    """the occurrence of sub at w is replaced by rsub"""
    if c.case(Eq(sub.len, rsub.len)):
        s.put(w, rsub.len, rsub.chars())
        return
    remove(c, s, w, sub.len)
    insert(c, s, w, rsub.len, rsub.chars())


def repl_spec(last):
    def f(c, s, sub, rsub):
        c.exit_if(s.null, sub.null, rsub.null)
        if not (s.null or sub.null or rsub.null):
            act = And(sub.len > 0, rsub.len > 0)
            t, n = c.text(s), c.text(sub)
            w = last_term(c.eng, t, n) if last else find_term(c.eng, t, n)
            if not last:
                c.exit_if(And(act, sub.len > s.len))
            c.exit_if(And(act, w >= 0, s.is_view, Ne(sub.len, rsub.len)))
        c.start()
        if c.case(And(act, w >= 0)):
            repl(c, s, w, sub, rsub)
    return f


SUBS = [S_(), Z('sub', sub=True, apart=0), Z('rsub', apart=0)]
spec('vt_str_replace_first', *SUBS, prop='strrepl')(repl_spec(False))
spec('vt_str_replace_last', *SUBS, prop='strrepl', hints=[h_last(0, 1)])(repl_spec(True))


@spec('vt_str_replace', *SUBS, prop='strrepl')
def s_replace(c, s, sub, rsub):
    c.exit_if(s.null, sub.null, rsub.null)
    if not (s.null or sub.null or rsub.null):
        act = And(sub.len > 0, rsub.len > 0)
        w = W(c, s, sub)
        c.exit_if(And(act, w >= 0, s.is_view, Ne(sub.len, rsub.len)))
    c.start()
    if c.case(And(act, w >= 0)):
        n0 = s.len
        c.any_text(s, lambda: s.text().replace(c.text(sub).bytes(), c.text(rsub).bytes()))
        if c.case(Eq(sub.len, rsub.len)):
            c.ensure(Eq(s.len, n0), 'a replacement of equal length keeps the length')


def _mapped(c, s, cs, r):
    t, u, q = s.content(), c.text(cs), r.chars()
    rl = r.len

    def g(k):
        x = t(k)
        w = chr_term(c.eng, u, x)
        j = simp(Min(Sub(w, u.off), Sub(rl, 1))) if sym(w) or sym(rl) else min(w - u.off, rl - 1)
        return If(And(w >= 0, k < s.len), q(j), x)
    return Content(g)


@spec('vt_str_replace_c', S_(), Z('c', sub=True, apart=0), Z('r', apart=0), prop='strrepl', opts={'budget': 120},
      hints=[scan(lambda c, s, cs, r: first_of(c, s, cs), each=True),
             content(lambda c, s, cs, r: None if s.null or cs.null or r.null else {s.data_ptr.bid: _mapped(c, s, cs, r)})])
def s_replace_c(c, s, cs, r):
    c.exit_if(s.null, cs.null, r.null)
    if not (cs.null or r.null):
        c.exit_if(r.len > cs.len)
    c.start()
    if c.case(And(r.len > 0, cs.len > 0)):
        s.put(0, s.len, _mapped(c, s, cs, r))


# ---------------------------------------------------------------- stripping and case
def strip(name, pred, *kinds):
    def hint(c, s, *a):
        if s.null or any(x.null for x in a):
            return None
        p = pred(c, s, *a)
        return lambda k: p(k)

    def outside(c, s, *a):
        if s.null or any(x.null for x in a):
            return None
        p, n = pred(c, s, *a), s.len
        return lambda k: Or(k < 0, k >= n, Not(p(k)))

    @spec(name, S_(), *kinds, prop='strstrip', hints=[scan(hint)] + ([scan(lambda c, s, cs: first_of(c, s, cs), each=True), flag(outside)] if kinds else []))
    def f(c, s, *a):
        c.exit_if(s.null, *[x.null for x in a])
        c.start()
        p = pred(c, s, *a)
        old = s.content()
        i = c.first_index(s.len, lambda k: Not(p(k)))
        if c.case(i < 0):
            s.end(0)
            return
        j = c.last_index(s.len, lambda k: Not(p(k)))
        n = simp(Add(Sub(j, i), 1))
        s.put(0, n, lambda k: old(Add(i, k)))
        s.end(n)


def schar(x):
    """value of a byte as a (signed) char"""
    return If(x >= 128, x - 256, x)


def p_space(c, s):
    t = s.content()
    return lambda k: is_space(t(k))


def p_punct(c, s):
    t = s.content()
    return lambda k: Or(is_space(t(k)), is_punct(t(k)))


def p_set(c, s, cs):
    t, u = s.content(), c.text(cs)
    return lambda k: member(c, u, t(k))


strip('vt_str_strip', p_space)
strip('vt_str_strip_punct', p_punct)
strip('vt_str_strip_c', p_set, Z('c', sub=True, apart=0))


def cased(name, fn):
    def conv(s):
        t, n = s.content(), s.len
        return Content(lambda k: If(And(k >= 0, k < n), fn(t(k)), t(k)))

    @spec(name, S_(), prop='strstrip', hints=[content(lambda c, s: None if s.null else {s.data_ptr.bid: conv(s)})])
    def f(c, s):
        c.exit_if(s.null)
        c.start()
        s.put(0, s.len, conv(s))


cased('vt_str_to_uppercase', to_upper)
cased('vt_str_to_lowercase', to_lower)


# ---------------------------------------------------------------- searching and comparing
@spec('vt_str_find', S_(), Z('sub', sub=True), prop='strfind')
def s_find(c, s, sub):
    c.exit_if(s.null, sub.null)
    if not s.null and not sub.null:
        c.exit_if(sub.len > s.len)
    c.start()
    w = W(c, s, sub)
    if c.case(w < 0):
        return NULL
    return P(s.data_ptr.bid, w)


@spec('vt_str_can_find', S_(), Z('sub', sub=True), prop='strfind', hints=[h_count(0, 1)])
def s_can_find(c, s, sub):
    c.exit_if(s.null, sub.null)
    if not s.null and not sub.null:
        c.exit_if(sub.len > s.len)
    c.start()
    if c.case(Eq(sub.len, 0)):
        return 0
    return count_term(c.eng, c.text(s), c.text(sub))


@spec('vt_str_index_of', S_(), Int(CHAR, 'z', pick=[97, 98, 32, 46, 1, 0, -1]), prop='strfind')
def s_index_of(c, s, ch):
    c.exit_if(s.null)
    c.start()
    return chr_term(c.eng, c.text(s), ch)


@spec('vt_str_index_find', S_(), Z('sub', sub=True), prop='strfind')
def s_index_find(c, s, sub):
    c.exit_if(s.null, sub.null)
    if not s.null and not sub.null:
        c.exit_if(sub.len > s.len)
    c.start()
    return W(c, s, sub)


@spec('vt_str_equals_z', Z('z1'), Z('z2', sub=True), prop='strfind')
def s_eq_z(c, a, b):
    c.exit_if(a.null, b.null)
    c.start()
    return text_eq(c.eng, c.text(a), c.text(b))


@spec('vt_str_equals_n', Z('z1'), Z('z2', sub=True), Int(ULONG, 'n'), prop='strfind')
def s_eq_n(c, a, b, n):
    c.exit_if(a.null, b.null, Eq(n, 0))
    if not a.null and not b.null:
        c.exit_if(n > a.len, n > b.len)
    c.start()
    return same_snap(c.eng, c.text(a).snap(c.eng), c.text(b).snap(c.eng), n)


@spec('vt_str_equals', S_('s1'), S_('s2'), prop='strfind')
def s_eq(c, a, b):
    c.exit_if(a.null, b.null)
    c.start()
    return text_eq(c.eng, c.text(a), c.text(b))


@spec('vt_str_starts_with', S_(), Z('sub', sub=True), prop='strfind')
def s_starts(c, s, sub):
    c.exit_if(s.null, sub.null)
    c.start()
    if c.case(sub.len > s.len):
        return False
    return same_snap(c.eng, c.text(s).snap(c.eng), c.text(sub).snap(c.eng), sub.len)


@spec('vt_str_ends_with', S_(), Z('sub', sub=True), prop='strfind')
def s_ends(c, s, sub):
    c.exit_if(s.null, sub.null)
    c.start()
    if c.case(sub.len > s.len):
        return False
    return same_snap(c.eng, c.text(s).snap(c.eng).plus(Sub(s.len, sub.len)), c.text(sub).snap(c.eng), sub.len)


@spec('vt_str_apply', S_(), Callback('func'), prop='strfind')
def s_apply(c, s, f):
    c.exit_if(s.null, f.null)
    c.start()
    d = s.data_ptr
    f.called(s.len, lambda k: [d.plus(k), k])


def numeric(t):
    return lambda k: Or(is_digit(t(k)), Eq(t(k), 46))


NUM = b'0123456789.1 a-'


@spec('vt_str_is_numeric', S_(alpha=NUM), prop='strfind', hints=[scan(lambda c, s: None if s.null else numeric(s.content()))])
def s_is_num(c, s):
    c.exit_if(s.null)
    c.start()
    p = numeric(s.content())
    return c.first_index(s.len, lambda k: Not(p(k))) < 0


@spec('vt_str_is_numeric_z', Chars(lambda a: a[1], 'z'), Int(ULONG, 'len'), prop='strfind',
      hints=[scan(lambda c, z, n: None if z.null else numeric(z.bytes()))])
def s_is_num_z(c, z, n):
    c.exit_if(z.null, Eq(n, 0))
    c.start()
    p = numeric(z.bytes())
    return c.first_index(n, lambda k: Not(p(k))) < 0


# ---------------------------------------------------------------- splitting and joining
def pieces(t, sep):
    return [x for x in t.split(sep) if x]


@spec('vt_str_split', Arr('plist', 'ps', nodata=False), S_('s'), Z('sep', sub=True), prop='strsplit', ret=Arr('plist', 'ret'))
def s_split(c, ps, s, sep):
    eng = c.eng
    c.exit_if(s.null, sep.null)
    if not s.null and not sep.null:
        c.exit_if(sep.len > s.len)
    c.start()
    if c.case(Or(Eq(sep.len, 0), W(c, s, sep) < 0)):
        return NULL
    if eng.concrete_mode:
        out = pieces(s.text(), c.text(sep).bytes())
        al = ps.alloctr if not ps.null else NULL
        new = [new_str(c, al, len(x), len(x), const_content(x)) for x in out]
        if ps.null:
            p = c.new_array(NULL, 0, c.any_result_cap(len(new)), 8, elems=True)
        else:
            p = ps
            c.may_grow(p, len(new))
        c.list_of(p, new)
        return p
    if c.mode == 'check':
        # the list itself is checked; its elements (fresh strings) are checked on concrete runs only
        if ps.null:
            return c.adopt_result()
        c.any_list(ps)
        return ps
    if ps.null:
        p = c.new_array(NULL, 0, 1, 8, elems=True)
    else:
        p = ps
    c.any_list(p)
    return p


@spec('vt_str_split_between', S_('s', nodata=False), Z('z', apart=0), Z('zl', sub=True, apart=0), Z('zr', sub=True, apart=0), ret=RET, prop='strsplit')
def s_between(c, s, z, zl, zr):
    eng = c.eng
    c.exit_if(z.null, zl.null, zr.null)
    if not (z.null or zl.null or zr.null):
        h = c.text(z)
        a = find_term(eng, h, c.text(zl))
        lo = simp(Add(a, zl.len))
        found = a >= 0
        if eng.concrete_mode:
            b = find_term(eng, h.at(lo), c.text(zr)) if found else -1
        else:
            if eng.branch(found):
                b = find_term(eng, h.at(lo), c.text(zr))
            else:
                b = -1
        n = simp(Sub(b, lo))
        if not s.null:
            c.exit_if(And(b >= 0, n > 0, s.is_view))
    c.start()
    if c.case(b < 0):
        return NULL
    src = z.chars()
    o = z.p.off
    if s.null:
        cap = c.any_result_cap(n)
        return new_str(c, NULL, n, cap, lambda j: src(Add(Sub(lo, o), j)))
    c.may_grow(s, n)
    s.put(0, n, lambda j: src(Add(Sub(lo, o), j)))
    s.end(n)
    return s


@spec('vt_str_join', S_('s', nodata=False), Z('sep', apart=0), Arr('plist', 'p'), ret=RET, prop='strsplit', opts={'cstr_elems': True},
      gen=lambda ctx, g, s, sep, p: fill_list(ctx, g, p))
def s_join(c, s, sep, p):
    c.exit_if(p.null, sep.null)
    if not (p.null or sep.null):
        c.exit_if(Eq(p.len, 0))
        if not s.null:
            c.requires(Not(s.is_view), 'the result string is not a view')
        c.requires(c.cstr_elems(p), 'every element is a C string')
    c.start()

    def exact():
        el = p.content()
        xs = [c.text(PtrView(c, c.eng.ptr_of(el(k)) if not isinstance(el(k), tuple) else P(el(k)[1], el(k)[2]))).bytes() for k in range(p.len)]
        return (s.text() if not s.null else b'') + c.text(sep).bytes().join(xs)
    if s.null:
        return c.any_new_text(NULL, exact)
    n0 = s.len
    c.any_text(s, exact)
    c.ensure(s.len >= n0, 'the text does not get shorter')
    return s


@spec('vt_str_join_n', S_('s', nodata=False), Z('sep', apart=0), Int(ULONG, 'n', pick=[1, 2, 3]), ret=RET, prop='strsplit', varargs=True,
      va=[CStr('w1', null=False), CStr('w2', null=False), CStr('w3', null=False)],
      tramp='vt_str_t *x = vt_str_join_n(*(vt_str_t **)&a[0], *(char **)&a[1], *(size_t *)&a[2], *(char **)&a[3], *(char **)&a[4], *(char **)&a[5]); memcpy(r, &x, sizeof x);')
def s_join_n(c, s, sep, n):
    c.exit_if(sep.null, Eq(n, 0))
    if not s.null:
        c.requires(Not(s.is_view), 'the result string is not a view')
    if c.eng.concrete_mode:
        c.requires(n <= 3, 'number of arguments')
    c.start()

    def exact():
        xs = [c.text(x).bytes() for x in c.extra[:n]]
        return (s.text() if not s.null else b'') + c.text(sep).bytes().join(xs)
    if s.null:
        return c.any_new_text(NULL, exact)
    n0 = s.len
    c.any_text(s, exact)
    c.ensure(s.len >= n0, 'the text does not get shorter')
    return s


def pop_spec(last):
    def f(c, sr, s, sep):
        eng = c.eng
        c.exit_if(s.null, sep.null)
        if not s.null and not sep.null:
            act = And(s.len > 0, sep.len > 0)
            t, n = c.text(s), c.text(sep)
            w = last_term(eng, t, n) if last else find_term(eng, t, n)
            m = simp(Sub(Sub(s.len, w), sep.len)) if last else w
            act = And(act, w >= 0, m > 0)
            if not sr.null:
                c.exit_if(And(act, sr.is_view))
        c.start()
        if not c.case(act):
            return sr if not sr.null else NULL
        old = s.content()
        src = (lambda j: old(Add(Add(w, sep.len), j))) if last else old
        if sr.null:
            cap = c.any_result_cap(m)
            r = new_str(c, NULL, m, cap, src)
        else:
            r = sr
            c.may_grow(r, m)
            r.put(0, m, src)
            r.end(m)
        if last:
            s.end(w)
        else:
            remove(c, s, 0, simp(Add(w, sep.len)))
        return r
    return f


POP = [S_('sr', nodata=False), S_('s'), Z('sep', sub=True, apart=1)]
spec('vt_str_pop_get_first', *POP, ret=RET, prop='strsplit')(pop_spec(False))
spec('vt_str_pop_get_last', *POP, ret=RET, prop='strsplit', hints=[h_last(1, 2)])(pop_spec(True))

spec('vt_str_slide_front', S_(), prop='strslide')(slide_front)
spec('vt_str_slide_back', S_(), prop='strslide')(slide_back)
spec('vt_str_slide_reset', S_(), prop='strslide')(slide_reset)


def fill_list(ctx, g, p):
    """list elements become pointers to C strings"""
    if p.null:
        return
    eng = ctx.eng
    db = eng.mut(p.data_ptr.bid)
    n = db.size // 8
    if n > 150:
        from vf.ex import Infeasible
        raise Infeasible()
    refs = []
    for k in range(n):
        t = bytes(g.rng.choice(b'ab,c') for _ in range(g.rng.choice([0, 1, 1, 2, 4])))
        bid = 'cstr:el%d' % k
        b = eng.new_block('bytes', len(t) + 1, bid, bid=bid)
        b.initial = True
        b.content = const_content(t + b'\0')
        refs.append(('blk', bid, 0))
    db.fields[0] = (db.fields[0][0], Content(lambda k: refs[k] if 0 <= k < n else 0))
