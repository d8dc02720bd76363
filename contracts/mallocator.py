"""Contracts of allocator/mallocator.c: the registry is the set of live blocks with their sizes, the
statistics are the running totals over it.  The registry is specified as a set: the order of its
entries is not part of the contract."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from .core import F3
MOD = 'mallocator'
OBJ = ('struct', 'VitaAllocatedObject')
AL = ('struct', 'VitaBaseAllocatorType')
ST = ['count_allocs', 'count_reallocs', 'count_frees', 'count_bytes_allocated', 'count_bytes_freed']
OFF = {n: 8 * i for i, n in enumerate(ST)}
OFF.update(obj_list=40, obj_list_len=48, obj_list_capacity=56, alloc=64, realloc=72, free=80)
W = 1 << 64
ENTRIES = (1 << 47) // 32


class Reg:
    """registry as left in a memory state"""

    def __init__(self, mem, al):
        b = mem[al.bid]
        self.len = b.cells[48][1].t
        self.cap = b.cells[56][1].t
        self.list = b.cells[40][1]
        lb = mem.get(self.list.bid)
        self.blk = lb
        if lb is not None and lb.kind == 'elems':
            p, n = lb.fields[0][1], lb.fields[8][1]
            self.ptr, self.bytes = p, n
        else:
            self.ptr = self.bytes = None


class MV:
    """view of a mallocator argument"""

    def __init__(self, ctx, p, nolist=False):
        self.ctx, self.p = ctx, p
        self.null = p.isnull
        if not self.null and nolist:
            l = ctx.eng.blk(p.bid).cells[OFF['obj_list']][1]
            self.null = isinstance(l, P) and l.isnull
        self.touched = False

    def get(self, f):
        v = self.ctx.eng.blk(self.p.bid).cells[OFF[f]][1]
        return v.t if isinstance(v, I) else v

    def set(self, f, t):
        b = self.ctx.eng.mut(self.p.bid)
        ty = b.cells[OFF[f]][0]
        b.cells[OFF[f]] = (ty, t if isinstance(t, P) else I(t, ty))

    def bump(self, f, d):
        self.set(f, wrap(Add(self.get(f), d)))

    def reg(self):
        return Reg(self.ctx.eng.st.mem, self.p)


def wrap(t):
    return If(t >= W, Sub(t, W), If(t < 0, Add(t, W), t))


class Mal(Kind):
    """a live mallocator, or NULL; also one without a registry where that is as good as NULL"""
    name = 'alloctr'

    def __init__(self, nolist=False):
        self.nolist = nolist

    def setup(self, ctx, i):
        eng = ctx.eng
        if eng.branch(z3.Bool('alloctr_is_null')):
            return NULL
        b = eng.alloc_type(AL, 'alloctr', 'zero', bid='arg:alloctr')
        b = eng.mut(b.bid)
        b.initial = b.heap = True
        ln, cap = z3.Int('reg_len'), z3.Int('reg_cap')
        eng.set_bounds(ln, 0, ENTRIES)
        eng.set_bounds(cap, 1, ENTRIES)
        eng.assume(ln <= cap)
        for f in ST:
            v = z3.Int(f)
            eng.set_bounds(v, 0, W - 1)
            b.cells[OFF[f]] = (b.cells[OFF[f]][0], I(v, ULONG))
        d = eng.new_block('elems', Mul(cap, 16), 'registry', bid='reg:list', heap=True)
        d.initial = True
        eng.make_elems(d, OBJ, 'zero', 'registry')
        hp, hb = z3.Function('reg_ptr', z3.IntSort(), z3.IntSort()), z3.Function('reg_bytes', z3.IntSort(), z3.IntSort())
        ix = z3.Function('reg_index', z3.IntSort(), z3.IntSort())
        eng.bnd['reg_ptr'] = (0, (1 << 47))
        eng.bnd['reg_bytes'] = (0, W - 1)
        d.fields[0] = (d.fields[0][0], Content(lambda k: hp(zint(k))))
        d.fields[8] = (d.fields[8][0], Content(lambda k: hb(zint(k))))
        for f, v in (('obj_list', P(d.bid, 0)), ('obj_list_len', I(ln, ULONG)), ('obj_list_capacity', I(cap, ULONG)),
                     ('alloc', P(fn='vt_mallocator_alloc')), ('realloc', P(fn='vt_mallocator_realloc')), ('free', P(fn='vt_mallocator_free'))):
            b.cells[OFF[f]] = (b.cells[OFF[f]][0], v)
        if self.nolist and eng.branch(z3.Bool('registry_is_null')):
            b.cells[OFF['obj_list']] = (b.cells[OFF['obj_list']][0], NULL)
            return P(b.bid, 0)
        # representation invariant: registered pointers are pairwise distinct, non-null, with positive sizes
        q = z3.Int('q!reg')
        eng.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ln), z3.And(ix(hp(q)) == q, hp(q) > 0, hb(q) > 0, hb(q) <= MAXOBJ)),
                                   patterns=[hp(q)]))
        eng.add_forall(0, ln, lambda k: And(Eq(ix(hp(zint(k))), k), hp(zint(k)) > 0, hb(zint(k)) > 0, hb(zint(k)) <= MAXOBJ))
        g = eng.new_block('elems', Mul(cap, 16), 'freed objects', bid='ghost:freed')
        eng.make_elems(g, OBJ, 'zero', 'freed')
        g.initial = True
        def ofree(e, p):
            i = ix(zint(p.addr))
            if z3.is_app(p.addr) and p.addr.decl().eq(hp):
                t = p.addr.arg(0)
                if e.valid(And(t >= 0, t < ln)):
                    i = t
            i = simp(i)
            e.oblige('own', 'frees a registered object', And(i >= 0, i < ln, Eq(hp(zint(i)), p.addr)))
            e.oblige('own', 'an object is freed once', Eq(e.load(P('ghost:freed', Add(Mul(16, i), 8)), ULONG).t, 0))
            e.store(P('ghost:freed', Add(Mul(16, i), 8)), ULONG, I(1, ULONG))
        eng.st.ghost['opaque_free'] = ofree
        return P(b.bid, 0)

    def gen(self, ctx, i, g):
        from vf.concrete import cblock
        eng = ctx.eng
        if g.flag('alloctr_is_null', 0.05):
            return NULL
        ln = g.size('reg_len', 0, g.rng.choice([0, 1, 2, 3, 5, 15, 16]))
        ln = min(ln, 70)
        cap = g.rng.choice([max(ln, 1), max(ln, 1), max(ln, 16), 2 * max(ln, 1)])
        b = eng.alloc_type(AL, 'alloctr', 'zero', bid='arg:alloctr')
        b.initial = b.heap = True
        ps, ns = [], []
        for k in range(cap):
            if k < ln:
                n = g.rng.choice([1, 2, 3, 8, 24, 100])
                o = cblock(eng, 'object%d' % k, 'obj:%d' % k, bytes(g.rng.randrange(256) for _ in range(n)), heap=True)
                ps.append(('blk', o.bid, 0))
                ns.append(n)
            else:
                ps.append(g.rng.choice([0, 8]))
                ns.append(g.rng.choice([0, 5]))
        d = eng.new_block('elems', cap * 16, 'registry', bid='reg:list', heap=True)
        d.initial = True
        eng.make_elems(d, OBJ, 'zero', 'registry')
        d.fields[0] = (d.fields[0][0], Content(lambda k: ps[k] if 0 <= k < len(ps) else 0))
        d.fields[8] = (d.fields[8][0], Content(lambda k: ns[k] if 0 <= k < len(ns) else 0))
        vals = dict(obj_list=P(d.bid, 0), obj_list_len=I(ln, ULONG), obj_list_capacity=I(cap, ULONG),
                    alloc=P(fn='@alloc'), realloc=P(fn='@realloc'), free=P(fn='@free'))
        for f in ST:
            vals[f] = I(sum(ns[:ln]) if f == 'count_bytes_allocated' else g.rng.choice([0, 1, 7, 1000]), ULONG)
        if self.nolist and g.flag('registry_is_null', 0.04):
            vals['obj_list'] = NULL
        for f, v in vals.items():
            b.cells[OFF[f]] = (b.cells[OFF[f]][0], v)
        return P(b.bid, 0)

    def view(self, ctx, val):
        return MV(ctx, ctx.eng.resolve(val), self.nolist)


class MalPtr(Kind):
    """an object of the mallocator, a heap object it does not know, or NULL"""
    name = 'ptr'

    def setup(self, ctx, i):
        eng = ctx.eng
        al = ctx.args[0]
        if eng.branch(z3.Bool('ptr_is_null')):
            return NULL
        sz = z3.Int('ptr_size')
        eng.set_bounds(sz, 1, MAXOBJ)
        b = eng.new_block('bytes', sz, 'ptr', bid='heap:ptr', heap=True)
        b.initial = True
        f = z3.Function('ptr_data', z3.IntSort(), z3.IntSort())
        eng.bnd['ptr_data'] = (0, 255)
        b.content = Content(lambda k: f(zint(k)))
        if not al.null and eng.branch(z3.Bool('ptr_is_foreign')):
            g = al.reg()
            a = eng.addr(P(b.bid, 0))
            eng.st.ghost['foreign'] = True
            eng.add_forall(0, g.len, lambda k: Ne(g.ptr(k), a))
            q = z3.Int('q!foreign')
            eng.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < g.len), g.ptr(q) != a), patterns=[g.ptr(q)]))
        elif not al.null:
            r = z3.Int('ptr_at')
            g = al.reg()
            eng.set_bounds(r, 0, ENTRIES)
            eng.assume(And(r >= 0, r < g.len))
            eng.assume(Eq(g.ptr(r), eng.addr(P(b.bid, 0))))
            eng.assume(Eq(g.bytes(r), sz))
            eng.add_index(r)
        return P(b.bid, 0)

    def gen(self, ctx, i, g):
        al = ctx.args[0]
        if g.flag('ptr_is_null', 0.06):
            return NULL
        if al.null or not al.get('obj_list_len') or g.flag('ptr_is_foreign', 0.15):
            from vf.concrete import cblock
            return P(cblock(ctx.eng, 'ptr', 'heap:ptr', b'abc', heap=True).bid, 0)
        n = al.get('obj_list_len')
        k = g.rng.choice([0, n - 1, g.rng.randrange(n)])
        return P('obj:%d' % k, 0)

    def view(self, ctx, val):
        return PtrView(ctx, ctx.eng.resolve(val))


def position(c, al, p):
    """index of a registered object"""
    if c.eng.concrete_mode:
        g = al.reg()
        a = c.eng.addr(p.p)
        for k in range(g.len):
            if g.ptr(k) == a:
                return k
        return None
    return None if c.eng.st.ghost.get('foreign') else z3.Int('ptr_at')


def registry_is(c, al, gone, new):
    """the registry afterwards: the old entries except number `gone`, plus the entry `new` = (pointer, bytes)"""
    eng = c.eng
    old, now = al.reg(), Reg(c.act.mem, al.p)
    n = Add(Sub(old.len, 0 if gone is None else 1), 0 if new is None else 1)
    c.ensure(Eq(now.len, n), 'the registry counts the live objects')
    c.ensure(now.cap >= now.len, 'the registry fits its storage')
    lb = now.blk
    if lb is None or not lb.alive or lb.kind != 'elems':
        if lb is None or not lb.alive:
            eng.oblige('own', 'the registry stays allocated', False)
        if eng.concrete_mode:
            lb = eng.cshape(lb, OBJ, False)
            now.ptr, now.bytes = lb.fields[0][1], lb.fields[8][1]
        else:
            raise Unsupported('registry of unknown shape')
    c.ensure(lb.size >= Mul(16, now.cap), 'the registry storage is as large as its capacity says')
    na = None if new is None else addr_of(c, new[0])

    def has(p, b, cands):
        return Or(*[And(k >= 0, k < n, Eq(now.ptr(k), p), Eq(now.bytes(k), b)) for k in cands])
    if eng.concrete_mode:
        want = sorted([(old.ptr(k), old.bytes(k)) for k in range(old.len) if k != gone] + ([(na, new[1])] if new else []))
        got = sorted((now.ptr(k), now.bytes(k)) for k in range(now.len))
        c.ensure(want == got, 'the registry holds exactly the live objects and their sizes')
    else:
        last = Sub(old.len, 1)
        cands = lambda j: [j, last, Sub(j, 1), Add(j, 1)] + ([] if gone is None else [gone, If(j > gone, Sub(j, 1), j)])
        c.ensure_forall(0, old.len, lambda j: Or(False if gone is None else Eq(j, gone), has(old.ptr(j), old.bytes(j), cands(j))),
                        'every other live object stays registered with its size')
        if new is not None:
            c.ensure(has(na, new[1], [Sub(n, 1), 0] + ([] if gone is None else [gone])), 'the new object is registered with its size')
        m = eng.fresh_int('m')
        eng.assume(And(m >= 0, m < n))
        eng.add_index(m)
        c.ensure_forall(0, n, lambda k: Or(Eq(k, m), Ne(now.ptr(k), now.ptr(m))), 'no object is registered twice')
        c.ensure_forall(0, n, lambda k: And(now.ptr(k) > 0, now.bytes(k) > 0), 'registered objects are not null or empty')
    # the representation is as the code left it
    sb = eng.mut(al.p.bid)
    ab = c.act.mem[al.p.bid]
    for f in ('obj_list', 'obj_list_len', 'obj_list_capacity'):
        sb.cells[OFF[f]] = ab.cells[OFF[f]]
    ol = old.list.bid
    if now.list.bid != ol:
        eng.mut(ol).alive = False
        c.adopted.add(now.list.bid)
    eng.st.mem[now.list.bid] = c.act.mem[now.list.bid]


def addr_of(c, p):
    e = c.eng
    if e.concrete_mode:
        b = c.act.mem.get(p.bid)
        return b.caddr + p.off
    b = c.act.mem[p.bid]
    return Add(b.base, p.off)


def fresh_here(c, al, r, reuse=None):
    """malloc and realloc return memory that overlaps no live object"""
    if c.eng.concrete_mode:
        return
    old = al.reg()
    a = addr_of(c, r)
    q = z3.Int('q!fresh')
    ix = z3.Function('reg_index', z3.IntSort(), z3.IntSort())
    e = False if reuse is None else Eq(ix(zint(a)), reuse)
    c.eng.add_forall(0, old.len, lambda k: Or(Ne(old.ptr(k), a), False if reuse is None else Eq(k, reuse)))
    c.eng.assume(a > 0)


A3 = F3
FIND = [scan(lambda c, al, p, *_: None if al.null or p.null else (lambda g, a: lambda k: Ne(g.ptr(k), a))(al.reg(), c.eng.addr(p.p)))]
MEMO = ['malloc and realloc return memory that overlaps no live object']


@spec('vt_mallocator_create', prop='malloctr', conc=True)
def m_create(c):
    c.start()
    r = c.act_ret
    eng = c.eng
    if not (isinstance(r, P) and r.bid is not None):
        c.ensure(False, 'an allocator is returned')
    ab = c.act.mem[r.bid]
    if eng.concrete_mode and ab.kind == 'bytes':
        cur, eng.st = eng.st, c.act
        ab = eng.cshape(ab, AL, True)
        eng.st = cur
    c.ensure(And(ab.alive, ab.heap, Eq(r.off, 0)), 'the allocator is a live heap object')
    for f in ST + ['obj_list_len']:
        c.ensure(Eq(ab.cells[OFF[f]][1].t, 0), '%s starts at zero' % f)
    lp = ab.cells[OFF['obj_list']][1]
    cap = ab.cells[OFF['obj_list_capacity']][1].t
    c.ensure(cap > 0, 'the registry has room')
    lb = c.act.mem.get(lp.bid)
    if lb is None:
        c.ensure(False, 'the registry is allocated')
    c.ensure(And(lb.alive, lb.heap, lb.size >= Mul(16, cap), Eq(lp.off, 0)), 'the registry storage is as large as its capacity says')
    for f in ('alloc', 'realloc', 'free'):
        v = ab.cells[OFF[f]][1]
        if eng.concrete_mode:
            c.ensure(not v.isnull, '%s function is set' % f)
        else:
            c.ensure(v.fn == 'vt_mallocator_' + f, '%s function is the mallocator\'s' % f)
    for x in (r.bid, lp.bid):
        c.adopted.add(x)
        if x not in eng.st.mem:
            eng.st.mem[x] = c.act.mem[x]
    return r


@spec('vt_mallocator_alloc', Mal(nolist=True), Int(ULONG, 'bytes'), *A3, prop='malloctr', assumes=MEMO)
def m_alloc(c, al, n, *_):
    c.exit_if(al.null, Eq(n, 0))
    c.requires(n <= MAXOBJ, 'the size is that of an object')
    c.start()
    r = c.eng.heap_alloc(n, True)
    act = c.act_ret
    if isinstance(act, P) and act.bid is not None:
        fresh_here(c, al, act)
        registry_is(c, al, None, (act, n))
    al.bump('count_allocs', 1)
    al.bump('count_bytes_allocated', n)
    return r


@spec('vt_mallocator_realloc', Mal(nolist=True), MalPtr(), Int(ULONG, 'bytes'), *A3, prop='malloctr', assumes=MEMO, hints=FIND)
def m_realloc(c, al, p, n, *_):
    c.exit_if(al.null, p.null, Eq(n, 0))
    c.requires(n <= MAXOBJ, 'the size is that of an object')
    c.start()
    at = position(c, al, p)
    was = 0 if at is None else al.reg().bytes(at)
    old = p.p
    act = c.act_ret
    if isinstance(act, P) and act.bid is not None:
        fresh_here(c, al, act, at)
        registry_is(c, al, at, (act, n))
    r = c.eng.heap_realloc(old, n)
    al.bump('count_reallocs', 1)
    al.bump('count_bytes_allocated', Sub(n, was))
    al.bump('count_bytes_freed', If(n < was, Sub(was, n), 0))
    return r


@spec('vt_mallocator_free', Mal(nolist=True), MalPtr(), *A3, prop='malloctr', hints=FIND)
def m_free(c, al, p, *_):
    c.exit_if(al.null, p.null)
    c.start()
    at = position(c, al, p)
    was = 0 if at is None else al.reg().bytes(at)
    registry_is(c, al, at, None)
    c.eng.heap_free(p.p)
    if at is None:
        return
    al.bump('count_frees', 1)
    al.bump('count_bytes_freed', was)
    al.bump('count_bytes_allocated', Sub(0, was))


@spec('vt_mallocator_destroy', Mal(nolist=True), prop='malloctr',
      hints=[content(lambda c, al: None if al.null else {'reg:list': lambda k: 0, 'ghost:freed': lambda k: 1})])
def m_destroy(c, al):
    c.exit_if(al.null)
    c.start()
    eng = c.eng
    g = al.reg()
    if eng.concrete_mode:
        for k in range(g.len):
            eng.heap_free(eng.ptr_of(g.ptr(k)))
    else:
        fb = c.act.mem['ghost:freed']
        c.ensure_forall(0, g.len, lambda k: Eq(fb.fields[8][1](k), 1), 'every live object is freed')
        eng.st.mem['ghost:freed'] = fb
    eng.heap_free(g.list)
    eng.heap_free(al.p)
