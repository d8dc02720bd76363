"""Contracts of util/argopt.c: options are recognised and their values stored with the declared type."""
from vf.contract import *
from vf.tm import *
from vf.mem import *
from vf.cast import *
from vf import models as MO
from vf.ex import int_bounds
from .span import TYPES
from .conv import numeric
from .str import new_str
MOD = 'argopt'

OPT = ('struct', 'VitaArgOpt')
UINT = ('int', 32, False)
CSTR_T, STR_T = ('ptr', CHAR), ('ptr', ARR)
ORDER = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f', 'd', 'r']
T_BOOL, T_CHAR, T_CSTR, T_STR, T_COUNT = 11, 12, 13, 14, 20


def type_of(k):
    """C type of the variable behind an option of type k"""
    if k < 11:
        return TYPES[ORDER[k]]
    return {T_BOOL: BOOL, T_CHAR: CHAR, T_CSTR: CSTR_T, T_STR: STR_T}.get(k, ('ptr', VOID))


# ---------------------------------------------------------------- effect of one option
def fits(c, k, z):
    """a numeric text is representable in the type of the option"""
    if k >= 8:
        return True
    lo, hi = int_bounds(type_of(k))
    x = MO.num_value(c.eng, c.text(z))
    return Implies(numeric(c, z), And(x >= lo, x <= hi))


def put_value(c, k, var, z, al):
    """the variable at `var` (option type k) receives what the text z says"""
    eng, ty = c.eng, type_of(k)
    ch, n = z.chars(), z.len
    if k < 8:
        eng.store(var, ty, I(If(numeric(c, z), MO.num_value(eng, c.text(z)), 0), ty))
    elif k < 11:
        w = ty[1]
        if c.case(numeric(c, z)):
            x = MO.real_value(eng, c.text(z), w)
        elif eng.concrete_mode:
            x = bytes(16 if w == 80 else w // 8)
        else:
            x = f_const(0.0, w)(z3.Int('x'))
        eng.store(var, ty, F(x, ty))
    elif k == T_BOOL:
        eng.store(var, ty, B(Or(Eq(ch(0), 49), And(Eq(n, 4), *[Eq(ch(i), x) for i, x in enumerate(b'true')]) if eng.concrete_mode is False or n == 4 else False), ty))
    elif k == T_CHAR:
        x = ch(0)
        eng.store(var, ty, I(If(x >= 128, Sub(x, 256), x), ty))
    elif k == T_STR:
        put_str(c, var, z, al)
    elif k == T_CSTR:
        put_cstr(c, var, z, al)


def act_value(c, var):
    """what the code left in a pointer variable"""
    eng = c.eng
    cur, eng.st = eng.st, c.act
    try:
        return eng.load(var, ('ptr', VOID))
    finally:
        eng.st = cur


def put_str(c, var, z, al):
    eng = c.eng
    p = eng.load(var, STR_T)
    n, src = z.len, z.chars()
    if p.isnull:
        if c.mode == 'check':
            d = act_value(c, var)
            eng.oblige('post', 'a new string is stored', d.bid is not None and d.bid not in eng.entry)
            cap = c.act_cells(d)[8][1].t
            c.ensure(cap >= n, 'capacity suffices')
        else:
            cap = eng.fresh_int('cap', ULONG, 0, MAXOBJ)
            eng.assume(cap >= n)
        eng.store(var, STR_T, new_str(c, al, n, cap, src).p)
        return
    s = AV(c, p, tail=1)
    c.views.append(s)
    c.may_grow(s, n)
    s.put(0, n, src)
    s.end(n)


def put_cstr(c, var, z, al):
    eng = c.eng
    p = eng.load(var, CSTR_T)
    n, src = z.len, z.chars()
    if c.mode == 'check':
        d = act_value(c, var)
        same = not p.isnull and d.bid == p.bid
    else:
        raise Unsupported('text option at a call site')
    if not same:
        if not p.isnull:
            b = eng.mut(p.bid)
            b.alive = False
        p = eng.heap_alloc(Add(n, 1), True, al.bid, 'text')
        eng.store(var, CSTR_T, p)
    v = PtrView(c, p)
    size = eng.blk(p.bid).size
    c.ensure(Add(n, 1) <= size, 'the text fits')
    v.write(Add(n, 1), lambda j: If(j < n, src(j), 0))
    c.limit(v, Add(n, 1), size)


# ---------------------------------------------------------------- vt_argopt_assign_value
class OneOpt(Kind):
    """one option with the variable behind it"""

    def setup(self, ctx, i):
        eng = ctx.eng
        if eng.branch(z3.Bool('opt_is_null')):
            return NULL
        b = eng.alloc_type(OPT, 'opt', 'zero', bid='out:opt')
        b = eng.mut(b.bid)
        b.initial = True
        k = z3.Int('opt_type')
        eng.set_bounds(k, 0, T_COUNT - 1)
        kk = 0
        while kk < T_COUNT - 1 and not eng.branch(Eq(k, kk)):
            kk += 1
        ty = type_of(kk)
        v = eng.mut(eng.alloc_type(ty, 'value', 'zero', bid='out:value').bid)
        v.initial = True
        if kk == T_STR:
            x = Arr('str', 'svalue', nodata=False).setup(ctx, i)
        elif kk == T_CSTR:
            x = OwnedStr('zvalue').setup(ctx, i)
            al = ctx.args[2] if len(ctx.args) > 2 else None
        else:
            x = eng.fresh_of(ty, 'value')
        v.cells[0] = (ty, x)
        for o, nm in ((0, 'long'), (8, 'short'), (16, 'desc')):
            a = z3.Int('opt_' + nm)
            eng.set_bounds(a, 1, (1 << 64) - 1)
            b.cells[o] = (b.cells[o][0], P(addr=a))
        b.cells[24] = (b.cells[24][0], P(v.bid, 0))
        b.cells[32] = (b.cells[32][0], I(kk, b.cells[32][0]))
        return P(b.bid, 0)

    def view(self, ctx, val):
        return PtrView(ctx, ctx.eng.resolve(val))


class OptAlloc(Alloc):
    """the allocator a text option's value came from"""

    def setup(self, ctx, i):
        al = Alloc.setup(self, ctx, i)
        eng = ctx.eng
        if 'cstr:zvalue' in eng.st.mem:
            eng.mut('cstr:zvalue').owner = al.bid
        return al


@spec('vt_argopt_assign_value', OneOpt(), CStr('text'), OptAlloc(), prop='argopt', conc=False, through='vt_argopt_parse')
def assign_value(c, opt, z, al):
    k = None
    if not opt.null and not z.null:
        k = c.eng.blk(opt.p.bid).cells[32][1].t
        if sym(k):
            raise Unsupported('type of the option')
        c.requires(fits(c, k, z), 'the number fits the type')
        if k == T_STR:
            s = c.eng.load(P('out:value', 0), STR_T)
            if not s.isnull:
                c.requires(Not(AV(c, s, tail=1).is_view), 'the string is not a view')
    c.start()
    if k is not None:
        put_value(c, k, P('out:value', 0), z, al)


# ---------------------------------------------------------------- vt_argopt_validate
class AnyTable(Kind):
    """a table of args[0] options of any kind"""

    def setup(self, ctx, i):
        eng = ctx.eng
        n = ctx.args[0]
        b = eng.new_block('bytes', simp(Mul(n, 40)), 'optv', bid='buf:optv')
        b.initial = True
        eng.make_elems(b, OPT, 'zero', 'optv')
        for o, (t, _) in list(b.fields.items()):
            f = z3.Function('optv_%d' % o, z3.IntSort(), z3.IntSort())
            eng.bnd['optv_%d' % o] = int_bounds(t) if t[0] == 'int' else (0, (1 << 64) - 1)
            b.fields[o] = (t, Content((lambda f: lambda k: f(zint(k)))(f)))
        return P(b.bid, 0)

    def view(self, ctx, val):
        return PtrView(ctx, ctx.eng.resolve(val))


def usable(c, optv):
    fs_ = {o: c.eng.blk(optv.p.bid).fields[o][1] for o in (0, 8, 24, 32)}
    return lambda k: And(Ne(fs_[0](k), 0), Ne(fs_[8](k), 0), Ne(fs_[24](k), 0), fs_[32](k) < T_COUNT, MO.FARLEN(zint(fs_[8](k))) <= 3)


@spec('vt_argopt_validate', Int(ULONG, 'optc', hi=MAXOBJ // 40), AnyTable(), prop='argopt', conc=False, through='vt_argopt_parse', opts={'cstr_elems': True},
      hints=[scan(lambda c, n, optv: usable(c, optv))])
def validate(c, n, optv):
    c.start()
    ok = usable(c, optv)
    return c.first_index(n, lambda k: Not(ok(k))) < 0


# ---------------------------------------------------------------- vt_argopt_parse, vt_argopt_print_help
def ptr_at(c, v, k):
    """k-th pointer of an array of pointers"""
    x = v(k)
    return P(x[1], x[2]) if isinstance(x, tuple) else c.eng.ptr_of(x)


LONG = [b'--alpha', b'--beta', b'--al', b'--x', b'x', b'--path', b'-a', b'', b'?q', b'--help']
SHORT = [b'-a', b'-b', b'-al', b'x', b'-p', b'', b'-h', b'abc']
VALUES = [b'', b'1', b'0', b'true', b'True', b'trueX', b'tru', b'10', b'127', b'255', b'65535', b'12.5', b'abc', b'-5', b'=', b'a=b', b'x y', b'7',
          b'long text to grow a string', b'-', b'-a', b'?', b'true=', b'1x', b'01', b'truetrue', b'T', b'-128', b'-1', b'0.5', b'=1', b'==', b'-0', b'+3', b'32767']


def value_text(r):
    """text of a value: usual ones, numbers, or anything"""
    x = r.random()
    if x < 0.55:
        return r.choice(VALUES)
    if x < 0.7:
        return b'%d' % r.choice([r.randrange(10), r.randrange(128), r.randrange(1 << 15), -r.randrange(128), r.randrange(1 << 31)])
    if x < 0.78:
        return b'%d.%d' % (r.randrange(100), r.randrange(1000))
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 8, 13, 26, 40])
    ab = r.choice([b'ab', b'a b', b'a/', b'1.', b'tru e', b'a=-', b'?1', bytes(range(1, 256))])
    return bytes(r.choice(ab) for _ in range(n))


class Args(Kind):
    """argv: argc C strings"""

    def setup(self, ctx, i):
        raise Unsupported('command lines of any length')

    def view(self, ctx, val):
        return PtrView(ctx, ctx.eng.resolve(val))

    def gen(self, ctx, i, g):
        r, n = g.rng, ctx.args[0]
        if g.flag('argv_is_null', 0.02):
            return NULL
        if n > 24:
            raise Infeasible()
        # table first: options and arguments have to be related
        names = []
        for _ in range(r.choice([1, 1, 2, 3, 4, 5, 8, 12, 16])):
            names.append((r.choice(LONG) if r.random() < 0.6 else b'--' + bytes(r.choice(b'abx-_') for _ in range(r.choice([0, 1, 2, 3, 5, 9, 20]))),
                          r.choice(SHORT) if r.random() < 0.6 else b'-' + bytes(r.choice(b'abxyz12') for _ in range(r.choice([0, 1, 1, 1, 2, 2])))))
        ctx.names = names
        flat = [x for p in names for x in p]
        clean = r.random() < 0.6
        one = r.random() < 0.15 and r.choice(flat)
        words = []
        while len(words) < n:
            x = r.random() * (0.85 if clean and words else 1)
            o = one if one is not False else r.choice(flat)
            v = value_text(r)
            if x < 0.4:
                words.append(o + b'=' + v)
            elif x < 0.55:
                words.append(o)
            elif x < 0.85:
                words += [o, v]
            elif x < 0.9:
                words.append(r.choice([b'-h', b'--help', b'?', b'?x', b'--hel', b'-h ', b'--helper', b'--help=1', b'-h=1']))
            else:
                words.append(r.choice([v, o + b'x', o[:-1], b'=' + v, b'--nope', b'--nope=1', b'']))
        return table(ctx, 'argv', words[:n])


def table(ctx, name, words):
    from vf.concrete import cblock
    eng = ctx.eng
    refs = []
    for k, w in enumerate(words):
        cblock(eng, '%s[%d]' % (name, k), 'cstr:%s%d' % (name, k), w + b'\0')
        refs.append(('blk', 'cstr:%s%d' % (name, k), 0))
    b = eng.new_block('bytes', 8 * len(words), name, bid='buf:' + name)
    b.initial = True
    eng.make_elems(b, CSTR_T, 'zero', name)
    b.fields[0] = (b.fields[0][0], Content(lambda k: refs[k] if 0 <= k < len(refs) else 0))
    return P(b.bid, 0)


class Table(Kind):
    """optv: optc options"""

    def __init__(self, count, help=False):
        self.count, self.help = count, help

    def setup(self, ctx, i):
        raise Unsupported('option tables of any length')

    def view(self, ctx, val):
        return PtrView(ctx, ctx.eng.resolve(val))

    def gen(self, ctx, i, g):
        from vf.concrete import cblock, calloctr, g_flt
        r, n, eng = g.rng, ctx.args[self.count], ctx.eng
        if g.flag('optv_is_null', 0.02):
            return NULL
        if n > 24:
            raise Infeasible()
        names = getattr(ctx, 'names', None) or [(b'--' + b'n' * r.choice([0, 1, 3, 4, 5, 9, 18, 40, 70]), b'-ab'[:r.choice([0, 1, 2, 3])]) for _ in range(r.choice([1, 3, 9, 20]))]
        rows, als = [], []
        for k in range(n):
            lo, sh = names[k] if k < len(names) and r.random() < 0.9 else r.choice(names)
            if r.random() < 0.01:
                sh = r.choice([b'-abc', b'-abcd'])
            kk = r.choice([r.randrange(T_COUNT), T_STR, T_CSTR, T_BOOL, 4])
            if r.random() < 0.01 and not self.help:
                kk = r.choice([T_COUNT, T_COUNT + 1, (1 << 32) - 1])
            row = [('cstr', lo), ('cstr', sh), ('cstr', r.choice([b'', b'text', b'100%s', b'd' * r.randrange(90)])), None, kk]
            if r.random() < 0.012 and not self.help:
                row[r.choice([0, 1, 3])] = 0
            if row[3] is None:
                if rows and r.random() < 0.05 and rows[-1][4] == kk:
                    row[3] = rows[-1][3]
                else:
                    ty = type_of(min(kk, T_COUNT - 1))
                    vb = eng.alloc_type(ty, 'value%d' % k, 'zero', bid='out:value%d' % k)
                    vb.initial = True
                    if ty[0] == 'float':
                        vb.cells[0] = (ty, g_flt(Flt(ty), ctx, i, g))
                    elif ty[0] == 'int':
                        vb.cells[0] = (ty, I(r.randrange(100), ty))
                    elif kk in (T_STR, T_CSTR) and r.random() < 0.6:
                        t = r.choice([b'', b'x', b'old text', b'ab', b'some older and longer text', b'1', b'true', b'o' * r.randrange(45)])
                        if kk == T_STR:
                            own = calloctr(eng, 'V%d' % k) if r.random() < 0.4 else NULL
                            vb.cells[0] = (ty, P(ctx.string_object('s%d' % k, t, own), 0))
                        else:
                            x = cblock(eng, 'z%d' % k, 'cstr:z%d' % k, t + b'\0' + b'y' * r.choice([0, 0, 3, 1, 9]), heap=True)
                            vb.cells[0] = (ty, P(x.bid, 0))
                            als.append(x.bid)
                    row[3] = ('blk', vb.bid, 0)
            rows.append(row)
        cols = []
        for f in range(5):
            col = []
            for k, row in enumerate(rows):
                x = row[f]
                if isinstance(x, tuple) and x[0] == 'cstr':
                    bid = 'cstr:opt%d_%d' % (k, f)
                    cblock(eng, 'optv[%d]' % k, bid, x[1] + b'\0')
                    x = ('blk', bid, 0)
                col.append(x)
            cols.append(col)
        b = eng.new_block('bytes', 40 * n, 'optv', bid='buf:optv')
        b.initial = True
        eng.make_elems(b, OPT, 'zero', 'optv')
        for f, o in enumerate((0, 8, 16, 24, 32)):
            b.fields[o] = (b.fields[o][0], Content((lambda col: lambda k: col[k] if 0 <= k < len(col) else 0)(cols[f])))
        ctx.texts = als
        return P(b.bid, 0)


class ParseAlloc(Alloc):
    def gen(self, ctx, i, g):
        from vf.concrete import g_alloc
        al = g_alloc(self, ctx, i, g)
        for bid in getattr(ctx, 'texts', ()):
            ctx.eng.mut(bid).owner = al.bid
        return al


def rows_of(c, n, optv):
    """[(long, short, desc, pointer to the variable, type)]"""
    b = c.eng.blk(optv.p.bid)
    out = []
    for k in range(n):
        ps = [ptr_at(c, b.fields[o][1], k) for o in (0, 8, 16, 24)]
        t = [None if p.isnull else c.text(PtrView(c, p)).bytes() for p in ps[:3]]
        out.append(t + [ps[3], b.fields[32][1](k)])
    return out


def plan(c, args, rows):
    """(status, [(row, pointer to the text of the value)])"""
    def txt(p):
        return c.text(PtrView(c, p)).bytes()
    for lo, sh, _d, v, kk in rows:
        if lo is None or sh is None or v.isnull or len(sh) > 3 or not 0 <= kk < T_COUNT:
            return -1, []
    if len(args) == 2 and (txt(args[1])[:1] == b'?' or txt(args[1]) in (b'-h', b'--help')):
        return 1, []
    todo, i = [], 1
    while i < len(args):
        t = txt(args[i])
        at = t.find(b'=')
        name = t[:at] if at > 0 else t
        hit = [r for r in rows if name in (r[0], r[1])]
        if not hit:
            return -1, todo
        if at > 0:
            todo.append((hit[0], args[i].plus(at + 1)))
        elif i + 1 < len(args) and txt(args[i + 1])[:1] != b'-':
            i += 1
            todo.append((hit[0], args[i]))
        else:
            todo.append((hit[0], c.eng.literal(b'1\0')))
        i += 1
    return 0, todo


@spec('vt_argopt_parse', Int(ULONG, 'argc', pick=[0, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4] + list(range(5, 21))), Args(), Int(ULONG, 'optc', pick=[0, 1, 1, 1, 2, 2, 2, 3, 3, 3] + list(range(4, 17))),
      Table(2), ParseAlloc(), prop='argopt', bounded='generated command lines of up to 20 words and tables of up to 16 options')
def parse(c, argc, argv, optc, optv, al):
    bad = optv.null or argv.null or argc == 0 or optc == 0
    c.exit_if(bad)
    st, todo = 0, []
    if not bad:
        col = c.eng.blk(argv.p.bid).fields[0][1]
        st, todo = plan(c, [ptr_at(c, col, k) for k in range(argc)], rows_of(c, optc, optv))
        c.requires(all(fits(c, r[4], CV(c, p)) for r, p in todo), 'numbers fit their types')
    c.start()
    # the last value given for a variable counts (a number that was given first is overwritten)
    last = {}
    for r, p in todo:
        last[r[3].bid] = (r, p)
    for r, p in last.values():
        put_value(c, r[4], r[3], CV(c, p), al)
    return I(st, c.rty) if c.rty else st


@spec('vt_argopt_print_help', CStr('header', pick=[b'', b'usage:', b'100%d', b'two\nlines', b'h' * 80, b' x']), CStr('footer', pick=[b'', b'bye', b'%s', b'f' * 90, b' ']), Int(ULONG, 'optc', pick=list(range(18))),
      Table(2, help=True), prop='argopt', opts=dict(console=True), bounded='generated tables of up to 17 options')
def print_help(c, head, foot, optc, optv):
    bad = optv.null or optc == 0
    c.exit_if(bad)
    c.start()
    rows = rows_of(c, optc, optv)
    w = [max([n] + [len(r[i]) for r in rows]) for i, n in ((0, 6), (1, 2))]
    out = [] if head.null else [c.text(head).bytes() + b'\n']
    for lo, sh, d in [r[:3] for r in rows] + [(b'--help', b'-h', b'This help information.')]:
        out.append(sh.rjust(w[1]) + b' ' + lo.rjust(w[0]) + b' ' + d + b'\n')
    out += [] if foot.null else [c.text(foot).bytes() + b'\n']
    c.say('stdout', [c.fs.lit(b''.join(out))])
