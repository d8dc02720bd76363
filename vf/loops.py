"""Loops: unrolled while the condition is a constant, otherwise cut at an inductive
invariant.  The invariant is inferred for the loop as it is written now: affine induction
variables over a ghost iteration counter, bounds (Houdini over a vocabulary of unmodified
terms), the representation invariants of modified containers, and the contract's
quantified facts instantiated over the loop's own variables.  Whatever is inferred is only
used after its initiation and consecution have been discharged as obligations."""
import z3
from .tm import *
from .mem import *
from .mem import _ver
from .cast import Unsupported, VOID, BOOL, CHAR, INT, LONG, ULONG, UCHAR
from .ex import (PathEnd, Infeasible, ExitEx, ReturnEx, BreakEx, ContinueEx, GotoEx, Budget, UNINIT, Ref, int_bounds,
                 FP_SORT)
from . import solver

UNROLL = 70


class LoopExit(Exception):
    pass


class BackEdge(Exception):
    pass


def literal_true(cond):
    e = cond
    while e is not None and e['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr'):
        e = e['inner'][0]
    return e is None or (e['kind'] == 'IntegerLiteral' and int(e['value']) != 0)


def flag_only(cond):
    """the condition is a variable or its negation"""
    e = cond
    while e is not None and (e['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr') or
                             e['kind'] == 'UnaryOperator' and e.get('opcode') == '!'):
        e = e['inner'][0]
    return e is not None and e['kind'] == 'DeclRefExpr'


def iterate(eng, cond, inc, body, is_do):
    """one iteration from the loop head; raises LoopExit or returns at the back edge"""
    if not is_do and cond is not None:
        if not eng.branch(eng.truth(eng.ev(cond))):
            raise LoopExit()
    try:
        eng.ex(body)
    except ContinueEx:
        pass
    except BreakEx:
        raise LoopExit()
    if inc is not None:
        eng.ev(inc)
    if is_do and cond is not None:
        if not eng.branch(eng.truth(eng.ev(cond))):
            raise LoopExit()


def run_loop(eng, node, cond, inc, body, is_do):
    eng.check_time()
    first = is_do
    if eng.concrete_mode:
        raise Unsupported('loop in concrete mode')
    lim = eng.opts.get('unroll')
    if lim:
        # complete unrolling: the loop provably stops within `lim` iterations
        try:
            for _ in range(lim + 1):
                iterate(eng, cond, inc, body, is_do)
        except LoopExit:
            return
        raise Unsupported('loop runs more than %d times' % lim)
    for _ in range(UNROLL):
        if not is_do and (literal_true(cond) or flag_only(cond)):
            break
        if not first:
            # evaluate the condition; unroll only if it is decided syntactically
            save = (eng.st.copy(), eng.qn, eng.n, _ver[0], len(eng.trace))
            nq = len(eng.work)
            c = None
            try:
                cv = peek(eng, cond)
                c = cv
            except (Unsupported, PathEnd, ExitEx):
                c = None
            eng.st, eng.qn, eng.n, _ver[0] = save[0], save[1], save[2], save[3]
            if c is None:
                break
            if c is False:
                # really evaluate, for its effects
                eng.truth(eng.ev(cond))
                return
            eng.truth(eng.ev(cond))
        else:
            # do-while: first iteration is always executed; only unroll when decidable
            break
        try:
            eng.ex(body)
        except ContinueEx:
            pass
        except BreakEx:
            return
        if inc is not None:
            eng.ev(inc)
    cut(eng, node, cond, inc, body, is_do)


class Undecided(Exception):
    pass


def peek(eng, cond):
    """truth value of cond if it is syntactically constant, else None (no side effects kept)"""
    ob, cb = eng.quiet, eng.branch
    eng.quiet += 1
    sub = eng.sub
    eng.sub = sub + ((tuple(eng.trace), eng.qn, 'peek'),)

    def nobranch(c):
        c = simp(c) if sym(c) else c
        if isinstance(c, bool):
            return c
        raise Undecided()
    eng.branch = nobranch
    try:
        c = eng.truth(eng.ev(cond))
        c = simp(c) if sym(c) else c
        return c if isinstance(c, bool) else None
    except Undecided:
        return None
    finally:
        eng.quiet = ob
        eng.sub = sub
        del eng.branch


# ---------------------------------------------------------------- exploration of the body
def explore(eng, base, tag, fn, maxpaths=200):
    """run fn() on every path starting in state `base`, without touching the outer search"""
    saved = (eng.trace, eng.prefix, eng.work, eng.qn, eng.n, eng.st, eng.sub, eng.line, list(eng.callstack), _ver[0], eng.npaths)
    key = (tuple(saved[0]), saved[3], tag)
    work = [[]]
    n0 = saved[4]
    np = 0
    try:
        eng.quiet += 1
        eng.sub = saved[6] + (key,)
        eng.npaths = 0
        eng.work = work
        while work:
            np += 1
            if np > maxpaths:
                raise Budget('loop body has too many paths')
            eng.prefix = work.pop()
            eng.trace = []
            eng.qn = 0
            eng.n = n0
            _ver[0] = saved[9]
            eng.st = base.copy()
            eng.callstack = list(saved[8])
            eng.work = work
            try:
                fn()
            except PathEnd:
                pass
    finally:
        eng.quiet -= 1
        (eng.trace, eng.prefix, eng.work, eng.qn, eng.n, eng.st, eng.sub, eng.line, eng.callstack, _ver[0], eng.npaths) = saved


# ---------------------------------------------------------------- slots
class Slot:
    """a location modified by the loop"""

    def __init__(self, key):
        self.key = key

    def get(self, st):
        k = self.key
        if k[0] == 'var':
            return st.frames[-1].get(k[1], UNINIT)
        if k[0] == 'cell':
            return st.mem[k[1]].cells[k[2]][1]
        if k[0] == 'content':
            return st.mem[k[1]].content
        if k[0] == 'field':
            return st.mem[k[1]].fields[k[2]][1]
        if k[0] == 'ghost':
            return st.ghost.get(k[1])
        raise KeyError(k)

    def set(self, eng, v):
        st = eng.st
        k = self.key
        if k[0] == 'var':
            st.frames[-1][k[1]] = v
        elif k[0] == 'cell':
            b = eng.mut(k[1])
            b.cells[k[2]] = (b.cells[k[2]][0], v)
        elif k[0] == 'content':
            b = eng.mut(k[1])
            b.content = v
        elif k[0] == 'field':
            b = eng.mut(k[1])
            b.fields[k[2]] = (b.fields[k[2]][0], v)
        elif k[0] == 'ghost':
            st.ghost[k[1]] = v

    @property
    def name(self):
        return '_'.join(str(x).split('#')[-1] for x in self.key)


def term(v):
    """integer view of a value (offset for pointers), else None"""
    if isinstance(v, I):
        return v.t
    if isinstance(v, P) and v.bid is not None:
        return v.off
    if isinstance(v, int) and not isinstance(v, bool):
        return v
    if sym(v) and z3.is_int(v):
        return v
    return None


def symbols(t, out=None):
    out = set() if out is None else out
    if not sym(t):
        return out
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    return out


class Analysis:
    pass


def cut(eng, node, cond, inc, body, is_do):
    lid = node.get('id')
    line = node.get('_line')
    akey = (eng.sub, tuple(eng.trace), eng.qn, lid)
    a = eng.loopcache.get(akey)
    if a is None:
        # the counters behind query keys and names are those of a run that finds the analysis cached
        qn, n, ver, sub = eng.qn, eng.n, _ver[0], eng.sub
        eng.sub = sub + ((tuple(eng.trace), qn, lid, 'analyse'),)
        try:
            a = analyse(eng, node, cond, inc, body, is_do)
        finally:
            eng.sub = sub
        eng.qn, eng.n, _ver[0] = qn, n, ver
        eng.loopcache[akey] = a
        if not eng.quiet:
            eng.looplog.append(dict(line=line, invariants=[c.desc for c in a.inv], strides=len(a.stride),
                                    measure=a.measure[0] if a.measure else None))
    eng.st.ghost['approx'] = eng.st.ghost.get('approx', 0) + 1
    eng.line = line or eng.line
    # initiation
    vals0 = a.vals(eng.st, 0)
    for c in a.inv:
        c.oblige(eng, vals0, 'loop invariant holds on entry: ' + c.desc, line)
    for c in a.conts:
        c.check(eng, 'inv', 'loop invariant (container) holds on entry: ')
    head = eng.st.copy()
    havoc(eng, a, head)
    t = a.t
    vals = a.vals(eng.st, t)
    for c in a.inv:
        c.assume(eng, vals)
    if not eng.feasible(True):
        raise Infeasible()
    outer, eng.st.log = eng.st.log, set()
    try:
        iterate(eng, cond, inc, body, is_do)
    except LoopExit:
        return
    finally:
        mine = eng.st.log
        eng.st.log = None if outer is None else outer | (mine or set())
    # back edge: consecution
    missed(eng, a, head, mine)
    check_shapes(eng, a, head)
    nv = a.vals(eng.st, Add(t, 1))
    for s in a.slots:
        if s.key in a.stride:
            x = term(s.get(eng.st))
            want = a.affine(s, head, Add(t, 1))
            eng.oblige('inv', 'induction variable keeps its stride', Eq(x, want), line)
        if s.key in a.cdef:
            check_cdef(eng, a, s, head, nv, line)
    for c in a.inv:
        c.oblige(eng, nv, 'loop invariant is preserved: ' + c.desc, line)
    for c in a.conts:
        c.check(eng, 'inv', 'loop invariant (container) is preserved: ')
    if a.measure:
        eng.oblige('term', 'loop terminates: ' + a.measure[0], a.measure[1](vals, nv), line)
    elif not eng.opts.get('noterm'):
        if not eng.quiet:
            eng.noterm = getattr(eng, 'noterm', set())
            eng.noterm.add(line)
    raise PathEnd()


def check_shapes(eng, a, head):
    for s in a.slots:
        if s.key in a.contkeys:
            continue
        h = s.get(head)
        v = s.get(eng.st)
        if isinstance(h, P):
            if not isinstance(v, P):
                raise Unsupported('pointer variable changes kind in a loop')
            v = eng.resolve(v)
            sh = a.shapes.get(s.key, {h.bid})
            cd = [x for x in sh if isinstance(x, tuple) and x[0] == 'cdata']
            if cd:
                if v.bid != eng.st.mem[cd[0][1]].cells[40][1].bid:
                    raise Unsupported('pointer into a container outlives a reallocation')
                continue
            if v.bid not in sh and not (v.isnull and None in sh):
                raise Unsupported('pointer changes object in a loop')


def missed(eng, a, head, log):
    """everything an iteration changed is part of the invariant's footprint"""
    ks, fr = slots_of(eng, head, log)
    datab = {head.mem[c.bid].cells[40][1].bid for c in a.conts if not c.stay}
    have = {s.key for s in a.slots} | a.contkeys
    for k in ks:
        if k not in have and not (k[0] in ('content', 'field') and k[1] in datab):
            raise Unsupported('loop changes a location the analysis did not see')
    if fr - datab:
        raise Unsupported('loop frees an object')


def slots_of(eng, head, log):
    keys = []
    bad = []
    freed = set()
    for k in sorted(log, key=str):
        if k[0] == 'var':
            if k[1] in head.frames[-1] and not isinstance(head.frames[-1][k[1]], Ref):
                keys.append(k)
        elif k[0] in ('cell', 'content', 'field'):
            if k[1] in head.mem and head.mem[k[1]].alive:
                keys.append(k)
        elif k[0] == 'ghost':
            keys.append(k)
        elif k[0] == 'free':
            if k[1] in head.mem:
                freed.add(k[1])
    return keys, freed


class ContInv:
    """a container modified by the loop: its representation invariant is part of the loop invariant"""

    def __init__(self, bid, kind, stay=False):
        self.bid, self.kind, self.stay = bid, kind, stay

    def check(self, eng, cat, what):
        from .contract import AV, Ctx
        ctx = Ctx(eng, 'inv', eng.con)
        v = AV(ctx, P(self.bid, 0), elems=self.kind.shape == 'plist', tail=1 if self.kind.shape == 'str' else 0)
        self.kind.check_valid(ctx, v, cat, what)

    def havoc(self, eng, head):
        from .contract import AV
        hb = head.mem[self.bid]
        d0 = hb.cells[40][1]
        if self.stay:
            # only the text changes; the data block and its capacity stay
            ln = eng.fresh_int('len', ULONG, 0, MAXOBJ)
            f = eng.fresh_fn('data')
            db = eng.mut(d0.bid)
            eng.assume(Add(Add(d0.off, ln), 1) <= db.size)
            if hb.cells[32][1].b is False:
                eng.assume(ln <= hb.cells[8][1].t)
            db.content = Content(lambda k: f(zint(k)))
            q = z3.Int(eng.name('q'))
            eng.st.pc.append(z3.ForAll([q], zbool(Implies(And(q >= d0.off, q < Add(d0.off, ln)), f(q) != 0)), patterns=[f(q)]))
            end = simp(Add(d0.off, ln))
            eng.st.pc.append(f(zint(end)) == 0)
            db.nul = (end,)
            b = eng.mut(self.bid)
            b.cells[0] = (b.cells[0][0], I(ln, ULONG))
            if eng.st.log is not None:
                eng.log('cell', self.bid, 0)
                eng.log('content', d0.bid)
            return
        ow = hb.owner
        ln = eng.fresh_int('len', ULONG, 0, MAXOBJ)
        cap = eng.fresh_int('cap', ULONG, 0 if self.kind.shape == 'str' else 1, MAXOBJ)
        sl = eng.fresh_int('slider', ULONG)
        eng.assume(ln <= cap)
        es = hb.cells[16][1].t
        sh = self.kind.shape
        size = Add(cap, 1) if sh == 'str' else Mul(cap, es)
        al = hb.cells[48][1]
        d = eng.new_block('bytes', size, 'data', heap=True, owner=al.bid)
        if sh == 'plist':
            eng.make_elems(d, ('ptr', VOID), 'junk', 'data')
            fc = eng.fresh_content('el', 0, (1 << 64) - 1)
            d.fields[0] = (('ptr', VOID), fc)
        else:
            f = eng.fresh_fn('data')
            d.content = Content(lambda k: f(zint(k)))
            if sh == 'str':
                q = z3.Int(eng.name('q'))
                eng.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ln), f(q) != 0), patterns=[f(q)]))
                eng.st.pc.append(f(ln) == 0)
                d.nul = (ln,)
        b = eng.mut(self.bid)
        for o, v in ((0, I(ln, ULONG)), (8, I(cap, ULONG)), (24, I(sl, ULONG)), (40, P(d.bid, 0))):
            b.cells[o] = (b.cells[o][0], v)
        if d0.bid in eng.st.mem and d0.bid is not None:
            ob = eng.mut(d0.bid)
            ob.alive = False
        if eng.st.log is not None:
            for o in (0, 8, 24, 40):
                eng.log('cell', self.bid, o)
            eng.log('free', d0.bid)


def fresh_like(eng, s, v, shapes):
    """an arbitrary value of the same shape"""
    nm = 'l' + s.name[-12:]
    if isinstance(v, I):
        return I(eng.fresh_int(nm, v.ty), v.ty)
    if isinstance(v, B):
        return B(eng.fresh_bool(nm), v.ty)
    if isinstance(v, F):
        return F(z3.FP(eng.name(nm), FP_SORT[v.ty[1]]), v.ty)
    if isinstance(v, P):
        sh = [x for x in (shapes or {v.bid})]
        if len(sh) == 1 and isinstance(sh[0], tuple) and sh[0][0] == 'cdata':
            d = eng.st.mem[sh[0][1]].cells[40][1]
            return P(d.bid, eng.fresh_int(nm + '_off', None, -(1 << 62), 1 << 62))
        sh = sorted(sh, key=str)
        if len(sh) == 1 and sh[0] is None:
            if v.isnull:
                return NULL
            return P(addr=eng.fresh_int(nm, None, 0, (1 << 64) - 1))
        pick = sh[-1]
        for x in sh[:-1]:
            if eng.branch(eng.fresh_bool(nm + '_shape')):
                pick = x
                break
        if pick is None:
            return NULL
        return P(pick, eng.fresh_int(nm + '_off', None, -(1 << 62), 1 << 62))
    if isinstance(v, Content):
        c = eng.fresh_content(nm, 0, 255)
        return c
    if isinstance(v, int) and not isinstance(v, bool) or (sym(v) and z3.is_int(v)):
        return eng.fresh_int(nm)
    if isinstance(v, dict) or v is None:
        return v
    if v is UNINIT:
        return UNINIT
    raise Unsupported('loop modifies a value that cannot be generalised')


def havoc(eng, a, head):
    a.t = t = eng.fresh_int('iter', None, 0)
    for c in a.conts:
        c.havoc(eng, head)
    for s in a.slots:
        if s.key in a.contkeys:
            continue
        if s.key in a.stride:
            v = s.get(head)
            x = simp(a.affine(s, head, t))
            s.set(eng, I(x, v.ty) if isinstance(v, I) else (P(v.bid, x) if isinstance(v, P) else x))
            eng.log(*s.key)
            continue
        if s.key in a.cdef:
            continue
        h = s.get(head)
        if s.key[0] == 'field':
            ty = head.mem[s.key[1]].fields[s.key[2]][0]
            nc = eng.elem_content(ty, 'junk', 'loop')
            nc.uniform = None
            nc.defined = None
            s.set(eng, nc)
        elif s.key == ('ghost', 'cb_args'):
            h2 = {i: (lambda f: (lambda k: f(zint(k))))(eng.fresh_fn('cb%d' % i, None, None)) for i in range(a.ncb)}
            s.set(eng, h2)
        elif s.key[0] == 'ghost' and s.key[1] == 'cb_n' and h is None:
            s.set(eng, eng.fresh_int('cbn'))
        else:
            s.set(eng, fresh_like(eng, s, h, a.shapes.get(s.key)))
            if s.key[0] == 'content':
                b = eng.mut(s.key[1])
                b.nul = ()
        eng.log(*s.key)
    vals = a.vals(eng.st, t)
    for s in a.slots:
        if s.key in a.cdef:
            fn = a.cdef[s.key][1](head, vals)
            if s.key == ('ghost', 'cb_args'):
                s.set(eng, fn)
            else:
                h = s.get(head)
                s.set(eng, Content(fn, defined=h.defined))
            eng.log(*s.key)


def check_cdef(eng, a, s, head, nv, line):
    want = a.cdef[s.key][1](head, nv)
    got = s.get(eng.st)
    k = eng.fresh_int('k')
    saved = list(eng.st.pc)
    idx = eng.st.ghost.get('idx', ())
    eng.st.ghost['idx'] = idx + (k,)
    if s.key == ('ghost', 'cb_args'):
        n = nv.get(('ghost', 'cb_n'))
        eng.st.pc += [zbool(And(k >= 0, k < n))]
        for i in want:
            eng.oblige('inv', 'loop invariant is preserved: recorded callback argument %d' % i, Eq(want[i](k), got[i](k)), line)
    else:
        b = eng.st.mem[s.key[1]]
        n = b.size if s.key[0] == 'content' else Div(b.size, b.stride)
        eng.st.pc += [zbool(And(k >= 0, k < n))]
        x, y = want(k), got(k)
        for z in (x, y):
            if sym(z) and z.sort() == z3.IntSort():
                eng.byte_fact(simp(z))
        eng.oblige('inv', 'loop invariant is preserved: ' + a.cdef[s.key][0], Iff(x, y) if (isinstance(x, bool) or z3.is_bool(zint(x))) else Eq(x, y), line)
    eng.st.pc[:] = saved
    eng.st.ghost['idx'] = idx


# ---------------------------------------------------------------- candidates
class Cand:
    def __init__(self, desc, fn):
        self.desc, self.fn = desc, fn

    def goal(self, eng, vals):
        return self.fn(vals)

    def oblige(self, eng, vals, desc, line):
        eng.oblige('inv', desc, self.fn(vals), line)

    def assume(self, eng, vals):
        g = self.fn(vals)
        if isinstance(g, bool):
            if not g:
                raise Infeasible()
            return
        eng.st.pc.append(g)


class RCand(Cand):
    """a relation of the contract (may need instances of quantified facts)"""


class QCand:
    """forall k in [lo, hi): pred(k)"""

    def __init__(self, desc, rng, pred):
        self.desc, self.rng, self.pred = desc, rng, pred
        self.pid = id(pred)

    def goal(self, eng, vals):
        lo, hi = self.rng(vals)
        k = eng.fresh_int('k')
        eng.st.ghost['idx'] = eng.st.ghost.get('idx', ()) + (k,)
        p = self.pred(k)
        if sym(p):
            eng.byte_fact_b(p)
        return Implies(And(k >= lo, k < hi), p)

    def oblige(self, eng, vals, desc, line):
        lo, hi = self.rng(vals)
        if sym(simp(lo) if sym(lo) else lo) or sym(simp(hi) if sym(hi) else hi) or lo < hi:
            saved = list(eng.st.pc)
            idx = eng.st.ghost.get('idx', ())
            eng.oblige('inv', desc, self.goal(eng, vals), line)
            eng.st.pc[:] = saved
            eng.st.ghost['idx'] = idx

    def assume(self, eng, vals):
        lo, hi = self.rng(vals)
        eng.add_forall(lo, hi, self.pred)


def sexpr(t):
    return str(t) if not sym(t) else t.sexpr()


def vocabulary(eng, head, a, extra=()):
    """unmodified integer terms in scope, by text"""
    out = {}

    def add(t):
        t = simp(t) if sym(t) else t
        if isinstance(t, bool):
            return
        if not sym(t) and abs(t) > 4096:
            return
        out.setdefault(sexpr(t), t)
    add(0)
    modk = {s.key for s in a.slots}
    for did, v in head.frames[-1].items():
        if isinstance(v, Ref):
            continue
        x = term(v)
        if x is not None:
            add(x)
    for s in a.slots:
        x = term(s.get(head))
        if x is not None:
            add(x)
        v = s.get(head)
        if isinstance(v, P) and v.bid in head.mem:
            b = head.mem[v.bid]
            add(b.size)
            add(Sub(b.size, 1))
            for w in b.nul:
                add(w)
    for bid, b in head.mem.items():
        if b.kind == 'cells' and b.alive and b.ty and b.ty[0] == 'struct' and b.ty[1] == 'VitaBaseArrayType':
            for o in (0, 8, 16):
                if ('cell', bid, o) not in modk:
                    v = b.cells[o][1]
                    if isinstance(v, I):
                        add(v.t)
            l, e = b.cells[0][1], b.cells[16][1]
            if isinstance(l, I) and isinstance(e, I) and ('cell', bid, 0) not in modk and (not sym(e.t) and e.t == 1) is False:
                add(Mul(l.t, e.t))
    for bid, b in head.mem.items():
        if b.kind == 'cells' and b.alive and b.ty and b.ty[0] == 'struct' and b.ty[1] != 'VitaBaseArrayType' and b.initial:
            for o, (t, v) in b.cells.items():
                if isinstance(v, I) and sym(v.t) and ('cell', bid, o) not in modk:
                    add(v.t)
    for k, v in head.ghost.items():
        if isinstance(k, str) and k.startswith('strlen:'):
            add(v)
    for v in extra:
        add(v)
    return list(out.values())[:26]


def analyse(eng, node, cond, inc, body, is_do):
    """infer slots, strides and invariants (everything is re-proved afterwards)"""
    head = eng.st.copy()
    lid = node.get('id')
    a = Analysis()
    a.slots, a.conts, a.contkeys, a.stride, a.cdef, a.shapes = [], [], set(), {}, {}, {}
    a.inv, a.measure, a.t, a.ncb = [], None, None, 0

    def affine(s, hd, t):
        v = s.get(hd)
        x0 = term(v)
        if x0 is None:
            x0 = 0
        return Add(x0, Mul(a.stride[s.key], t))
    a.affine = affine

    def vals(st, t):
        d = {'t': t}
        for s in a.slots:
            v = s.get(st)
            x = term(v)
            if x is None and isinstance(v, B):
                x = v.b
            if x is None and s.key[0] == 'ghost' and v is None:
                x = 0
            if x is not None:
                d[s.key] = x
        for c in a.conts:
            d[('clen', c.bid)] = st.mem[c.bid].cells[0][1].t
        return d
    a.vals = vals

    # 1. which locations does an iteration modify?
    keys = set()
    freed = set()
    for _round in range(12):
        logs = []
        nshape = {}

        def run():
            eng.st.log = set()
            havoc(eng, a, head)
            try:
                iterate(eng, cond, inc, body, is_do)
            except (LoopExit, ReturnEx, ExitEx, GotoEx):
                return          # what only leaving paths change is not part of the state at the loop head
            logs.append(eng.st.log)
            for k in eng.st.log:
                if k[0] == 'ghost' and k[1] == 'cb_args':
                    a.ncb = max(a.ncb, len(eng.st.ghost['cb_args']))
            for s in a.slots:
                v = s.get(eng.st)
                if isinstance(v, P):
                    v = eng.resolve(v)
                    cd = None
                    for c in a.conts:
                        if not c.stay and v.bid is not None and eng.st.mem[c.bid].cells[40][1].bid == v.bid:
                            cd = ('cdata', c.bid)
                    if cd:
                        nshape.setdefault(s.key, set()).add(cd)
                        continue
                    if v.bid is not None and v.bid not in head.mem:
                        continue
                    if v.bid is None and not v.isnull:
                        continue
                    nshape.setdefault(s.key, set()).add(v.bid)
        eng.optimistic += 1
        try:
            explore(eng, head, ('mod', _round), run)
        finally:
            eng.optimistic -= 1
        allk = set()
        fr = set()
        for lg in logs:
            ks, f = slots_of(eng, head, lg)
            allk |= set(ks)
            fr |= f
        changed = False
        # containers whose data pointer moves
        from .contract import ARR
        for k in list(allk):
            if k[0] == 'cell' and k[2] in (0, 40) and head.mem[k[1]].ty == ARR and k[1] in eng.conts:
                if k[1] not in {c.bid for c in a.conts if not c.stay} and (k[2] == 40 or ('cell', k[1], 40) in allk):
                    for c in a.conts:
                        if c.bid == k[1]:
                            a.contkeys -= {('cell', c.bid, 0), ('content', head.mem[c.bid].cells[40][1].bid)}
                    a.conts = [c for c in a.conts if c.bid != k[1]]
                    a.conts.append(ContInv(k[1], eng.conts[k[1]]))
                    a.slots = [s for s in a.slots if not (s.key[0] == 'content' and s.key[1] == head.mem[k[1]].cells[40][1].bid)
                               and not (s.key[:2] == ('cell', k[1]) and s.key[2] in (0, 8, 24, 40))]
                    changed = True
        from . import contract as C0
        if not any(isinstance(h, C0.content) for h in eng.hints):
            for bid, kind in eng.conts.items():
                if kind.shape != 'str' or not kind.text or bid not in head.mem or bid in {c.bid for c in a.conts} or not head.mem[bid].alive:
                    continue
                hb = head.mem[bid]
                if hb.kind == 'cells' and isinstance(hb.cells[40][1], P) and ('content', hb.cells[40][1].bid) in allk and isinstance(hb.cells[32][1], B) and isinstance(hb.cells[32][1].b, bool):
                    a.conts.append(ContInv(bid, kind, stay=True))
                    a.slots = [s for s in a.slots if s.key not in (('cell', bid, 0), ('content', hb.cells[40][1].bid))]
                    changed = True
        datab = set()
        for c in a.conts:
            if c.stay:
                a.contkeys.add(('cell', c.bid, 0))
                a.contkeys.add(('content', head.mem[c.bid].cells[40][1].bid))
                continue
            datab.add(head.mem[c.bid].cells[40][1].bid)
            for o in (0, 8, 24, 40):
                a.contkeys.add(('cell', c.bid, o))
        if fr - datab:
            raise Unsupported('loop frees an object')
        for k in sorted(allk, key=str):
            if k in a.contkeys:
                continue
            if k[0] in ('content', 'field') and k[1] in datab:
                continue
            if k not in keys:
                keys.add(k)
                a.slots.append(Slot(k))
                changed = True
        for s in a.slots:
            v = s.get(head)
            if isinstance(v, P) and s.key in nshape:
                hv0 = eng.resolve(v)
                own = hv0.bid
                for c in a.conts:
                    if not c.stay and own is not None and head.mem[c.bid].cells[40][1].bid == own:
                        own = ('cdata', c.bid)
                sh = set(nshape[s.key]) | {own}
                if len(sh) > 1 and any(isinstance(x, tuple) for x in sh):
                    raise Unsupported('pointer into a container mixed with other pointers in a loop')
                if a.shapes.get(s.key, {v.bid}) != sh:
                    a.shapes[s.key] = sh
                    changed = True
        if not changed:
            break
    else:
        raise Unsupported('loop modification set does not stabilise')

    # 2. constant strides
    deltas = {}
    nback = [0]

    def run2():
        havoc(eng, a, head)
        v0 = vals(eng.st, a.t)
        names = set()
        for k, x in v0.items():
            symbols(x, names)
        for c in a.conts:
            names |= symbols(eng.st.mem[c.bid].cells[0][1].t)
        try:
            iterate(eng, cond, inc, body, is_do)
        except (LoopExit, ReturnEx, ExitEx, GotoEx):
            return
        nback[0] += 1
        v1 = vals(eng.st, Add(a.t, 1))
        for s in a.slots:
            if s.key in v0 and s.key in v1 and not isinstance(s.get(head), B):
                d = simp(Sub(v1[s.key], v0[s.key])) if not z3.is_bool(zint(v0[s.key])) else None
                if d is None:
                    deltas[s.key] = None
                    continue
                d = simp(z3.simplify(d, som=True)) if sym(d) else d
                if sym(d) and (symbols(d) & names or any('!' in nm and int(nm.split('!')[-1]) > n_head for nm in symbols(d) if nm.split('!')[-1].isdigit())):
                    deltas[s.key] = None
                elif s.key in deltas and (deltas[s.key] is None or sexpr(deltas[s.key]) != sexpr(d)):
                    deltas[s.key] = None
                else:
                    deltas[s.key] = d
            elif s.key in v0:
                deltas[s.key] = None
    n_head = eng.n
    eng.optimistic += 1
    try:
        explore(eng, head, ('stride',), run2)
    finally:
        eng.optimistic -= 1
    for s in a.slots:
        d = deltas.get(s.key)
        h = s.get(head)
        if s.key in deltas and d is not None and len(a.shapes.get(s.key, {1})) == 1 and h is not UNINIT:
            if term(h) is not None or (s.key == ('ghost', 'cb_n')):
                a.stride[s.key] = d

    if eng.optimistic:
        # an enclosing loop only asks which locations change
        a.inv, a.measure = [], None
        return a
    # 3. candidates
    cands = []
    voc = vocabulary(eng, head, a)
    subj = ['t'] if a.stride else []
    for s in a.slots:
        v = s.get(head)
        if term(v) is not None and s.key[0] != 'ghost':
            subj.append(s.key)
    for c in a.conts:
        subj.append(('clen', c.bid))
    sh = {s.key: s for s in a.slots}
    for c in a.conts:
        sh[('clen', c.bid)] = Slot(('cell', c.bid, 0))

    def names(k):
        return 'iterations' if k == 't' else Slot(k).name

    def label(k):
        return k
    for k in subj:
        for u in voc:
            us = short(u)
            cands.append(Cand('%s <= %s' % (vname(eng, k), us), (lambda k, u: lambda v: zle(v[k], u))(k, u)))
            cands.append(Cand('%s >= %s' % (vname(eng, k), us), (lambda k, u: lambda v: zle(u, v[k]))(k, u)))
            if k != 't':
                cands.append(Cand('%s != %s' % (vname(eng, k), us), (lambda k, u: lambda v: Ne(v[k], u))(k, u)))
    for i, k in enumerate(subj):
        for k2 in subj[i + 1:]:
            if k == 't' or (k in a.stride and k2 in a.stride):
                continue
            cands.append(Cand('%s <= %s' % (vname(eng, k), vname(eng, k2)), (lambda k, u: lambda v: zle(v[k], v[u]))(k, k2)))
            cands.append(Cand('%s >= %s' % (vname(eng, k), vname(eng, k2)), (lambda k, u: lambda v: zle(v[u], v[k]))(k, k2)))
            cands.append(Cand('%s == %s' % (vname(eng, k), vname(eng, k2)), (lambda k, u: lambda v: Eq(v[u], v[k]))(k, k2)))
    for k2 in subj:
        if k2 == 't' or not isinstance(sh[k2].get(head), P):
            continue
        for k in subj:
            if k == 't' or k == k2 or isinstance(sh[k].get(head), P) or (k in a.stride and k2 in a.stride):
                continue
            for u in voc:
                for d in (-1, 0):
                    cands.append(Cand('%s == %s + %s%s' % (vname(eng, k2), vname(eng, k), short(u), ' - 1' if d else ''),
                                      (lambda k, k2, u, d: lambda v: Implies(v[k] >= 1, Eq(v[k2], Add(Add(v[k], u), d))))(k, k2, u, d)))
    for s in a.slots:
        v = s.get(head)
        if isinstance(v, B):
            cands.append(Cand('%s unchanged' % vname(eng, s.key), (lambda k, b: lambda w: Iff(w[k], b))(s.key, v.b)))
    # contract hints
    qc = []
    from . import contract as C
    c0 = eng.pre_ctx
    hints = sorted(eng.hints, key=lambda h: isinstance(h, C.content))
    nrel = 0
    for h in hints:
        hv = hint_value(eng, h, c0)
        if hv is None:
            continue
        if isinstance(h, C.scan):
            preds = hv if isinstance(hv, (list, tuple)) else [hv]
            if h.each:
                voc2 = [term(v) for did, v in head.frames[-1].items() if not isinstance(v, Ref) and term(v) is not None]
                preds = [(lambda pr, u: lambda k: pr(k, u))(pr, u) for pr in preds
                         for u in {sexpr(simp(x) if sym(x) else x): x for x in voc2}.values()]
            for pi, pred in enumerate(preds):
                for k in subj:
                    if k == 't':
                        continue
                    base = term(sh[k].get(head))
                    sd = a.stride.get(k)
                    up = sd is not None and not sym(sd) and sd > 0
                    down = sd is not None and not sym(sd) and sd < 0
                    if h.each and not up and not down:
                        continue
                    for (d, dn) in ((0, ''), (1, '+1')):
                        for lo in {sexpr(x): x for x in (0, base)}.values():
                            if down:
                                break
                            qc.append(QCand('all in [%s, %s%s) satisfy the scan predicate %d' % (short(lo), vname(eng, k), dn, pi),
                                            (lambda k, lo, d: lambda v: (lo, Add(v[k], d)))(k, lo, d), pred))
                        for hi in [u for u in voc if sym(u)] + ([base] if sym(base) else []) + ([Add(base, 1)]):
                            if up:
                                break
                            qc.append(QCand('all in [%s%s, %s) satisfy the scan predicate %d' % (vname(eng, k), dn, short(hi), pi),
                                            (lambda k, hi, d: lambda v: (Add(v[k], d), hi))(k, hi, d), pred))
                    if up or isinstance(sh[k].get(head), P):
                        continue
                    sums = {sexpr(simp(x)): simp(x) for did, v in head.frames[-1].items()
                            if ('var', did) not in sh and isinstance(v, I) and sym(simp(v.t)) for x in [v.t]}
                    for u in sums.values():
                        for hi in [w for w in voc if sym(w)]:
                            qc.append(QCand('all in [%s+%s, %s) satisfy the scan predicate %d' % (vname(eng, k), short(u), short(hi), pi),
                                            (lambda k, u, hi: lambda v: (Add(v[k], u), hi))(k, u, hi), pred))
        elif isinstance(h, C.relate):
            import itertools
            for tup in itertools.permutations(subj, h.n):
                nrel += 1
                cands.append(RCand('relation over ' + ', '.join(vname(eng, k) for k in tup),
                                  (lambda tup, hv: lambda v: hv(*[v[k] for k in tup]))(tup, hv)))
        elif isinstance(h, C.flag):
            flags = [s.key for s in a.slots if isinstance(s.get(head), B)]
            consts = {sexpr(simp(v.t) if sym(v.t) else v.t): v.t for did, v in head.frames[-1].items()
                      if ('var', did) not in sh and isinstance(v, I) and v.ty != BOOL}
            consts.setdefault('0', 0)
            for b in flags:
                for neg in (False, True):
                    for k in subj:
                        if k == 't' or isinstance(sh[k].get(head), P):
                            continue
                        nrel += 1
                        cands.append(RCand('%s%s tells about position %s' % ('not ' if neg else '', vname(eng, b), vname(eng, k)),
                                           (lambda b, k, neg: lambda v: Implies(Not(v[b]) if neg else v[b], hv(v[k])))(b, k, neg)))
                        for u in consts.values():
                            cands.append(RCand('%s%s tells about position %s + %s - 1' % ('not ' if neg else '', vname(eng, b), vname(eng, k), short(u)),
                                               (lambda b, k, neg, u: lambda v: Implies(And(Not(v[b]) if neg else v[b], v[k] > 0), hv(simp(Sub(Add(v[k], u), 1)))))(b, k, neg, u)))
        elif isinstance(h, C.content):
            for s in a.slots + a.slots:     # one content may depend on another
                if s.key[0] in ('content', 'field') and s.key not in a.cdef:
                    g = hv.get(s.key[1]) if isinstance(hv, dict) else hv
                    if g is None:
                        continue
                    try_content(eng, a, s, g, head, subj, sh, cond, inc, body, is_do, hint_value(eng, h, c0, h.bound) if h.bound else None,
                                (lid, cands, qc) if nrel or any(getattr(x, 'each', False) for x in hints) else None)
    for s in a.slots:
        if s.key == ('ghost', 'cb_args') and ('ghost', 'cb_n') in a.stride:
            try_callback(eng, a, s, head, cond, inc, body, is_do)
    # 4. Houdini
    a.inv = []
    live, lq, _ = houdini(eng, a, head, lid, cands, qc, cond, inc, body, is_do)
    lq = cover(eng, a, head, live, lq)
    a.inv = prune(live) + lq
    # 5. termination measure
    meas = []
    for k in subj:
        if k == 't':
            for u in voc:
                if sym(u) or u > 0:
                    meas.append(('iterations < %s' % short(u), (lambda u: lambda v, w: And(v['t'] < u))(u)))
        else:
            for u in voc:
                meas.append(('%s increases and stays <= %s' % (vname(eng, k), short(u)),
                             (lambda k, u: lambda v, w: And(w[k] > v[k], w[k] <= u))(k, u)))
                meas.append(('%s decreases and stays >= %s' % (vname(eng, k), short(u)),
                             (lambda k, u: lambda v, w: And(w[k] < v[k], w[k] >= u))(k, u)))
    for c in a.conts:
        kc = ('clen', c.bid)
        meas.append(('the length decreases', (lambda kc: lambda v, w: And(w[kc] < v[kc]))(kc)))
        for k in subj:
            if k != 't' and k != kc:
                meas.append(('the part of the text after %s gets shorter' % vname(eng, k),
                             (lambda kc, k: lambda v, w: And(w[kc] - w[k] < v[kc] - v[k], v[kc] - v[k] >= 0))(kc, k)))
    mk = list(meas)
    good = [None]

    def run4():
        havoc(eng, a, head)
        vv = vals(eng.st, a.t)
        for c in a.inv:
            c.assume(eng, vv)
        lens0 = [eng.st.mem[c.bid].cells[0][1].t for c in a.conts]
        try:
            iterate(eng, cond, inc, body, is_do)
        except (LoopExit, ReturnEx, ExitEx, GotoEx):
            return
        nv = vals(eng.st, Add(a.t, 1))
        ok = filter_valid(eng, [(m, m[1](vv, nv)) for m in meas])
        meas[:] = [m for m in meas if m in ok]
    explore(eng, head, ('measure',), run4)
    a.measure = meas[0] if meas else None
    return a


def houdini(eng, a, head, lid, cands, qc, cond, inc, body, is_do, slot=None):
    """the largest subset of the candidates that is inductive, together with the content of
    `slot` when one is given (its fate is the third result)"""
    key = (lid, tuple(eng.trace), eng.igen, len(cands), len(qc), slot.key if slot else None)
    prev = eng.icache.get(key) if eng.igen else None
    eng.ngen += 1
    outer, eng.igen = eng.igen, eng.igen + (eng.ngen,)
    try:
        if prev is not None:
            # an earlier round of the enclosing inference, with stronger assumptions, left these
            ci, qi = prev
            c1, q1 = [cands[i] for i in ci], [qc[i] for i in qi]
        else:
            c1, q1 = cands, qc
        live, lq, ok = houdini1(eng, a, head, c1, q1, cond, inc, body, is_do, slot)
    finally:
        eng.igen = outer
    if eng.igen:
        lv, lk = set(map(id, live)), set(map(id, lq))
        eng.icache[key] = ([i for i, c in enumerate(cands) if id(c) in lv], [i for i, c in enumerate(qc) if id(c) in lk])
    return live, lq, ok


def houdini1(eng, a, head, cands, qc, cond, inc, body, is_do, slot):
    vals = a.vals
    v0 = vals(head, 0)
    eng.st = head.copy()
    n_save, ver_save, qn_save = eng.n, _ver[0], eng.qn
    live = filter_valid(eng, [(c, c.goal(eng, v0)) for c in cands])
    lq = []
    for c in qc:
        lo, hi = c.rng(v0)
        lo, hi = (simp(lo) if sym(lo) else lo), (simp(hi) if sym(hi) else hi)
        if isinstance(simp(zle(hi, lo)), bool) and simp(zle(hi, lo)):
            lq.append(c)
            continue
        st = eng.st.copy()
        ok = quick_valid(eng, c.goal(eng, v0))
        eng.st = st
        if ok:
            lq.append(c)
    eng.n, _ver[0], eng.qn = n_save, ver_save, qn_save
    eng.st = head
    rnd = 0
    good = [True]
    while True:
        rnd += 1
        if rnd > 25:
            raise Unsupported('invariant inference does not converge')
        dropped = [False]
        cur = live + lq

        def run3():
            havoc(eng, a, head)
            vv = vals(eng.st, a.t)
            for c in cur:
                c.assume(eng, vv)
            try:
                iterate(eng, cond, inc, body, is_do)
            except (LoopExit, ReturnEx, ExitEx, GotoEx):
                return
            nv = vals(eng.st, Add(a.t, 1))
            alive = [c for c in live if c in keep]
            ok = filter_valid(eng, [(c, c.goal(eng, nv)) for c in alive])
            for c in alive:
                if c not in ok:
                    keep.discard(c)
                    dropped[0] = True
            for c in [c for c in lq if c in keep]:
                st = eng.st.copy()
                fine = quick_valid(eng, c.goal(eng, nv))
                eng.st = st
                if not fine:
                    keep.discard(c)
                    dropped[0] = True
            if slot is not None and good[0] and not content_step(eng, a, slot, head, nv):
                good[0] = False
        keep = set(cur)
        explore(eng, head, ('houdini', rnd), run3)
        live = [c for c in live if c in keep]
        lq = [c for c in lq if c in keep]
        if not dropped[0] or not good[0]:
            break
    return live, lq, good[0]


def content_step(eng, a, s, head, nv):
    b = head.mem[s.key[1]]
    size = b.size if s.key[0] == 'content' else Div(b.size, b.stride)
    kk = eng.fresh_int('k')
    eng.st.ghost['idx'] = eng.st.ghost.get('idx', ()) + (kk,)
    x, y = a.cdef[s.key][1](head, nv)(kk), s.get(eng.st)(kk)
    for z in (x, y):
        if sym(z):
            eng.byte_fact(simp(z))
    return quick_valid(eng, Implies(And(kk >= 0, kk < size), Eq(x, y)))


def cover(eng, a, head, live, lq):
    """drop quantified facts whose range lies inside that of another one"""
    if not lq:
        return lq
    out = []
    void = []

    def run():
        havoc(eng, a, head)
        vv = a.vals(eng.st, a.t)
        for c in live:
            c.assume(eng, vv)
        rs = [c.rng(vv) for c in lq]
        pairs = [(i, j) for i in range(len(lq)) for j in range(len(lq)) if i != j and lq[i].pid == lq[j].pid]
        good = set(filter_valid(eng, [((i, j), And(rs[j][0] <= rs[i][0], rs[i][1] <= rs[j][1])) for i, j in pairs]))
        out.append(good)
        void.append(set(filter_valid(eng, [(i, r[1] <= r[0]) for i, r in enumerate(rs)])))
    explore(eng, head, ('cover',), run)
    empty = set.intersection(*void) if void else set()
    good = set.intersection(*out) if out else set()
    gone = set(empty)
    for i in range(len(lq)):
        if i not in gone and any((i, j) in good and j not in gone for j in range(len(lq))):
            gone.add(i)
    return [c for i, c in enumerate(lq) if i not in gone]


def prune(live):
    return live


def zle(a, b):
    r = a <= b
    return r


def short(u):
    return str(u).replace('\n', ' ')[:40]


def vname(eng, k):
    if k == 't':
        return 'iterations'
    if k[0] == 'var':
        return eng.var_name(k[1])
    return Slot(k).name


def hint_value(eng, h, ctx, fn=None):
    """evaluate a hint against the state on entry to the function"""
    cur = eng.st
    eng.st = eng.s0.copy()
    try:
        return fn(ctx) if fn else h.mk(ctx, *ctx.args)
    finally:
        eng.st = cur


def quick_valid(eng, g, timeout=1200):
    g = simp(g) if sym(g) else g
    if isinstance(g, bool):
        return g
    eng.check_time()
    pre = list(eng.facts())
    inst = eng.instances(g)
    r = solver.check_unsat(eng.facts() + inst + [Not(g)], timeout, want_model=False)
    del eng.st.pc[len(pre):]
    return r.status == 'proved'


def filter_valid(eng, pairs):
    """candidates whose goal is entailed by the path condition (model-guided)"""
    out = []
    todo = []
    for c, g in pairs:
        if isinstance(c, RCand):
            if quick_valid(eng, g):
                out.append(c)
            continue
        g = simp(g) if sym(g) else g
        if isinstance(g, bool):
            if g:
                out.append(c)
        else:
            todo.append((c, g))
    if todo:
        eng.check_time()
        ok = solver.entailed(eng.facts(), [g for _c, g in todo])
        out += [todo[i][0] for i in ok]
    return out


def try_content(eng, a, s, g, head, subj, sh, cond, inc, body, is_do, bound=None, rel=None):
    """find x such that: content(k) = g(k) on the side of x already processed, old(k) elsewhere"""
    old = s.get(head)
    opts = [('content unchanged', lambda hd, v: old)]
    if bound is not None:
        for k in sorted(subj, key=lambda k: k not in a.stride):
            if k != 't':
                opts.append(('content below the rank of %s is final' % vname(eng, k),
                             (lambda k: lambda hd, v: (lambda j: (lambda bd: If(j < bd, g(j), old(j)))(bound(v[k]))))(k), True))
    for k in subj:
        if k == 't':
            continue
        base = term(sh[k].get(head))
        for d in (0, 1):
            opts.append(('content below %s%s is final' % (vname(eng, k), '+1' if d else ''),
                         (lambda k, d: lambda hd, v: (lambda j: If(j < Add(v[k], d), g(j), old(j))))(k, d), *([True] if k in a.stride and not d else [])))
            opts.append(('content from %s%s on is final' % (vname(eng, k), '+1' if d else ''),
                         (lambda k, d: lambda hd, v: (lambda j: If(j >= Add(v[k], d), g(j), old(j))))(k, d)))
            if not (not sym(base) and base == 0):
                opts.append(('content in [start, %s) is final' % vname(eng, k),
                             (lambda k, d, base: lambda hd, v: (lambda j: If(And(j >= base, j < Add(v[k], d)), g(j), old(j))))(k, d, base)))
    for o in opts:
        # initiation
        ok = [True]
        v0 = a.vals(head, 0)
        size = head.mem[s.key[1]].size if s.key[0] == 'content' else Div(head.mem[s.key[1]].size, head.mem[s.key[1]].stride)
        save = (eng.st, eng.n, _ver[0], eng.qn)
        eng.st = head.copy()
        kk = eng.fresh_int('k')
        x, y = o[1](head, v0)(kk), old(kk)
        for z in (x, y):
            if sym(z):
                eng.byte_fact(simp(z))
        if not quick_valid(eng, Implies(And(kk >= 0, kk < size), Eq(x, y))):
            ok[0] = False
        eng.st, eng.n, _ver[0], eng.qn = save
        if not ok[0]:
            continue
        a.cdef[s.key] = o

        def run():
            havoc(eng, a, head)
            try:
                iterate(eng, cond, inc, body, is_do)
            except (LoopExit, ReturnEx, ExitEx, GotoEx):
                return
            if ok[0] and not content_step(eng, a, s, head, a.vals(eng.st, Add(a.t, 1))):
                ok[0] = False
        eng.optimistic += 1
        try:
            explore(eng, head, ('content', o[0]), run)
        finally:
            eng.optimistic -= 1
        if ok[0]:
            return
        if rel and o[2:]:
            # together with the relations of the contract
            lid, cands, qc = rel
            if houdini(eng, a, head, lid, cands, qc, cond, inc, body, is_do, s)[2]:
                return
        del a.cdef[s.key]


def try_callback(eng, a, s, head, cond, inc, body, is_do):
    """callback arguments as functions of the call number, from the induction variables"""
    rec = {}
    calls = [None]

    def run():
        havoc(eng, a, head)
        n0 = eng.st.ghost.get('cb_n', 0)
        try:
            iterate(eng, cond, inc, body, is_do)
        except (LoopExit, ReturnEx, ExitEx, GotoEx):
            return
        g = eng.st.ghost.get('cb_args') or {}
        for i in g:
            rec.setdefault(i, []).append((a.t, simp(g[i](n0))))
    eng.optimistic += 1
    try:
        explore(eng, head, ('callback',), run)
    finally:
        eng.optimistic -= 1
    if not rec or any(len(v) == 0 for v in rec.values()):
        return
    st = a.stride.get(('ghost', 'cb_n'))
    if st != 1:
        return
    n00 = head.ghost.get('cb_n', 0)
    fns = {}
    for i, lst in rec.items():
        t, x = lst[0]
        if any(sexpr(y[1]) != sexpr(x) for y in lst):
            return
        fns[i] = (lambda t, x: lambda k: simp(z3.substitute(zint(x), (t, zint(Sub(k, n00))))) if sym(x) else x)(t, x)
    old = head.ghost.get('cb_args')
    if old:
        return
    a.cdef[s.key] = ('recorded callback arguments', lambda hd, v: fns)
