"""Contracts: executable specifications over the abstract memory.

A contract body is run
  * at a call site ('apply'): its requires are obligations, its exit condition forks the
    path, its effect transforms the caller's state;
  * after each path of the function itself ('check'): the body is run on the pre-state and
    the resulting state and result are compared with what the code did;
  * on concrete memory ('check' on a concrete engine): the same text is the oracle for the
    real compiled code when a failing input is searched for.
"""
import z3
from .tm import *
from .mem import *
from .cast import Unsupported, VOID, BOOL, CHAR, INT, LONG, ULONG, UCHAR
from .ex import ExitEx, Infeasible, PathEnd, UNINIT, Ref, int_bounds, FP_SORT

REG = {}
ARR = ('struct', 'VitaBaseArrayType')
ALLOC = ('struct', 'VitaBaseAllocatorType')


class StopSpec(Exception):
    pass


class Contract:
    def __init__(self, name, kinds, body, **kw):
        self.name = name
        self.kinds = kinds
        self.body = body
        self.inline = kw.pop('inline', False)
        self.module = kw.pop('module', None)
        self.hints = kw.pop('hints', [])
        self.opts = kw.pop('opts', {})
        self.trusted = kw.pop('trusted', None)
        self.varargs = kw.pop('varargs', False)
        self.scen = kw.pop('scenarios', None)
        self.gen = kw.pop('gen', None)
        self.bounded = kw.pop('bounded', None)
        self.assumes = kw.pop('assumes', [])
        self.conc = kw.pop('conc', None)
        self.through = kw.pop('through', None)
        self.ret_kind = kw.pop('ret', None)
        self.tramp = kw.pop('tramp', None)
        self.cost = kw.pop('cost', 1)
        self.rty = kw.pop('rty', None)
        self.elsize = kw.pop('elsize', None)
        self.prop = kw.pop('prop', None)
        self.va = kw.pop('va', [])          # variadic arguments used by concrete runs
        self.fs = kw.pop('fs', None)            # replay: runs in a scratch directory
        self.script = kw.pop('script', None)   # replay: answers of the outside world
        assert not kw, kw

    # ---- call site
    def apply(self, eng, vals, rty):
        ctx = Ctx(eng, 'apply', self)
        ctx.rty = rty
        args = [None] * len(self.kinds)
        ctx.args = args
        for first in (True, False):
            for i, k in enumerate(self.kinds):
                if i < len(vals) and isinstance(k, Int) == first:
                    args[i] = k.accept(ctx, vals[i], i)
        ctx.extra = vals[len(self.kinds):]
        ret = self.body(ctx, *args)
        ctx.finish_apply()
        return ctx.to_value(ret, rty)


class Ctx:
    def __init__(self, eng, mode, con):
        self.eng = eng
        self.mode = mode         # 'pre' | 'check' | 'apply'
        self.con = con
        self.exits = []
        self.ends, self.ending = False, False
        self.tail_only = False   # (printed text) more may have been printed before
        self.act = None          # actual final state (check)
        self.act_ret = None
        self.outcome = None      # 'return' | 'exit'
        self.rty = None
        self.views = []
        self.args = []
        self.extent = {}         # bid -> number of meaningful bytes (or elements)
        self.started = False
        self.bidmap = {}
        self.extra = []
        self.adopted = set()
        self.pairs = []

    # ---- clauses
    def requires(self, cond, what='precondition'):
        if self.mode == 'pre':
            if self.eng.concrete_mode:
                if not cond:
                    raise Infeasible()
                return
            self.eng.assume(cond)
        elif self.mode == 'apply':
            self.eng.oblige('pre', '%s requires: %s' % (self.con.name, what), cond)

    def exit_if(self, *conds):
        self.exits += list(conds)

    def ends_if(self, cond):
        """the function does what the rest of the contract says and then terminates the process"""
        self.ends = Or(self.ends, cond)

    def start(self):
        bad = Or(*self.exits) if self.exits else False
        cond = Or(bad, self.ends)
        self.started = True
        if self.mode == 'pre':
            if self.con.opts.get('console') and not self.eng.concrete_mode:
                for nm in ('stdout', 'stderr'):
                    self.glob(nm)
            raise StopSpec()
        if self.mode == 'apply':
            if self.eng.branch(cond):
                raise ExitEx('exit in ' + self.con.name)
            return
        if self.outcome == 'exit':
            self.eng.oblige('exit', 'terminates only for the inputs documented as invalid', cond)
            if (not sym(self.ends) and not self.ends) or self.eng.branch(bad):
                raise StopSpec()
            self.ending = True
            return
        self.eng.oblige('exit', 'invalid input terminates the process', Not(cond))

    def case(self, cond):
        return self.eng.branch(cond)

    def ensure(self, cond, what):
        if self.mode == 'check':
            self.eng.oblige('post', what, cond)
        else:
            self.eng.assume(cond)

    def ensure_forall(self, lo, hi, pred, what):
        """for all k in [lo,hi): pred(k)"""
        eng = self.eng
        if eng.concrete_mode:
            for k in range(lo, hi):
                self.ensure(pred(k), what + ' [k=%d]' % k)
            return
        if self.mode == 'check':
            k = eng.fresh_int('k')
            saved = list(eng.st.pc)
            idx = eng.st.ghost.get('idx', ())
            eng.st.ghost['idx'] = idx + (k,)
            eng.st.pc += [zbool(And(k >= lo, k < hi))]
            g = pred(k)
            eng.byte_fact_b(g) if sym(g) else None
            eng.oblige('post', what, g)
            eng.st.pc[:] = saved
            eng.st.ghost['idx'] = idx
        else:
            eng.add_forall(lo, hi, pred)

    def first_index(self, n, pred):
        """the least k in [0,n) with pred(k), else -1, as a fresh term defined by instantiated axioms"""
        eng = self.eng
        if eng.concrete_mode:
            for k in range(n):
                if pred(k):
                    return k
            return -1
        w = eng.fresh_int('first', None, -1)
        eng.assume(w < n)
        p = pred(w)
        if sym(p):
            eng.byte_fact_b(p)
        eng.assume(Implies(w >= 0, p))
        eng.add_forall(0, If(w >= 0, w, n), lambda k: Not(pred(k)))
        q = z3.Int(eng.name('q'))
        eng.st.pc.append(z3.ForAll([q], zbool(Implies(And(q >= 0, q < If(w >= 0, w, n)), Not(pred(q))))))
        eng.add_index(w)
        return w

    def last_index(self, n, pred):
        """the greatest k in [0,n) with pred(k), else -1"""
        eng = self.eng
        if eng.concrete_mode:
            for k in range(n - 1, -1, -1):
                if pred(k):
                    return k
            return -1
        w = eng.fresh_int('last', None, -1)
        eng.assume(w < n)
        p = pred(w)
        if sym(p):
            eng.byte_fact_b(p)
        eng.assume(Implies(w >= 0, p))
        eng.add_forall(Add(w, 1), n, lambda k: Not(pred(k)))
        q = z3.Int(eng.name('q'))
        eng.st.pc.append(z3.ForAll([q], zbool(Implies(And(q > w, q < n), Not(pred(q))))))
        eng.add_index(w)
        return w

    # ---- nondeterminism resolved by the implementation
    def any_int(self, name, ty, actual):
        """fresh at call sites; the implementation's value when checking"""
        if self.mode == 'check':
            return actual()
        return self.eng.fresh_int(name, ty)

    def any_field(self, v, field, ty=ULONG, hi=None):
        def actual():
            b = self.act.mem[v.p.bid]
            x = b.cells[v.OFF[field]][1]
            return x.t if isinstance(x, I) else B2I(x.b)
        if self.mode == 'check':
            return actual()
        return self.eng.fresh_int(field, ty, None, hi)

    def any_result(self, ty=None, name='res'):
        ty = ty or self.rty
        if self.mode == 'check':
            r = self.act_ret
            if isinstance(r, I):
                return r.t
            if isinstance(r, B):
                return r.b if ty[0] == 'bool' else B2I(r.b)
            if isinstance(r, F):
                return r.t
            return r
        v = self.eng.fresh_of(ty, name)
        if isinstance(v, I):
            self.eng.add_index(v.t)
        return v.t if isinstance(v, (I, F)) else (v.b if isinstance(v, B) else v)

    def rewrite(self, eqs):
        """write the code's result in terms of the right-hand sides of equations assumed before"""
        r = self.act_ret
        if self.mode == 'check' and isinstance(r, (B, I)):
            t = r.b if isinstance(r, B) else r.t
            for x, y in eqs:
                t = z3.substitute(zbool(t) if isinstance(r, B) else zint(t), (zint(x), zint(y)))
            self.act_ret = B(simp(t), r.ty) if isinstance(r, B) else I(simp(t), r.ty)

    def focus(self):
        """forget the facts that mention a division (fewer facts can only make a proof harder to find)"""
        if self.mode == 'check' and not self.eng.concrete_mode:
            def divides(t, seen):
                if t.get_id() in seen:
                    return False
                seen.add(t.get_id())
                return (z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD)) or any(divides(x, seen) for x in t.children())
            self.eng.st.pc[:] = [f for f in self.eng.st.pc if not divides(f, set())]

    def any_out(self, v, ty):
        """value left in an out-parameter: fresh at call sites, the code's value when checking"""
        if self.mode == 'check':
            x = self.act.mem[v.p.bid].cells[simp(v.p.off)][1]
            if x is UNINIT:
                x = self.eng.fresh_of(ty, 'unset')
        else:
            x = self.eng.fresh_of(ty, 'out')
        v.store(ty, x)
        return x.t if isinstance(x, (I, F)) else (x.b if isinstance(x, B) else x)

    def ret_struct(self, r):
        """struct returned by value (on concrete runs the trampoline stores it behind the last argument)"""
        if self.eng.concrete_mode:
            b = self.eng.mut(self.extra[0].p.bid)
            for o, v in r.cells.items():
                if o in b.cells:
                    b.cells[o] = (b.cells[o][0], v)
            return None
        return r

    def any_struct_field(self, name, off, ty):
        """a field of the returned struct: fresh at call sites, the code's value when checking"""
        if self.mode != 'check':
            return self.eng.fresh_int(name, ty)
        cells = {o: v for o, (_t, v) in self.act.mem[self.extra[0].p.bid].cells.items()} if self.eng.concrete_mode else self.act_ret.cells
        v = cells[off]
        return self.eng.fresh_int(name, ty) if v is UNINIT else v.t

    def temp(self, ty, x):
        """a temporary object holding x (for by-value arguments passed on by address)"""
        eng = self.eng
        b = eng.alloc_type(ty, 'temp', 'zero')
        v = F(x, ty) if ty[0] == 'float' else (B(x, ty) if ty[0] == 'bool' else I(x, ty))
        b.cells[0] = (ty, v)
        return PtrView(self, P(b.bid, 0))

    @property
    def sys(self):
        from .world import Sys
        return Sys(self.eng)

    def glob(self, name):
        """pointer to a file-scope variable of the code under contract"""
        return P(self.eng.global_block(None, name), 0)

    def say(self, nm, pieces):
        """print the pieces to standard output or standard error"""
        from .fs import say
        eng = self.eng
        if eng.concrete_mode:
            c = dict(eng.st.ghost.get('console', {}))
            c[nm] = c.get(nm, b'') + b''.join(p.bytes() for p in pieces)
            eng.st.ghost['console'] = c
        else:
            say(eng, nm, pieces)

    @property
    def fs(self):
        from .fs import Fs
        return Fs(self)

    # ---- text
    def text(self, v):
        """the C string behind a string container or char* argument, as it is now"""
        from .models import Text
        p = v.data_ptr if isinstance(v, AV) else v.p
        t = Text(self.eng, p)
        return t

    def put_text(self, v, chars, size):
        """the characters and a terminator at v; the rest of its `size` bytes is unspecified"""
        eng = self.eng
        seq = list(chars) + [0]
        n = len(seq)

        def at(j):
            if not sym(j):
                return seq[j] if 0 <= j < n else 0
            r = 0
            for k in range(n - 1, -1, -1):
                r = If(Eq(j, k), seq[k], r)
            return r
        v.write(n, at)
        self.limit(v, n, size)
        b = eng.mut(v.p.bid)
        b.nul = tuple(b.nul)[-5:] + (simp(Add(v.p.off, n - 1)),)

    def limit(self, v, n, size):
        """only the first n of the `size` bytes at v are specified"""
        eng = self.eng
        if self.mode == 'check':
            self.extent[v.p.bid] = Add(v.p.off, n)
        elif not eng.concrete_mode:
            f = eng.junk()
            v.write(Sub(size, n), lambda j: f(Add(j, n)), n)

    def code_text(self, v, n, pred, size, what):
        """some text of n characters, the k-th satisfying pred(k, ch)"""
        eng = self.eng
        if self.mode != 'check':
            cs = [eng.fresh_int('ch', None, 0, 255) for _ in range(n)]
            for k in range(n):
                eng.assume(pred(k, cs[k]))
            self.put_text(v, cs, size)
            return
        c = self.act.mem[v.p.bid].content
        cs = [simp(c(Add(v.p.off, k))) for k in range(n)]
        for k in range(n):
            self.ensure(pred(k, cs[k]), what)
        self.put_text(v, cs, size)

    def may_grow(self, v, least=0):
        """the data block may or may not be reallocated; the capacity ends up at least `least`"""
        eng = self.eng
        cap = self.any_field(v, 'capacity', hi=MAXOBJ)
        self.ensure(cap >= least, 'capacity suffices')
        if self.mode == 'check':
            d = self.act.mem[v.p.bid].cells[AV.OFF['ptr']][1]
            moved = d.bid != v.data_ptr.bid
        else:
            moved = eng.branch(eng.fresh_bool('moved'))
            if not moved:
                eng.assume(Eq(cap, v.capacity))
        if moved:
            v.grow(Add(cap, v.tail) if not v.elems else Mul(cap, 8))
        elif self.mode == 'check':
            self.ensure(Eq(cap, v.capacity), 'capacity only changes with a reallocation')
        v.capacity = cap

    def any_text(self, v, exact, grow=True):
        """the container holds some valid text afterwards (possibly reallocated); on concrete runs
        it is exactly `exact()`"""
        eng = self.eng
        if eng.concrete_mode:
            t = exact()
            self.may_grow(v, 0 if v.is_view else len(t))
            v.put(0, len(t), const_content(t))
            v.end(len(t))
            return
        v.touched = True
        if self.mode == 'check':
            ab = self.act.mem[v.p.bid]
            d = ab.cells[40][1]
            old = v.data_ptr
            if d.bid != old.bid:
                v.free_data()
                self.adopted.add(d.bid)
                if d.bid not in eng.st.mem:
                    eng.st.mem[d.bid] = self.act.mem[d.bid]
                v.setp('ptr', d)
            else:
                sb = eng.mut(old.bid)
                sb.content, sb.nul = self.act.mem[d.bid].content, self.act.mem[d.bid].nul
            v.len = ab.cells[0][1].t
            v.capacity = ab.cells[8][1].t
            return
        if grow:
            self.may_grow(v)
        n = eng.fresh_int('len', ULONG, 0, MAXOBJ)
        isv = v.is_view
        if isinstance(isv, bool) and not isv:
            eng.assume(n <= v.capacity)
        else:
            eng.assume(n <= v.len)
        f = eng.fresh_fn('text')
        v.put(0, n, lambda j: f(zint(j)))
        q = z3.Int(eng.name('q'))
        eng.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f(q) != 0), patterns=[f(q)]))
        v.end(n)

    def filtered(self, n, c, drop):
        """the subsequence of c(0..n-1) whose elements are not dropped: (count, element, rank)"""
        eng = self.eng
        if eng.concrete_mode:
            t = [c(k) for k in range(n) if not drop(k)]
            return len(t), const_content(bytes(t)), None
        I_ = z3.IntSort()
        K = z3.Function('rank!v%s' % c.ver, I_, I_)
        U = z3.Function('unrank!v%s' % c.ver, I_, I_)
        eng.bnd[K.name()] = (0, MAXOBJ)
        N = K(zint(n))

        def axioms():
            # the facts belong to whichever state is current when the terms are used
            if not eng.st.ghost.get(('memo', 'filter', c.ver)):
                eng.st.ghost[('memo', 'filter', c.ver)] = True
                q = z3.Int(eng.name('q'))
                eng.st.pc += [K(0) == 0,
                              z3.ForAll([q], zbool(Implies(q >= 0, And(K(q) >= 0, K(q) <= q))), patterns=[K(q)]),
                              z3.ForAll([q], zbool(Implies(And(q >= 0, q < N), And(U(q) >= 0, U(q) < n))), patterns=[U(q)])]

        def rank(k):
            eng.impure += 1
            axioms()
            d = drop(k)
            eng.st.pc.append(zbool(Implies(And(k >= 0, k < n), And(Eq(K(zint(Add(k, 1))), If(d, K(zint(k)), Add(K(zint(k)), 1))),
                                                                 K(zint(Add(k, 1))) <= N,
                                                                 Or(d, Eq(U(K(zint(k))), k))))))
            return K(zint(k))

        def el(j):
            axioms()
            return c(U(zint(j)))
        axioms()
        return N, Content(el), rank

    def fmt(self, v):
        """the text the variadic arguments of this call format to: fails, len, text"""
        from .models import Fmt
        eng = self.eng
        if eng.concrete_mode:
            return CFmt(self.text(v).bytes(), self.extra)
        if self.mode == 'apply':
            vid = eng.name('va')
        else:
            vid = 1
        return Fmt(eng, v.p, vid)

    # ---- results whose shape the implementation chooses
    def act_cells(self, p):
        """fields of a container the code left behind"""
        eng = self.eng
        if not isinstance(p, P) or p.bid is None:
            eng.oblige('post', 'a container is returned', False)
            raise Unsupported('result is not a container')
        cur, eng.st = eng.st, self.act
        try:
            eng.shape(p, ARR)
            b = self.act.mem[p.bid]
            if b.kind == 'bytes' and eng.concrete_mode:
                b = self.act.mem[p.bid] = eng.cshape(b, ARR, True)
            if b.kind != 'cells':
                raise Unsupported('result is not a container')
            return b.cells
        finally:
            eng.st = cur

    def result_is_new(self):
        r = self.act_ret
        self.eng.oblige('post', 'a new object is returned', isinstance(r, P) and r.bid is not None and r.bid not in self.eng.entry)
        return r

    def any_result_cap(self, n):
        """capacity of the string the function creates"""
        if self.mode == 'check':
            cap = self.act_cells(self.result_is_new())[8][1].t
            self.ensure(cap >= n, 'capacity suffices')
            return cap
        cap = self.eng.fresh_int('cap', ULONG, 0, MAXOBJ)
        self.eng.assume(cap >= n)
        return cap

    def adopt_result(self):
        """the specification leaves the new container's content to the code"""
        eng = self.eng
        r = self.result_is_new()
        d = self.act_cells(r)[40][1]
        for p in (r, d):
            if p.bid is not None:
                self.adopted.add(p.bid)
                if p.bid not in eng.st.mem:
                    eng.st.mem[p.bid] = self.act.mem[p.bid]
        return r

    def any_new_text(self, al, exact):
        eng = self.eng
        if eng.concrete_mode:
            t = exact()
            cap = self.any_result_cap(len(t))
            v = self.new_array(al, len(t), cap, 1, tail=1)
            v.tail = 1
            v.put(0, len(t), const_content(t))
            v.end(len(t))
            return v
        if self.mode == 'check':
            return self.adopt_result()
        cap = eng.fresh_int('cap', ULONG, 0, MAXOBJ)
        v = self.new_array(al, 0, cap, 1, tail=1)
        v.tail = 1
        self.any_text(v, None, grow=False)
        return v

    def any_list(self, v):
        """the list holds some elements afterwards"""
        eng = self.eng
        v.touched = True
        if self.mode == 'check':
            ab = self.act.mem[v.p.bid]
            d, old = ab.cells[40][1], v.data_ptr
            if d.bid != old.bid:
                v.free_data()
                self.adopted.add(d.bid)
                if d.bid not in eng.st.mem:
                    eng.st.mem[d.bid] = self.act.mem[d.bid]
                v.setp('ptr', d)
            else:
                eng.st.mem[old.bid] = self.act.mem[old.bid]
            v.len = ab.cells[0][1].t
            v.capacity = ab.cells[8][1].t
            return
        self.may_grow(v)
        n = eng.fresh_int('len', ULONG, 0, MAXOBJ)
        eng.assume(n <= v.capacity)
        f = eng.fresh_fn('el')
        v.put(0, n, lambda j: f(zint(j)))
        v.len = n

    def container(self, p):
        """string container at p"""
        return AV(self, p, tail=1)

    def string_object(self, name, t, al):
        """(generated cases) a string container holding t"""
        from .concrete import cblock
        eng = self.eng
        b = eng.alloc_type(ARR, name, 'zero', bid='arg:' + name)
        b.initial, b.heap, b.owner = True, True, al.bid
        d = cblock(eng, name + '->data', 'data:' + name, t + b'\0', heap=True, owner=al.bid)
        cs = {0: I(len(t), ULONG), 8: I(max(1, len(t)), ULONG), 16: I(1, ULONG), 24: I(0, ULONG), 32: B(False, BOOL), 40: P(d.bid, 0), 48: al}
        if not t:
            d.size, d.content = 2, const_content(b'\0\0')
        for o, v in cs.items():
            b.cells[o] = (b.cells[o][0], v)
        return b.bid

    def act_list(self, at, n):
        """(concrete runs) element pointers [at, at+n) of the list the code returned"""
        eng = self.eng
        ac = self.act_cells(self.act_ret)
        d = ac[40][1]
        eng.oblige('post', 'number of elements', ac[0][1].t == at + n)
        eng.oblige('post', 'the returned list has storage', d.bid is not None and d.bid in self.act.mem)
        b = self.act.mem[d.bid]
        cur, eng.st = eng.st, self.act
        try:
            if b.kind == 'bytes':
                b = eng.cshape(b, ('ptr', VOID), False)
            el = b.fields[0][1]
            got = [el(k) for k in range(at, at + n)]
            return got, [eng.ptr_of(x) for x in got]
        finally:
            eng.st = cur

    def list_of(self, p, new, at=0):
        """(concrete runs) list p holds exactly the new containers `new` from index `at` on"""
        got, ps = self.act_list(at, len(new))
        for x, v in zip(ps, new):
            self.eng.oblige('post', 'every element is a new object', x.bid is not None and x.bid not in self.eng.entry and x.off == 0)
            self.pairs.append((v.p.bid, x.bid))
        p.put(at, len(new), lambda k: got[k] if 0 <= k < len(got) else 0)
        p.len = at + len(new)

    def in_any_order(self, texts, at=0):
        """(concrete runs) the given texts in the order in which the returned list has them"""
        rest = sorted(texts)
        out = []
        for x in self.act_list(at, len(texts))[1]:
            self.eng.oblige('post', 'every element is a new object', x.bid is not None and x.bid not in self.eng.entry and x.off == 0)
            ac = self.act_cells(x)
            t, n = ac[40][1], ac[0][1].t
            b = self.act.mem[t.bid] if t.bid is not None else None
            self.eng.oblige('post', 'every element has storage for its text', b is not None and isinstance(n, int) and 0 <= n < b.size)
            t = bytes(b.content(t.off + k) for k in range(n))
            self.eng.oblige('post', 'every element is a listed path (%r)' % t, t in rest)
            rest.remove(t)
            out.append(t)
        return out

    def cstr_elems(self, p):
        return True

    # ---- results
    def to_value(self, r, ty):
        if ty == VOID or ty is None:
            return None
        if isinstance(r, (I, B, F, P, S)):
            return r
        if isinstance(r, (AV, PtrView)):
            return r.p
        if r is None:
            if ty[0] == 'ptr':
                return NULL
            raise Unsupported('contract of %s returns nothing' % self.con.name)
        if ty[0] == 'bool':
            return B(r if isinstance(r, bool) or z3.is_bool(r) else Ne(r, 0), ty)
        if ty[0] == 'int':
            if isinstance(r, bool) or (sym(r) and z3.is_bool(r)):
                return B(r, ty)
            return I(r, ty)
        if ty[0] == 'float':
            return F(r, ty)
        raise Unsupported('result of contract %s' % self.con.name)

    # ---- fresh containers
    def new_array(self, alloctr, length, capacity, elsize, content=None, elems=False, size=None, is_view=False, tail=0):
        eng = self.eng
        ob = eng.alloc_type(ARR, 'container', 'zero')
        ob.heap = True
        ob.owner = alloctr.bid if isinstance(alloctr, P) else None
        eng.log('alloc', ob.bid)
        v = AV(self, P(ob.bid, 0))
        size = size if size is not None else Add(Mul(capacity, elsize), tail)
        d = eng.heap_alloc(size, True, ob.owner, 'data')
        if elems:
            b = eng.mut(d.bid)
            eng.make_elems(b, ('ptr', VOID), 'zero', 'data')
            if content is not None:
                b.fields[0] = (b.fields[0][0], content if isinstance(content, Content) else Content(content))
        elif content is not None:
            b = eng.mut(d.bid)
            b.content = content if isinstance(content, Content) else Content(content)
        v.setp('ptr', d)
        v.set('len', length)
        v.set('capacity', capacity)
        v.set('elsize', elsize)
        v.setp('alloctr', alloctr if isinstance(alloctr, P) else NULL)
        v.elems = elems
        self.views.append(v)
        return v

    # ---- comparing specification state and code state
    def finish_apply(self):
        """content beyond the meaningful extent is unspecified after a call"""
        eng = self.eng
        for v in self.views:
            if not isinstance(v, AV) or v.null or not v.touched or v.window:
                continue
            d = v.data_ptr
            if d is None or d.bid is None:
                continue
            b = eng.blk(d.bid)
            if not b.alive:
                continue
            n = v.extent()
            if b.kind == 'bytes':
                nb = eng.mut(d.bid)
                nb.content = c_clip(b.content, n, eng.junk())
                nb.nul = tuple(b.nul)
            elif b.kind == 'elems':
                nb = eng.mut(d.bid)
                for fo, (ty, c) in list(b.fields.items()):
                    nb.fields[fo] = (ty, c_clip(c, n, eng.elem_content(ty, 'junk', 'junk')))

    def compare(self, spec, act, ret_spec, entry_bids):
        eng = self.eng
        self.spec, self.actst = spec, act
        self.entry = entry_bids
        if self.con.opts.get('console'):
            from .fs import cmp_console
            cmp_console(self, spec, act)
        if self.ending:
            from .world import cmp_trace
            if not eng.concrete_mode:
                cmp_trace(self, spec, act)
            return
        self.done = set()
        self.queue = []
        ext = {}
        for v in self.views:
            if isinstance(v, AV) and not v.null and v.touched and not v.window and v.p.bid in spec.mem and spec.mem[v.p.bid].alive:
                d = v.data_ptr
                if d is not None and d.bid is not None:
                    ext[d.bid] = v.extent()
        for bid, n in self.extent.items():
            ext[bid] = n
        self.ext = ext
        if self.rty and self.rty != VOID:
            self.cmp_val(self.to_value(ret_spec, self.rty), self.act_ret, 'returned value', 'post')
        for bid in entry_bids:
            if bid in spec.mem and bid in act.mem:
                self.cmp_block(bid, bid)
        for sb, ab in self.pairs:
            self.bidmap[sb] = ab
            self.queue.append((sb, ab))
        while self.queue:
            s, a = self.queue.pop()
            self.cmp_block(s, a)
        mapped = set(self.bidmap.values()) | self.adopted
        leaks = [b for bid, b in act.mem.items()
                 if b.heap and b.alive and bid not in entry_bids and bid not in mapped
                 and not (b.owner_list and not eng.concrete_mode)]
        eng.oblige('own', 'no memory is leaked' + ((' (%s)' % leaks[0].name) if leaks else ''), not leaks)
        from .world import cmp_trace, cmp_log
        if eng.concrete_mode:
            cmp_log(self, act)
        else:
            cmp_trace(self, spec, act)

    def cmp_val(self, s, a, what, cat='post'):
        eng = self.eng
        if s is UNINIT:
            return
        if a is UNINIT:
            eng.oblige(cat, what + ' is set', False)
            return
        if isinstance(s, P) or isinstance(a, P):
            self.cmp_ptr(s, a, what, cat)
            return
        if isinstance(s, S):
            for o in s.cells:
                if o in a.cells:
                    self.cmp_val(s.cells[o], a.cells[o], what + '.%d' % o, cat)
            return
        if isinstance(s, F) or isinstance(a, F):
            if eng.concrete_mode:
                x, y = fval(s.t), fval(a.t)
                eng.oblige(cat, what, bool(s.t == a.t or (x != x and y != y) or (x == y and x != 0)))
            else:
                eng.oblige(cat, what, s.t == a.t)
            return
        if isinstance(s, B) and isinstance(a, B):
            eng.oblige(cat, what, Iff(s.b, a.b))
            return
        eng.oblige(cat, what, Eq(eng.int_of(s), eng.int_of(a)))

    def cmp_ptr(self, s, a, what, cat):
        eng = self.eng
        if not isinstance(s, P) or not isinstance(a, P):
            eng.oblige(cat, what, False)
            return
        s, a = eng.resolve(s), eng.resolve(a)
        if s.fn or a.fn:
            eng.oblige(cat, what, s.fn == a.fn)
            return
        if s.isnull or a.isnull:
            o = a if s.isnull else s
            g = True if (s.isnull and a.isnull) else (False if o.bid is not None else Eq(o.addr, 0))
            eng.oblige(cat, what, g)
            return
        if s.bid is None or a.bid is None:
            cur = eng.st
            sa = eng.addr(s)
            eng.oblige(cat, what, Eq(sa, eng.addr(a)))
            return
        if s.bid in self.entry or a.bid in self.entry or str(s.bid).startswith(('lit:', 'g:')):
            eng.oblige(cat, what + ' (same object)', s.bid == a.bid)
            eng.oblige(cat, what, Eq(s.off, a.off))
            return
        if s.bid in self.bidmap:
            eng.oblige(cat, what + ' (same object)', self.bidmap[s.bid] == a.bid)
        else:
            self.bidmap[s.bid] = a.bid
            self.queue.append((s.bid, a.bid))
        eng.oblige(cat, what, Eq(s.off, a.off))

    def cmp_block(self, sbid, abid):
        eng = self.eng
        if (sbid, abid) in self.done:
            return
        self.done.add((sbid, abid))
        sb, ab = self.spec.mem[sbid], self.actst.mem[abid]
        nm = sb.name or str(sbid)
        if sb.alive != ab.alive:
            eng.oblige('own', ('%s must not be freed' if sb.alive else '%s must be freed') % nm, False)
            return
        if not sb.alive or sb is ab:
            return
        if sbid != abid:
            if sb.heap != ab.heap or sb.owner != ab.owner:
                eng.oblige('own', '%s is allocated from the right allocator' % nm, False)
            eng.oblige('post', '%s: allocation is large enough' % nm, ab.size >= sb.size)
        if sb.kind != ab.kind and eng.concrete_mode:
            ab, sb = self.conc_shapes(ab, sb)
        if sb.kind != ab.kind:
            # raw zeroed block on one side
            if sb.kind == 'bytes' and sb.content.uniform is not None and ab.kind == 'cells':
                return
            if ab.kind == 'bytes' and ab.content.uniform is not None and sb.kind == 'elems':
                init = 'zero' if ab.content.uniform == 0 else 'junk'
                ab = ab.clone()
                eng.make_elems(ab, sb.ty[1], init, nm)
            elif sb.kind == 'bytes' and ab.kind == 'elems' and sb.content.uniform is not None:
                init = 'zero' if sb.content.uniform == 0 else 'junk'
                sb = sb.clone()
                eng.make_elems(sb, ab.ty[1], init, nm)
            else:
                raise Unsupported('comparison of differently shaped objects (%s)' % nm)
        if sb.kind == 'cells':
            for o, (ty, sv) in sb.cells.items():
                av = ab.cells.get(o, (None, UNINIT))[1]
                if sv is av:
                    continue
                self.cmp_val(sv, av, '%s%s' % (nm, field_name(eng.prog, sb.ty, o)), 'post')
            return
        if sb.kind == 'bytes':
            n = self.ext.get(sbid, sb.size)
            self.cmp_content(sb.content, ab.content, n, '%s: every byte is as specified' % nm)
            return
        n = self.ext.get(sbid)
        if n is None:
            n = eng.exact_div(sb.size, sb.stride)
            if n is None:
                n = Div(sb.size, sb.stride)
        for fo in sb.fields:
            self.cmp_content(sb.fields[fo][1], ab.fields[fo][1], n, '%s: every element%s is as specified' % (
                nm, '' if len(sb.fields) == 1 else '+%d' % fo))

    def conc_shapes(self, ab, sb):
        eng = self.eng
        cur = eng.st
        if ab.kind == 'bytes' and sb.kind in ('cells', 'elems'):
            eng.st = self.actst
            ab = eng.cshape(ab, sb.ty if sb.kind == 'cells' else sb.ty[1], sb.kind == 'cells')
            self.actst.mem[ab.bid] = ab
        elif sb.kind == 'bytes' and ab.kind in ('cells', 'elems'):
            eng.st = self.spec
            sb = eng.cshape(sb, ab.ty if ab.kind == 'cells' else ab.ty[1], ab.kind == 'cells')
        eng.st = cur
        return ab, sb

    def cmp_content(self, sc, ac, n, what, cat='post'):
        eng = self.eng
        if sc.ver == ac.ver:
            return
        if sc.pget or ac.pget:
            raise Unsupported('constant table modified')
        if eng.concrete_mode:
            if sc.conc is not None and ac.conc is not None and len(sc.conc) >= n and sc.conc[:n] == ac.conc[:n]:
                return
            for k in range(n):
                s, a = sc(k), ac(k)
                if type(s) is int and s == a or not c_def(sc, k):
                    continue
                eng.oblige(cat, what, s == a if not isinstance(s, P) else s)
            return
        k = eng.fresh_int('k')
        saved = list(eng.st.pc)
        eng.st.pc += [k >= 0, zbool(And(k < n)), zbool(c_def(sc, k))]
        s, a = sc(k), ac(k)
        for t in (s, a):
            if sym(t) and t.sort() == z3.IntSort():
                eng.byte_fact(simp(t))
        if isinstance(s, bool) or (sym(s) and z3.is_bool(s)):
            g = Iff(s, a)
        elif sym(s) and z3.is_fp(s):
            g = s == a
        else:
            g = Eq(s, a)
        eng.oblige(cat, what, g)
        eng.st.pc[:] = saved


class CFmt:
    """printf text computed independently: %d %x %s %% with flags and width"""
    fails = False

    def __init__(self, fmt, args):
        import re
        args = list(args)

        def one(m):
            k = m.group(2)
            if k == b'%':
                return b'%'
            x = args.pop(0)
            if k == b's':
                return (b'%' + m.group(1) + b's') % x.chars_bytes()
            while not isinstance(x, int):
                x = args.pop(0)
            return (b'%' + m.group(1) + k) % (x & 0xffffffff if k == b'x' else x)
        t = re.sub(rb'%([-0-9]*)([dxs%])', one, fmt)
        self.len, self.text, self.bytes = len(t), const_content(t), t


def field_name(prog, ty, off):
    if ty and ty[0] == 'struct' and ty[1] in prog.records:
        for (n, o, t, _i) in prog.records[ty[1]]['fields']:
            if o == off:
                return '->' + (n or 'ptr')
    return '+%d' % off


# ---------------------------------------------------------------- views
class PtrView:
    """an untyped pointer argument"""

    def __init__(self, ctx, p):
        self.ctx = ctx
        self.p = p
        self.touched = False

    @property
    def null(self):
        return self.p.isnull

    @property
    def room(self):
        """bytes of the object from the pointer on"""
        return 0 if self.p.isnull else Sub(self.ctx.eng.blk(self.p.bid).size, self.p.off)

    # region access relative to the pointer
    def byte(self, j):
        eng = self.ctx.eng
        return eng.region(self.p)(j)

    def bytes(self):
        return self.ctx.eng.region(self.p)

    def write(self, n, src, at=0):
        """[p+at, p+at+n) := src(j)"""
        eng = self.ctx.eng
        b = eng.mut(self.p.bid)
        if b.kind == 'cells':
            # scalar object: decode
            tmp = Content(src)
            for o in list(b.cells):
                ty = b.cells[o][0]
                fake = Block('tmp', 'bytes', 0)
                fake.content = Content(lambda k: src(k))
                b.cells[o] = (ty, eng.load_bytes(fake, o, ty))
            return
        off = Add(self.p.off, at)
        eng.log('content', b.bid)
        b.content = c_region(b.content, off, n, src)

    def load(self, ty):
        return self.ctx.eng.load(self.p, ty)

    def store(self, ty, v):
        self.ctx.eng.store(self.p, ty, v)


class AV(PtrView):
    """struct VitaBaseArrayType* (vec, plist, str, span instance)"""
    OFF = dict(len=0, capacity=8, elsize=16, slider_idx=24, is_view=32, ptr=40, alloctr=48)
    TY = dict(len=ULONG, capacity=ULONG, elsize=ULONG, slider_idx=ULONG, is_view=BOOL)

    def __init__(self, ctx, p, elems=False, tail=0):
        PtrView.__init__(self, ctx, p)
        self.elems = elems
        self.tail = tail
        self.window = False
        self.empty = False

    @property
    def null(self):
        return self.p.isnull or self.empty

    def _cells(self):
        return self.ctx.eng.blk(self.p.bid).cells

    def get(self, f):
        v = self._cells()[self.OFF[f]][1]
        if v is UNINIT:
            raise Unsupported('uninitialised container field')
        if f == 'is_view':
            return v.b if isinstance(v, B) else Ne(v.t, 0)
        if f in ('ptr', 'alloctr'):
            return v
        return v.t

    def set(self, f, t):
        eng = self.ctx.eng
        b = eng.mut(self.p.bid)
        o = self.OFF[f]
        eng.log('cell', b.bid, o)
        ty = b.cells[o][0]
        b.cells[o] = (ty, B(t, ty) if f == 'is_view' else I(simp(t), ty))

    def setp(self, f, p):
        eng = self.ctx.eng
        b = eng.mut(self.p.bid)
        o = self.OFF[f]
        eng.log('cell', b.bid, o)
        b.cells[o] = (b.cells[o][0], p)

    len = property(lambda s: s.get('len'), lambda s, t: s.set('len', t))
    capacity = property(lambda s: s.get('capacity'), lambda s, t: s.set('capacity', t))
    elsize = property(lambda s: s.get('elsize'))
    slider = property(lambda s: s.get('slider_idx'), lambda s, t: s.set('slider_idx', t))
    is_view = property(lambda s: s.get('is_view'))
    alloctr = property(lambda s: s.get('alloctr'))

    @property
    def data_ptr(self):
        return self.get('ptr')

    @property
    def owner(self):
        a = self.alloctr
        return a.bid if a.bid is not None else None

    def extent(self):
        """meaningful bytes (elements) of the data block"""
        if self.elems:
            return self.len
        return Add(Mul(self.len, self.elsize), self.tail)

    def content(self):
        """snapshot: index -> byte (or element address), relative to the data pointer"""
        d = self.data_ptr
        b = self.ctx.eng.blk(d.bid)
        if b.kind == 'elems':
            c = b.fields[0][1]
        elif b.kind == 'bytes':
            c = b.content
        else:
            return lambda j: self.ctx.eng.cell_byte(b, Add(d.off, j))
        off = simp(d.off)
        if not sym(off) and off == 0:
            return c
        return Content(lambda k: c(Add(off, k)))

    def put(self, at, n, src):
        """data[at, at+n) := src(j)  (bytes, or elements for pointer lists)"""
        eng = self.ctx.eng
        d = self.data_ptr
        b = eng.mut(d.bid)
        self.touched = True
        at = Add(d.off if not self.elems else 0, at)
        if b.kind == 'elems':
            eng.log('field', b.bid, 0)
            b.fields[0] = (b.fields[0][0], c_region(b.fields[0][1], at, n, src))
        else:
            eng.log('content', b.bid)
            b.content = c_region(b.content, at, n, src)

    def put_all(self, src, nul=None):
        """whole meaningful content := src"""
        eng = self.ctx.eng
        d = self.data_ptr
        b = eng.mut(d.bid)
        self.touched = True
        if b.kind == 'elems':
            eng.log('field', b.bid, 0)
            b.fields[0] = (b.fields[0][0], src if isinstance(src, Content) else Content(src))
        else:
            eng.log('content', b.bid)
            off = d.off
            b.content = src if isinstance(src, Content) else Content(
                src if (not sym(off) and off == 0) else (lambda k: src(Sub(k, off))))
            if nul is not None:
                b.nul = (nul,)

    def grow(self, size):
        """the data block is reallocated to `size` bytes (contents kept)"""
        eng = self.ctx.eng
        self.touched = True
        p = eng.heap_realloc(self.data_ptr, size, self.owner)
        self.setp('ptr', p)

    def end(self, n):
        """text ends at n: length and terminator"""
        self.put(n, 1, lambda j: 0)
        b = self.ctx.eng.mut(self.data_ptr.bid)
        b.nul = tuple(b.nul)[-5:] + (simp(Add(self.data_ptr.off, n)),)
        self.len = n

    def text(self):
        """concrete text"""
        c = self.content()
        return bytes(c(k) for k in range(self.len))

    def free(self):
        eng = self.ctx.eng
        eng.heap_free(self.p, self.owner)

    def free_data(self):
        self.ctx.eng.heap_free(self.data_ptr, self.owner)


# ---------------------------------------------------------------- parameter kinds
class Kind:
    nullable = False

    def setup(self, ctx, i):
        """create a symbolic argument; returns the C value"""
        raise NotImplementedError

    def view(self, ctx, val):
        return val

    def accept(self, ctx, val, i):
        """argument at a call site: check validity, return the view"""
        return self.view(ctx, val)


class Int(Kind):
    def __init__(self, ty=ULONG, name='n', lo=None, hi=None, pick=None):
        self.ty, self.name, self.lo, self.hi, self.pick = ty, name, lo, hi, pick

    def setup(self, ctx, i):
        if self.ty[0] == 'bool':
            return B(z3.Bool('%s' % self.name), self.ty)
        v = z3.Int(self.name)
        l, h = int_bounds(self.ty)
        ctx.eng.set_bounds(v, l if self.lo is None else self.lo, h if self.hi is None else self.hi)
        return I(v, self.ty)

    def view(self, ctx, val):
        if isinstance(val, B):
            return val.b if self.ty[0] == 'bool' else B2I(val.b)
        if self.ty[0] == 'bool':
            return Ne(val.t, 0)
        return val.t


class Flt(Kind):
    def __init__(self, ty, name='x'):
        self.ty, self.name = ty, name

    def setup(self, ctx, i):
        return F(z3.FP(self.name, FP_SORT[self.ty[1]]), self.ty)

    def view(self, ctx, val):
        return val.t


class Alloc(Kind):
    """allocator or NULL"""

    def setup(self, ctx, i, name='alloctr'):
        eng = ctx.eng
        if eng.branch(z3.Bool('arg%d_alloctr_is_null' % i)):
            return NULL
        return make_allocator(eng, 'A%d' % i)

    def view(self, ctx, val):
        return ctx.eng.resolve(val)


class AllocOf(Alloc):
    """the allocator (or NULL) that args[i]'s block came from"""

    def __init__(self, of):
        self.of = of

    def setup(self, ctx, i):
        al = Alloc.setup(self, ctx, i)
        o = ctx.args[self.of]
        if not o.null:
            b = ctx.eng.mut(o.p.bid)
            b.owner = al.bid
        return al

    def accept(self, ctx, val, i):
        al = ctx.eng.resolve(val)
        o = ctx.args[self.of]
        if not o.null:
            ctx.eng.oblige('pre', '%s: the text was allocated by that allocator' % ctx.con.name, ctx.eng.blk(o.p.bid).owner == al.bid)
        return al


def make_allocator(eng, name):
    b = eng.alloc_type(ALLOC, name, 'zero', bid='alloc:' + name)
    b = eng.mut(b.bid)
    b.initial = True
    for o, (t, v) in list(b.cells.items()):
        if t[0] == 'int':
            b.cells[o] = (t, eng.fresh_of(t, name))
        elif t[0] == 'ptr' and t[1][0] == 'func':
            nm = [f for f in eng.prog.records['VitaBaseAllocatorType']['fields'] if f[1] == o][0][0]
            b.cells[o] = (t, P(fn='@' + nm))
        elif t[0] == 'ptr':
            b.cells[o] = (t, P(addr=eng.fresh_int(name + '_list', None, 1, 1 << 47)))
    return P(b.bid, 0)


class Arr(Kind):
    """pointer to a container.  shape: 'vec' | 'plist' | 'str'"""

    def __init__(self, shape='vec', name='v', null=True, view=False, noinv=False, alloc=True, elsize=None, alpha=None, text=True, sub=False, nodata=None):
        self.alpha, self.sub = alpha, sub
        self.nodata = nodata if nodata is not None else null and not noinv    # a container whose data pointer is NULL is among the inputs
        self.text = text
        self.noinv = noinv
        self.shape, self.name, self.nullable, self.viewk = shape, name, null, view
        self.alloc = alloc
        self.es = elsize

    def setup(self, ctx, i):
        eng = ctx.eng
        n = self.name
        if self.nullable and eng.branch(z3.Bool(n + '_is_null')):
            return NULL
        is_view = False
        if self.viewk == 'maybe':
            is_view = eng.branch(z3.Bool(n + '_is_view'))
        elif self.viewk:
            is_view = True
        al = NULL
        if self.alloc and not is_view and not eng.branch(z3.Bool(n + '_alloctr_is_null')):
            al = make_allocator(eng, n + '_alloctr')
        b = eng.alloc_type(ARR, n, 'zero', bid='arg:' + n)
        b = eng.mut(b.bid)
        b.initial = True
        b.heap = not is_view
        b.owner = al.bid
        nodata = self.nodata and eng.branch(z3.Bool(n + '_data_is_null'))
        ln = z3.Int(n + '_len')
        cap = z3.Int(n + '_cap')
        sl = z3.Int(n + '_slider')
        eng.set_bounds(ln, 0, MAXOBJ)
        eng.set_bounds(cap, 1 if not is_view and self.shape != 'str' else 0, MAXOBJ)
        eng.set_bounds(sl, 0, (1 << 64) - 1)
        if not is_view and self.shape != 'span':
            eng.assume(ln <= cap)
        shape = self.shape
        if shape == 'plist':
            es = 8
        elif self.shape == 'str':
            es = 1
        elif self.es:
            es = self.es
        else:
            es = z3.Int(n + '_es')
            eng.set_bounds(es, 1, MAXOBJ)
        if nodata:
            for o, v in {0: I(ln, ULONG), 8: I(cap, ULONG), 16: I(es, ULONG), 24: I(sl, ULONG), 32: B(is_view, BOOL), 40: NULL, 48: al}.items():
                b.cells[o] = (b.cells[o][0], v)
            return P(b.bid, 0)
        if shape == 'span':
            return self.setup_span(eng, b, ln, cap, es, sl, is_view)
        size = Mul(cap, es)
        tail = 0
        if self.shape == 'str':
            size = Add(cap, 1) if not is_view else Add(ln, 1)
            tail = 1
        if is_view:
            eng.assume(cap == (0 if self.shape == 'str' else ln))
        d = eng.new_block('bytes', size, n + '->data', bid='data:' + n, heap=not is_view, owner=al.bid)
        d.initial = True
        if self.shape == 'plist':
            eng.make_elems(d, ('ptr', VOID), 'junk', n)
            f = z3.Function(n + '_el', z3.IntSort(), z3.IntSort())
            eng.bnd[n + '_el'] = (0, (1 << 64) - 1)
            d.fields[0] = (('ptr', VOID), Content(lambda k: f(zint(k))))
        else:
            f = z3.Function(n + '_data', z3.IntSort(), z3.IntSort())
            eng.bnd[n + '_data'] = (0, 255)
            d.content = Content(lambda k: f(zint(k)))
        if self.shape == 'str' and self.text:
            q = z3.Int('q!' + n)
            eng.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ln), f(q) != 0), patterns=[f(q)]))
            eng.st.pc.append(f(ln) == 0)
            d.nul = (ln,)
        cs = {0: I(ln, ULONG), 8: I(cap, ULONG), 16: I(es, ULONG), 24: I(sl, ULONG), 32: B(is_view, BOOL),
              40: P(d.bid, 0), 48: al}
        for o, v in cs.items():
            b.cells[o] = (b.cells[o][0], v)
        return P(b.bid, 0)

    def setup_span(self, eng, b, ln, cap, es, sl, is_view):
        """a window of len elements anywhere inside some object"""
        n = self.name
        size, off = z3.Int(n + '_size'), z3.Int(n + '_off')
        eng.set_bounds(size, 0, MAXOBJ)
        eng.set_bounds(off, 0, MAXOBJ)
        eng.assume(off + Mul(ln, es) <= size)
        d = eng.new_block('bytes', size, n + '->data', bid='data:' + n)
        d.initial = True
        f = z3.Function(n + '_data', z3.IntSort(), z3.IntSort())
        eng.bnd[n + '_data'] = (0, 255)
        d.content = Content(lambda k: f(zint(k)))
        cs = {0: I(ln, ULONG), 8: I(cap, ULONG), 16: I(es, ULONG), 24: I(sl, ULONG), 32: B(is_view, BOOL), 40: P(d.bid, off), 48: NULL}
        for o, v in cs.items():
            b.cells[o] = (b.cells[o][0], v)
        return P(b.bid, 0)

    def view(self, ctx, val):
        v = AV(ctx, ctx.eng.resolve(val), elems=self.shape == 'plist', tail=1 if self.shape == 'str' else 0)
        ctx.views.append(v)
        v.window = self.shape == 'span'
        v.empty = self.hollow(ctx, v)
        if v.p.bid is not None and self.shape not in ('any', 'span'):
            ctx.eng.conts[v.p.bid] = self
        return v

    def hollow(self, ctx, v):
        """the container has no data: as good as no container"""
        if not self.nodata or v.p.bid is None:
            return False
        b = ctx.eng.blk(v.p.bid)
        if b.kind != 'cells' or 40 not in b.cells or not b.alive:
            return False
        d = b.cells[40][1]
        return isinstance(d, P) and d.isnull

    def accept(self, ctx, val, i):
        eng = ctx.eng
        val = eng.resolve(val)
        v = self.view(ctx, val)
        if v.empty:
            return v
        if val.isnull:
            if not self.nullable:
                eng.oblige('pre', '%s: argument %d is not NULL' % (ctx.con.name, i), False)
            return v
        if val.bid is None:
            raise Unsupported('container pointer of unknown provenance')
        if self.noinv:
            return v
        self.check_valid(ctx, v, 'pre', '%s(%d): ' % (ctx.con.name, i))
        return v

    def check_valid(self, ctx, v, cat, what):
        eng = ctx.eng
        b = eng.blk(v.p.bid)
        if not b.alive:
            eng.oblige('mem', what + 'container is alive', False)
        eng.shape(v.p, ARR)
        b = eng.blk(v.p.bid)
        if b.kind != 'cells' or simp(v.p.off) != 0:
            raise Unsupported('container not at the start of its object')
        d = v.data_ptr
        if d.isnull:
            if self.shape == 'vec':
                eng.oblige(cat, what + 'container has data', False)
            eng.oblige(cat, what + 'container has data', False)
        if d.bid is None:
            raise Unsupported('container data of unknown provenance')
        db = eng.blk(d.bid)
        if not db.alive:
            eng.oblige('mem', what + 'container data is alive', False)
        es = v.elsize
        isv = simp(v.is_view)
        if self.shape == 'span':
            eng.oblige(cat, what + 'the elements lie within the viewed object', And(d.off >= 0, es >= 1, d.off + Mul(v.len, es) <= db.size))
            return
        if isinstance(isv, bool) and isv:
            if not self.viewk:
                eng.oblige(cat, what + 'not a view', False)
            eng.oblige(cat, what + 'view length within the viewed object',
                       And(d.off >= 0, d.off + v.extent() <= db.size))
            if self.shape == 'str' and self.text:
                self.nonul(ctx, v, cat, what)
            return
        if self.shape == 'str':
            eng.oblige(cat, what + 'element size is one', Eq(es, 1))
            eng.oblige(cat, what + 'data block holds capacity+1 bytes', And(Eq(d.off, 0), db.size >= v.capacity + 1))
        else:
            eng.oblige(cat, what + 'data block holds capacity elements',
                       And(Eq(d.off, 0), db.size >= Mul(v.capacity, es)))
            if self.shape == 'plist':
                eng.oblige(cat, what + 'element size is a pointer', Eq(es, 8))
                if db.kind == 'bytes':
                    eng.shape(P(d.bid, 0), ('ptr', VOID))
            else:
                eng.oblige(cat, what + 'element size is positive', es >= 1)
        eng.oblige(cat, what + 'length <= capacity', And(v.len <= v.capacity, v.capacity >= (0 if self.shape in ('str', 'any') else 1)))
        if self.shape == 'str' and self.text:
            db = eng.blk(d.bid)
            if db.kind != 'bytes':
                raise Unsupported('string data is not a byte block')
            self.nonul(ctx, v, cat, what)
        if db.owner != v.owner:
            eng.oblige('own', what + 'data owned by the container\'s allocator', False)

    def nonul(self, ctx, v, cat, what):
        eng = ctx.eng
        db = eng.blk(v.data_ptr.bid)
        if db.kind != 'bytes':
            raise Unsupported('string data is not a byte block')
        d0 = v.data_ptr.off
        c = db.content if (not sym(d0) and d0 == 0) else (lambda k: db.content(Add(d0, k)))
        x = simp(c(v.len))
        if sym(x):
            eng.byte_fact(x)
        eng.oblige(cat, what + 'terminator at index len', Eq(x, 0))
        no_nul(eng, c, v.len, cat, what + 'no NUL below len')


def no_nul(eng, c, n, cat, what):
    """oblige: bytes c(0..n-1) are not NUL (then usable as a fact)"""
    if eng.concrete_mode:
        eng.oblige(cat, what, all(c(k) != 0 for k in range(n)))
        return
    k = eng.fresh_int('k')
    saved = list(eng.st.pc)
    eng.st.pc += [zbool(And(k >= 0, k < n))]
    t = simp(c(k))
    eng.byte_fact(t)
    eng.oblige(cat, what, Ne(t, 0))
    eng.st.pc[:] = saved
    q = z3.Int(eng.name('q'))
    if sym(c(q)):
        eng.st.pc.append(z3.ForAll([q], zbool(Implies(And(q >= 0, q < n), Ne(c(q), 0)))))


class SpanVal(Kind):
    """vt_span_t by value"""

    def __init__(self, name='span', elsize=None):
        self.name = name
        self.arr = Arr('span', name, null=False, alloc=False, elsize=elsize)

    def setup(self, ctx, i):
        eng = ctx.eng
        p = self.arr.setup(ctx, i)
        return S({o: v for o, (t, v) in eng.blk(p.bid).cells.items()}, ('struct', 'vt_span_t'))

    def view(self, ctx, val):
        eng = ctx.eng
        if isinstance(val, S):
            b = eng.alloc_type(ARR, 'span', 'zero')
            for o, v in val.cells.items():
                b.cells[o] = (b.cells[o][0], v)
            val = P(b.bid, 0)
        return self.arr.view(ctx, val)

    def accept(self, ctx, val, i):
        v = self.view(ctx, val)
        self.arr.check_valid(ctx, v, 'pre', '%s(%d): ' % (ctx.con.name, i))
        return v


# floating point values: solver terms, or the raw bytes of a concrete run
def fval(x):
    if isinstance(x, bytes):
        import numpy as np
        if len(x) <= 8:
            return np.frombuffer(x, dtype='<f%d' % len(x))[0]
        return np.frombuffer(x[:16].ljust(16, b'\0'), dtype=np.longdouble)[0]
    return x


def f_nan(x):
    x = fval(x)
    return z3.fpIsNaN(x) if sym(x) else bool(x != x)


def f_le(a, b):
    a, b = fval(a), fval(b)
    return z3.fpLEQ(a, b) if sym(a) or sym(b) else bool(a <= b)


def f_lt(a, b):
    a, b = fval(a), fval(b)
    return z3.fpLT(a, b) if sym(a) or sym(b) else bool(a < b)


def f_eq(a, b):
    a, b = fval(a), fval(b)
    return z3.fpEQ(a, b) if sym(a) or sym(b) else bool(a == b)


def _farith(z, n):
    def op(a, b):
        if sym(a) or sym(b):
            return z(z3.RNE(), a, b)
        import numpy as np
        with np.errstate(all='ignore'):
            return getattr(np, n)(fval(a), fval(b)).tobytes()
    return op


f_add, f_sub = _farith(z3.fpAdd, 'add'), _farith(z3.fpSub, 'subtract')
f_mul, f_div = _farith(z3.fpMul, 'multiply'), _farith(z3.fpDiv, 'divide')


def f_const(x, w):
    def make(like):
        import numpy as np
        return z3.FPVal(x, FP_SORT[w]) if sym(like) else np.dtype('<f%d' % (w // 8)).type(x).tobytes()
    return make


def f_abs(a):
    import numpy as np
    return z3.fpAbs(a) if sym(a) else np.abs(fval(a)).tobytes()


class CStr(Kind):
    """NUL-terminated const char* (optionally NULL)"""

    def __init__(self, name='z', null=True, writable=False, alpha=None, pick=None, apart=None, sub=False, only=False):
        self.name, self.nullable, self.writable = name, null, writable
        self.apart, self.sub, self.only = apart, sub, only
        self.alpha, self.pick = alpha, pick

    def setup(self, ctx, i):
        eng = ctx.eng
        n = self.name
        if self.nullable and eng.branch(z3.Bool(n + '_is_null')):
            return NULL
        ln = z3.Int(n + '_len')
        eng.set_bounds(ln, 0, MAXOBJ - 1)
        f = z3.Function(n + '_data', z3.IntSort(), z3.IntSort())
        eng.bnd[n + '_data'] = (0, 255)
        b = eng.new_block('bytes', Add(ln, 1), n, bid='cstr:' + n)
        b.initial = True
        b.content = Content(lambda k: f(zint(k)))
        q = z3.Int('q!' + n)
        eng.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ln), f(q) != 0), patterns=[f(q)]))
        eng.st.pc.append(f(ln) == 0)
        b.nul = (ln,)
        return P(b.bid, 0)

    def view(self, ctx, val):
        return CV(ctx, ctx.eng.resolve(val))

    def accept(self, ctx, val, i):
        eng = ctx.eng
        val = eng.resolve(val)
        v = CV(ctx, val)
        if val.isnull:
            if not self.nullable:
                eng.oblige('pre', '%s: argument %d is not NULL' % (ctx.con.name, i), False)
            return v
        if val.bid is None:
            if not eng.opts.get('cstr_elems'):
                raise Unsupported('C string of unknown provenance')
            val = fresh_cstr(eng, 'element')
            v = CV(ctx, val)
        v.len     # strlen obligation
        check_apart(ctx, self, val, i)
        return v


def fresh_cstr(eng, name):
    """some valid C string"""
    ln = eng.fresh_int(name + '_len', None, 0, MAXOBJ - 1)
    b = eng.new_block('bytes', Add(ln, 1), name)
    f = eng.fresh_fn(name)
    b.content = Content(lambda k: f(zint(k)))
    q = z3.Int(eng.name('q'))
    eng.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ln), f(q) != 0), patterns=[f(q)]))
    eng.st.pc.append(f(ln) == 0)
    b.nul = (ln,)
    return P(b.bid, 0)


def check_apart(ctx, k, val, i):
    if k.apart is not None and not ctx.args[k.apart].null:
        a = ctx.args[k.apart]
        bid = a.data_ptr.bid if isinstance(a, AV) else a.p.bid
        ctx.eng.oblige('pre', '%s: argument %d does not lie inside the modified object' % (ctx.con.name, i), val.bid != bid)


class Chars(Kind):
    """pointer to `size(args)` readable characters (no NUL among them)"""

    def __init__(self, size, name='z', null=True, apart=None, alpha=None):
        self.size, self.name, self.nullable, self.apart, self.alpha = size, name, null, apart, alpha

    def setup(self, ctx, i):
        eng = ctx.eng
        n = self.name
        if self.nullable and eng.branch(z3.Bool(n + '_is_null')):
            return NULL
        b = eng.new_block('bytes', 0, n, bid='buf:' + n)
        b.initial = True
        f = z3.Function(n + '_data', z3.IntSort(), z3.IntSort())
        eng.bnd[n + '_data'] = (0, 255)
        b.content = Content(lambda k: f(zint(k)))
        b.size = sz = self.size(ctx.args)
        if sym(sz):
            eng.assume(sz <= MAXOBJ)
        q = z3.Int('q!' + n)
        eng.st.pc.append(z3.ForAll([q], z3.Implies(zbool(And(q >= 0, q < sz)), f(q) != 0), patterns=[f(q)]))
        return P(b.bid, 0)

    def view(self, ctx, val):
        return PtrView(ctx, ctx.eng.resolve(val))

    def accept(self, ctx, val, i):
        eng = ctx.eng
        val = eng.resolve(val)
        if val.isnull:
            if not self.nullable:
                eng.oblige('pre', '%s: argument %d is not NULL' % (ctx.con.name, i), False)
            return PtrView(ctx, val)
        n = self.size(ctx.args)
        p = eng.check_ptr(val, n, '%s argument %d' % (ctx.con.name, i))
        check_apart(ctx, self, p, i)
        no_nul(eng, eng.region(p), n, 'pre', '%s: the characters of argument %d are not NUL' % (ctx.con.name, i))
        return PtrView(ctx, p)


class OwnedStr(Kind):
    """heap-allocated C string handed over by the caller (owner set by AllocOf)"""

    def __init__(self, name='z'):
        self.name = name

    def setup(self, ctx, i):
        eng = ctx.eng
        n = self.name
        if eng.branch(z3.Bool(n + '_is_null')):
            return NULL
        ln = z3.Int(n + '_len')
        eng.set_bounds(ln, 0, MAXOBJ - 1)
        f = z3.Function(n + '_data', z3.IntSort(), z3.IntSort())
        eng.bnd[n + '_data'] = (0, 255)
        b = eng.new_block('bytes', Add(ln, 1), n, bid='cstr:' + n)
        b.initial = b.heap = True
        b.content = Content(lambda k: f(zint(k)))
        q = z3.Int('q!' + n)
        eng.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ln), f(q) != 0), patterns=[f(q)]))
        eng.st.pc.append(f(ln) == 0)
        b.nul = (ln,)
        return P(b.bid, 0)

    def view(self, ctx, val):
        return CV(ctx, ctx.eng.resolve(val))

    def accept(self, ctx, val, i):
        v = CV(ctx, ctx.eng.resolve(val))
        if not v.null:
            v.len
            b = ctx.eng.blk(v.p.bid)
            ctx.eng.oblige('pre', '%s: the text is a heap allocation' % ctx.con.name, And(bool(b.heap), Eq(v.p.off, 0)))
        return v


class CV(PtrView):
    """C string view; `len` is the strlen of the argument at the time of the call"""

    def __init__(self, ctx, p):
        PtrView.__init__(self, ctx, p)
        self._len = None
        if not p.isnull and p.bid is not None:
            b = ctx.eng.blk(p.bid)
            self._c = b.content if b.kind == 'bytes' else None

    @property
    def len(self):
        if self._len is None:
            from .models import strlen_term
            self._len = strlen_term(self.ctx.eng, self.p)
        return self._len

    def chars_bytes(self):
        c = self.chars()
        return bytes(c(k) for k in range(self.len))

    def chars(self):
        """snapshot: index -> byte"""
        c, off = self._c, simp(self.p.off)
        if not sym(off) and off == 0:
            return c
        return Content(lambda k: c(Add(off, k)))


class Buf(Kind):
    """pointer to `size(args)` readable (writable) bytes"""

    def __init__(self, size, name='buf', null=True, const=False, heap=False):
        self.size, self.name, self.nullable, self.const = size, name, null, const

    def setup(self, ctx, i):
        eng = ctx.eng
        n = self.name
        if self.nullable and eng.branch(z3.Bool(n + '_is_null')):
            return NULL
        b = eng.new_block('bytes', 0, n, bid='buf:' + n)
        b.initial = True
        f = z3.Function(n + '_data', z3.IntSort(), z3.IntSort())
        eng.bnd[n + '_data'] = (0, 255)
        b.content = Content(lambda k: f(zint(k)))
        if self.size is None:
            sz = z3.Int(n + '_size')
            eng.set_bounds(sz, 0, MAXOBJ)
        else:
            sz = self.size(ctx.args) if callable(self.size) else self.size
        b.size = sz
        if sym(sz):
            eng.assume(sz <= MAXOBJ)
        return P(b.bid, 0)

    def view(self, ctx, val):
        return PtrView(ctx, ctx.eng.resolve(val))

    def accept(self, ctx, val, i):
        eng = ctx.eng
        val = eng.resolve(val)
        v = PtrView(ctx, val)
        if val.isnull:
            if not self.nullable:
                eng.oblige('pre', '%s: argument %d is not NULL' % (ctx.con.name, i), False)
            return v
        sz = self.size(ctx.args) if callable(self.size) else self.size
        if sz is not None:
            p = eng.check_ptr(val, sz, '%s argument %d' % (ctx.con.name, i))
            v = PtrView(ctx, p)
        return v


class Ptr(Kind):
    """any pointer value, never dereferenced"""

    def __init__(self, name='p', null=True):
        self.name, self.nullable = name, null

    def setup(self, ctx, i):
        eng = ctx.eng
        if self.nullable and eng.branch(z3.Bool(self.name + '_is_null')):
            return NULL
        v = z3.Int(self.name)
        eng.set_bounds(v, 1, (1 << 64) - 1)
        return P(addr=v)

    def view(self, ctx, val):
        return PtrView(ctx, val)


class Out(Kind):
    """pointer to one object of type ty"""

    def __init__(self, ty, name='out', null=True, init=True):
        self.ty, self.name, self.nullable, self.init = ty, name, null, init

    def setup(self, ctx, i):
        eng = ctx.eng
        if self.nullable and eng.branch(z3.Bool(self.name + '_is_null')):
            return NULL
        b = eng.alloc_type(self.ty, self.name, 'zero', bid='out:' + self.name)
        b = eng.mut(b.bid)
        b.initial = True
        for o, (t, _v) in list(b.cells.items()):
            b.cells[o] = (t, eng.fresh_of(t, self.name + '_%d' % o))
        return P(b.bid, 0)

    def view(self, ctx, val):
        return PtrView(ctx, ctx.eng.resolve(val))

    def accept(self, ctx, val, i):
        eng = ctx.eng
        val = eng.resolve(val)
        if not val.isnull:
            eng.check_ptr(val, eng.prog.sizeof(self.ty), '%s argument %d' % (ctx.con.name, i))
        return PtrView(ctx, val)


class Any(Kind):
    """ignored argument (diagnostic strings, line numbers)"""

    def __init__(self, ty=ULONG, name='any'):
        self.ty, self.name = ty, name

    def setup(self, ctx, i):
        eng = ctx.eng
        if self.ty[0] == 'ptr':
            # a plain text or any text: a defect that does not depend on it shows with the plain one
            if eng.branch(z3.Bool('texts_are_plain')):
                return eng.literal(b'f\0')
            return CStr(self.name, null=False).setup(ctx, i)
        return eng.fresh_of(self.ty, self.name)


def spec(name, *kinds, **kw):
    def deco(f):
        names = name if isinstance(name, (list, tuple)) else [name]
        for n in names:
            REG[n] = Contract(n, list(kinds), f, **kw)
        return f
    return deco


class HeapPtr(Kind):
    """start of a live libc heap object, or NULL"""

    def __init__(self, name='p', null=True):
        self.name, self.nullable = name, null

    def setup(self, ctx, i):
        eng = ctx.eng
        n = self.name
        if self.nullable and eng.branch(z3.Bool(n + '_is_null')):
            return NULL
        sz = z3.Int(n + '_size')
        eng.set_bounds(sz, 1, MAXOBJ)
        b = eng.new_block('bytes', sz, n, bid='heap:' + n, heap=True)
        b.initial = True
        f = z3.Function(n + '_data', z3.IntSort(), z3.IntSort())
        eng.bnd[n + '_data'] = (0, 255)
        b.content = Content(lambda k: f(zint(k)))
        return P(b.bid, 0)

    def view(self, ctx, val):
        return PtrView(ctx, ctx.eng.resolve(val))


class Region(Kind):
    """args[size] accessible bytes at this pointer, possibly inside the object of args[alias]"""

    def __init__(self, name, size, alias=None, disjoint=False):
        self.name, self.sz, self.alias, self.disjoint = name, size, alias, disjoint

    def setup(self, ctx, i):
        eng = ctx.eng
        n = self.name
        if eng.branch(z3.Bool(n + '_is_null')):
            return NULL
        m = ctx.args[self.sz]
        off = z3.Int(n + '_off')
        if self.alias is not None:
            o = ctx.args[self.alias]
            if not o.null and eng.branch(z3.Bool(n + '_aliases')):
                b = eng.blk(o.p.bid)
                eng.set_bounds(off, 0, MAXOBJ)
                eng.assume(off + m <= b.size)
                if self.disjoint:
                    eng.assume(Or(off + m <= o.p.off, o.p.off + m <= off, Eq(off, o.p.off)))
                return P(b.bid, off)
        size = z3.Int(n + '_objsize')
        eng.set_bounds(size, 0, MAXOBJ)
        eng.set_bounds(off, 0, MAXOBJ)
        eng.assume(off + m <= size)
        b = eng.new_block('bytes', size, n, bid='buf:' + n)
        b.initial = True
        f = z3.Function(n + '_data', z3.IntSort(), z3.IntSort())
        eng.bnd[n + '_data'] = (0, 255)
        b.content = Content(lambda k: f(zint(k)))
        return P(b.bid, off)

    def view(self, ctx, val):
        return PtrView(ctx, ctx.eng.resolve(val))

    def accept(self, ctx, val, i):
        eng = ctx.eng
        val = eng.resolve(val)
        if val.isnull:
            return PtrView(ctx, val)
        p = eng.check_ptr(val, ctx.args[self.sz], '%s argument %d' % (ctx.con.name, i))
        if self.disjoint and self.alias is not None:
            o = ctx.args[self.alias]
            m = ctx.args[self.sz]
            if not o.null and o.p.bid == p.bid:
                eng.oblige('pre', '%s: operands do not partially overlap' % ctx.con.name,
                           Or(p.off + m <= o.p.off, o.p.off + m <= p.off, Eq(p.off, o.p.off)))
        return PtrView(ctx, p)


class FnView:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p

    @property
    def null(self):
        return self.p.isnull

    def called(self, n, args):
        """the callback was called exactly n times, the k-th time with args(k)"""
        eng = self.ctx.eng
        if self.ctx.mode == 'check':
            cnt = self.ctx.act.ghost.get('cb_n', 0)
            rec = self.ctx.act.ghost.get('cb_args')
            eng.oblige('post', 'the callback is called once per element', Eq(cnt, n))
            if eng.concrete_mode:
                for k in range(n):
                    for x, y in zip(args(k), rec[k]):
                        x = eng.addr(x) if isinstance(x, P) else x
                        eng.oblige('post', 'callback argument', x == y)
                return
            if not isinstance(n, int) or n > 0:
                k = eng.fresh_int('k')
                saved = list(eng.st.pc)
                eng.st.pc += [zbool(And(k >= 0, k < n))]
                for i, x in enumerate(args(k)):
                    x = eng.addr(x) if isinstance(x, P) else x
                    if rec is None or i not in rec:
                        eng.oblige('post', 'callback is called', False)
                        break
                    eng.oblige('post', 'callback argument %d is as specified' % i, Eq(x, rec[i](k)))
                eng.st.pc[:] = saved
            return
        raise Unsupported('callback contract at a call site')


class Callback(Kind):
    """a pure callback supplied by the user (assumed not to modify the container)"""

    def __init__(self, name='func'):
        self.name = name

    def setup(self, ctx, i):
        eng = ctx.eng
        if eng.branch(z3.Bool(self.name + '_is_null')):
            return NULL
        return P(fn='@callback')

    def view(self, ctx, val):
        return FnView(ctx, val)


class scan:
    """loop hint: facts about all indices already (or still) covered by a scan.  With each=True the
    predicate also takes a term that does not change in the loop (the element scanned for)"""

    def __init__(self, mk, each=False):
        self.mk = mk
        self.each = each


class content:
    """loop hint: the content a block should end up with, index by index; `bound` maps a loop
    variable to the index up to which the content is final"""

    def __init__(self, mk, bound=None):
        self.mk = mk
        self.bound = bound


class relate:
    """loop hint: relations over one or two loop variables"""

    def __init__(self, mk, n=1):
        self.mk, self.n = mk, n


class flag:
    """loop hint: what a boolean loop variable may stand for: a fact about the position a loop variable holds"""

    def __init__(self, mk):
        self.mk = mk
