"""Forward verification-condition generator over the clang AST.

One function is executed symbolically along every path; calls use the callee's
contract, loops are cut at inductive invariants, and every memory access, arithmetic
operation and contract clause yields an obligation discharged by solver.py.
Paths are explored by re-execution: `branch` follows a recorded decision vector.
"""
import time, os, re
import z3
from . import cast
from .cast import Unsupported, VOID, BOOL, CHAR, UCHAR, INT, UINT, LONG, ULONG
from .tm import *
from .mem import *
from . import solver

SIZE = ULONG
FP_SORT = {32: z3.Float32(), 64: z3.Float64(), 80: z3.FPSort(15, 64)}
RNE = z3.RNE()


class PathEnd(Exception):
    """this path is finished without reaching the function's end"""


class Infeasible(PathEnd):
    pass


class ExitEx(Exception):
    def __init__(self, why, oom=False):
        self.why = why
        self.oom = oom


class ReturnEx(Exception):
    def __init__(self, val):
        self.val = val


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class GotoEx(Exception):
    def __init__(self, label):
        self.label = label


class Budget(Exception):
    pass


class Ref:
    __slots__ = ('bid',)

    def __init__(self, bid):
        self.bid = bid


UNINIT = object()


class Obligation:
    __slots__ = ('fn', 'cat', 'desc', 'line', 'status', 'backend', 'model', 'secs', 'trace', 'reason', 'smt', 'pre', 'approx')

    def as_dict(self):
        return dict(function=self.fn, category=self.cat, what=self.desc, line=self.line, status=self.status,
                    backend=self.backend, secs=round(self.secs, 4))


def int_bounds(ty):
    if ty[0] == 'bool':
        return 0, 1
    bits, s = ty[1], ty[2]
    if s:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


def small_ite(t):
    """an if-then-else with constant branches inside a small term"""
    st, n = [t], 0
    while st:
        x = st.pop()
        n += 1
        if n > 40:
            return None
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and all(z3.is_int_value(y) for y in x.children()[1:]):
            return x
        st.extend(x.children())
    return None


def arms_pure(e):
    if e.get('kind') in ('CallExpr', 'UnaryOperator', 'CompoundAssignOperator', 'StmtExpr', 'ArraySubscriptExpr', 'MemberExpr') or \
            e.get('kind') == 'BinaryOperator' and e.get('opcode') in ('=', '&&', '||', '/', '%'):
        return False
    return all(arms_pure(x) for x in e.get('inner', []))


class Engine:
    def __init__(self, prog, contracts, models, fname, opts=None):
        self.prog = prog
        self.contracts = contracts
        self.models = models
        self.fname = fname
        self.opts = opts or {}
        self.st = State()
        self.n = 0
        self.bnd = {}
        self.trace = []
        self.prefix = []
        self.work = []
        self.qn = 0
        self.qcache = {}
        self._bf, self._pi, self.impure = {}, {}, 0
        self.obls = []
        self.oblkeys = set()
        self.line = 0
        self.quiet = 0           # >0: no obligations recorded (loop analysis)
        self.assumed = set()     # names of assumed contracts / models used
        self.used_contracts = set()
        self.inlined = set()
        self.covers = {}         # reachability covers
        self.depth = 0
        self.callstack = []
        self.deadline = None
        self.sub = ()            # nested exploration key
        self.loopinv = {}
        self.hints = []
        self.npaths = 0
        self.concrete_mode = False
        self.known_ids = {}
        self.keep = []           # keep z3 terms alive
        self.literals = {}
        self.lemma_hooks = []
        self.looplog = []
        self.icache, self.igen, self.ngen = {}, (), 0
        self.want_cover = False
        self.approx = 0
        self.loopcache = {}
        self.optimistic = 0
        self.conts = {}

    # ------------------------------------------------------------ basics
    def name(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def fresh_int(self, base, ty=None, lo=None, hi=None):
        v = z3.Int(self.name(base))
        if ty is not None:
            l, h = int_bounds(ty)
            lo = l if lo is None else max(lo, l)
            hi = h if hi is None else min(hi, h)
        self.set_bounds(v, lo, hi)
        return v

    def set_bounds(self, v, lo, hi):
        if lo is not None:
            self.st.pc.append(v >= lo)
        if hi is not None:
            self.st.pc.append(v <= hi)
        self.bnd[v.decl().name()] = (lo, hi)

    def fresh_bool(self, base):
        return z3.Bool(self.name(base))

    def fresh_fn(self, base, lo=0, hi=255):
        nm = self.name(base)
        f = z3.Function(nm, z3.IntSort(), z3.IntSort())
        self.bnd[nm] = (lo, hi)
        return f

    def fresh_content(self, base, lo=0, hi=255, **kw):
        f = self.fresh_fn(base, lo, hi)
        return Content(lambda k: f(zint(k)), **kw)

    def junk(self, name='junk'):
        if self.concrete_mode:
            return Content(lambda k: 0, uniform='junk', defined=lambda k: False)
        return self.fresh_content(name, uniform='junk', defined=lambda k: False)

    def assume(self, c):
        c = simp(c) if sym(c) else c
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.st.pc.append(c)

    # interval prefilter
    def bounds(self, t, d=0):
        if not sym(t):
            return (t, t)
        if z3.is_int_value(t):
            v = t.as_long()
            return (v, v)
        if d > 12:
            return (None, None)
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED:
                return self.bnd.get(t.decl().name(), (None, None))
            if k == z3.Z3_OP_ADD:
                lo = hi = 0
                for c in t.children():
                    l, h = self.bounds(c, d + 1)
                    lo = None if lo is None or l is None else lo + l
                    hi = None if hi is None or h is None else hi + h
                return lo, hi
            if k == z3.Z3_OP_SUB:
                cs = [self.bounds(c, d + 1) for c in t.children()]
                lo, hi = cs[0]
                for l, h in cs[1:]:
                    lo = None if lo is None or h is None else lo - h
                    hi = None if hi is None or l is None else hi - l
                return lo, hi
            if k == z3.Z3_OP_MUL:
                lo, hi = 1, 1
                for c in t.children():
                    l, h = self.bounds(c, d + 1)
                    if l is None or h is None or lo is None:
                        return None, None
                    xs = [lo * l, lo * h, hi * l, hi * h]
                    lo, hi = min(xs), max(xs)
                return lo, hi
            if k == z3.Z3_OP_UMINUS:
                l, h = self.bounds(t.arg(0), d + 1)
                return (None if h is None else -h, None if l is None else -l)
            if k == z3.Z3_OP_ITE:
                l1, h1 = self.bounds(t.arg(1), d + 1)
                l2, h2 = self.bounds(t.arg(2), d + 1)
                return (None if l1 is None or l2 is None else min(l1, l2),
                        None if h1 is None or h2 is None else max(h1, h2))
            if k == z3.Z3_OP_MOD:
                m = t.arg(1)
                if z3.is_int_value(m):
                    return 0, m.as_long() - 1
            if k == z3.Z3_OP_IDIV:
                m = t.arg(1)
                l, h = self.bounds(t.arg(0), d + 1)
                if z3.is_int_value(m) and m.as_long() > 0:
                    return (None if l is None else l // m.as_long(), None if h is None else h // m.as_long())
        return (None, None)

    # ------------------------------------------------------------ queries
    def _key(self):
        self.qn += 1
        return (self.sub, tuple(self.trace), self.qn)

    def facts(self):
        return self.st.pc

    def valid(self, goal, timeout=None, cache=True):
        """is goal entailed by the path condition?  (no obligation recorded)"""
        goal = simp(goal) if sym(goal) else goal
        if isinstance(goal, bool):
            if goal:
                return True
        key = self._key()
        if cache and key in self.qcache:
            return self.qcache[key]
        self.check_time()
        r = solver.check_unsat(self.facts() + self.instances(goal) + [Not(goal)], timeout or 1500, want_model=False)
        ok = r.status == 'proved'
        self.qcache[key] = ok
        return ok

    def add_forall(self, lo, hi, pred):
        """remember: for all k in [lo,hi): pred(k); instantiated at the index terms of each query"""
        self.st.ghost['qf'] = self.st.ghost.get('qf', ()) + ((lo, hi, pred),)

    def add_index(self, t):
        self.st.ghost['idx'] = self.st.ghost.get('idx', ()) + (t,)

    def byte_fact_b(self, t):
        hit = self._bf.get(t.get_id())
        if hit is None:
            out = []
            for x in subterms(t):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.sort() == z3.IntSort():
                    l, h = self.bnd.get(x.decl().name(), (None, None))
                    if l is not None:
                        out.append(z3.And(x >= l, x <= h))
            hit = self._bf[t.get_id()] = (t, out)
        self.st.pc += hit[1]

    def var_name(self, did):
        for fn in self.callstack:
            m = self._vnames.get(fn)
            if m is None:
                m = self._vnames[fn] = {}
                st = [self.prog.funcs[fn]]
                while st:
                    n = st.pop()
                    if n.get('kind') in ('VarDecl', 'ParmVarDecl'):
                        m[n['id']] = n.get('name', '?')
                    st.extend(n.get('inner', []))
            if did in m:
                return m[did]
        return str(did)

    _vnames = {}

    def instances(self, goal):
        out = []
        qf = self.st.ghost.get('qf', ())
        if qf:
            idx = {}
            for t in self.st.ghost.get('idx', ())[-10:]:
                idx.setdefault(str(t), t)
            for (lo, hi, pred) in qf[-24:]:
                for t in idx.values():
                    k = (id(pred), t.get_id() if sym(t) else t)
                    p = self._pi.get(k)
                    if p is None:
                        n0 = self.impure
                        p = pred(t)
                        if self.impure == n0:
                            self._pi[k] = (p, pred, t)
                    else:
                        p = p[0]
                    if sym(p):
                        self.byte_fact_b(p)
                    out.append(zbool(Implies(And(t >= lo, t < hi), p)))
        for h in self.lemma_hooks:
            out += h(self, goal)
        return out

    def feasible(self, cond=True):
        key = self._key()
        if key in self.qcache:
            return self.qcache[key]
        self.check_time()
        r = solver.check_unsat(self.facts() + [zbool(cond)], 800, want_model=False, nla=False)
        ok = r.status != 'proved'
        self.qcache[key] = ok
        return ok

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget for %s exhausted' % self.fname)

    def branch(self, cond):
        cond = simp(cond) if sym(cond) else cond
        if isinstance(cond, bool):
            return cond
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            forced = d in (2, 3)
            val = d in (1, 3)
            self.trace.append(d)
            self.qn = 0
            self.st.pc.append(cond if val else Not(cond))
            return val
        if self.concrete_mode:
            raise Unsupported('symbolic branch in concrete replay')
        ft = self.feasible(cond)
        ff = self.feasible(Not(cond)) if ft else True
        if ft and ff:
            self.work.append(self.trace + [0])
            self.trace.append(1)
            self.qn = 0
            self.st.pc.append(cond)
            if len(self.work) + self.npaths > self.opts.get('maxpaths', 3000):
                raise Budget('path budget')
            return True
        if ft:
            self.trace.append(3)
            self.qn = 0
            self.st.pc.append(cond)
            return True
        if not self.feasible(True):
            raise Infeasible()
        self.trace.append(2)
        self.qn = 0
        self.st.pc.append(Not(cond))
        return False

    def oblige(self, cat, desc, goal, line=None):
        """record and discharge one obligation; afterwards its goal is assumed"""
        goal = simp(goal) if sym(goal) else goal
        key = self._key()
        if self.quiet:
            # inside loop analysis: obligations are emitted by the final pass
            if isinstance(goal, bool):
                if not goal:
                    raise Infeasible()
                return True
            self.st.pc.append(goal)
            return True
        if key in self.qcache:
            ok = self.qcache[key]
        else:
            self.check_time()
            t0 = time.time()
            o = Obligation()
            o.fn, o.cat, o.desc, o.line = self.fname, cat, desc, line or self.line
            o.model = None
            o.reason = ''
            o.smt = None
            o.pre = None
            o.approx = bool(self.st.ghost.get('approx'))
            if isinstance(goal, bool) and goal:
                o.status, o.backend = 'proved', 'syntactic'
            else:
                fs = self.facts() + self.instances(goal) + [Not(goal)]
                r = solver.check_unsat(fs, self.opts.get('timeout', 6000))
                if r.status != 'proved':
                    r2 = solver.check_cvc5(fs, 4000) if r.status == 'unknown' else r
                    if r2.status == 'proved':
                        r = r2
                o.status, o.backend, o.model, o.reason = r.status, r.backend, r.model, r.reason
                if o.status != 'proved':
                    o.smt = [zbool(f) for f in fs]
            o.secs = time.time() - t0
            o.trace = list(self.trace)
            self.obls.append(o)
            if o.status != 'proved':
                self.on_failed(o, goal)
            ok = o.status == 'proved'
            self.qcache[key] = ok
        if isinstance(goal, bool):
            if not goal:
                raise Infeasible()
        else:
            self.st.pc.append(goal)
        return ok

    def on_failed(self, o, goal):
        pass

    # ------------------------------------------------------------ blocks
    def new_block(self, kind, size, name, bid=None, heap=False, owner=None):
        if bid is None:
            self.n += 1
            bid = self.n
        b = Block(bid, kind, size, name)
        b.heap = heap
        b.owner = owner
        b.base = z3.Int('addr!%s' % (bid,))
        self.st.pc.append(b.base > 0)
        if sym(size):
            self.st.pc.append(size <= MAXOBJ)
        self.st.mem[bid] = b
        return b

    def blk(self, bid):
        return self.st.mem[bid]

    def mut(self, bid):
        b = self.st.mem[bid].clone()
        self.st.mem[bid] = b
        return b

    def log(self, *key):
        if self.st.log is not None:
            self.st.log.add(key)

    def zero_of(self, ty):
        k = ty[0]
        if k == 'int':
            return I(0, ty)
        if k == 'bool':
            return B(False, ty)
        if k == 'ptr':
            return NULL
        if k == 'float':
            return F(z3.FPVal(0.0, FP_SORT[ty[1]]), ty)
        raise Unsupported('zero of %r' % (ty,))

    def fresh_of(self, ty, name):
        k = ty[0]
        if k == 'int':
            return I(self.fresh_int(name, ty), ty)
        if k == 'bool':
            return B(self.fresh_bool(name), ty)
        if k == 'float':
            return F(z3.FP(self.name(name), FP_SORT[ty[1]]), ty)
        if k == 'ptr':
            a = self.fresh_int(name, None, 0, (1 << 64) - 1)
            return P(addr=a)
        if k == 'struct':
            return S({o: self.fresh_of(t, name) for (o, t) in self.prog.leaves(ty)}, ty)
        raise Unsupported('fresh of %r' % (ty,))

    def zero_struct(self, ty):
        return S({o: self.zero_of(t) for (o, t) in self.prog.leaves(ty)}, ty)

    def alloc_type(self, ty, name, init='junk', bid=None):
        """block for an object of static type ty (init: 'zero' | 'junk')"""
        if ty == ('array', ('struct', '__va_list_tag'), 1):
            ty = ty[1]
        sz = self.prog.sizeof(ty)
        if ty[0] == 'array':
            el = ty[1]
            if (el if el[0] != 'array' else el[1])[:2] == ('int', 8):
                b = self.new_block('bytes', sz, name, bid)
                b.content = Content(lambda k: 0, uniform=0) if init == 'zero' else self.junk(name)
                b.ty = ty
                return b
            b = self.new_block('elems', sz, name, bid)
            self.make_elems(b, el, init, name)
            b.ty = ty
            return b
        b = self.new_block('cells', sz, name, bid)
        b.ty = ty
        b.cells = {}
        if ty[0] == 'struct' and ty[1] == '__va_list_tag':
            return b
        for (o, t) in self.prog.leaves(ty):
            if o in b.cells:
                continue
            b.cells[o] = (t, self.zero_of(t) if init == 'zero' else UNINIT)
        return b

    def make_elems(self, b, el, init, name):
        b.kind = 'elems'
        b.stride = self.prog.sizeof(el)
        b.content = None
        b.cells = None
        b.fields = {}
        for (o, t) in self.prog.leaves(el):
            if o in b.fields:
                continue
            b.fields[o] = (t, self.elem_content(t, init, name))
        b.ty = ('array', el, None)

    def elem_content(self, t, init, name):
        if init == 'zero':
            if t[0] == 'float':
                z = z3.FPVal(0.0, FP_SORT[t[1]])
                return Content(lambda k: z, uniform=0)
            if t[0] == 'bool':
                return Content(lambda k: False, uniform=0)
            return Content(lambda k: 0, uniform=0)
        if t[0] == 'float':
            f = z3.Function(self.name(name), z3.IntSort(), FP_SORT[t[1]])
            return Content(lambda k: f(zint(k)), uniform='junk', defined=lambda k: False)
        if t[0] == 'bool':
            f = z3.Function(self.name(name), z3.IntSort(), z3.BoolSort())
            return Content(lambda k: f(zint(k)), uniform='junk', defined=lambda k: False)
        lo, hi = int_bounds(t) if t[0] == 'int' else (0, (1 << 64) - 1)
        return self.fresh_content(name, lo, hi, uniform='junk', defined=lambda k: False)

    def literal(self, data, name='lit'):
        """string literal block (data includes the terminator)"""
        bid = 'lit:' + repr(bytes(data))
        if bid not in self.st.mem:
            b = self.new_block('bytes', len(data), name, bid)
            b.content = const_content(data)
            b.const = True
            b.nul = tuple(i for i, ch in enumerate(data) if ch == 0)
        return P(bid, 0)

    # ------------------------------------------------------------ memory access
    def addr(self, p):
        if p.bid is not None:
            if p.bid not in self.st.mem:
                return Add(z3.Int('addr!%s' % (p.bid,)), p.off)
            b = self.blk(p.bid)
            if b.caddr is not None and not sym(p.off):
                return b.caddr + p.off
            return Add(b.base, p.off)
        if p.fn is not None:
            return z3.Int('fn!' + p.fn)
        if p.addr is not None:
            return p.addr
        return 0

    def resolve(self, p):
        """turn an opaque address into (block, offset) when that is provable"""
        if p.bid is not None or p.addr is None:
            return p
        a = simp(p.addr)
        if not sym(a):
            if a == 0:
                return NULL
            for b in self.st.mem.values():
                if b.caddr is not None and b.alive and not sym(b.size) and b.caddr <= a < b.caddr + max(b.size, 1):
                    return P(b.bid, a - b.caddr)
            return p
        rs = self.st.ghost.get('resolver')
        if rs:
            for r in rs:
                q = r(self, p)
                if q is not None:
                    return q
        # syntactic base + off
        names = {}
        for b in self.st.mem.values():
            if b.base is not None:
                names[b.base.get_id()] = b
        atoms = [a] if not z3.is_add(a) else a.children()
        for x in atoms:
            if x.get_id() in names:
                b = names[x.get_id()]
                return P(b.bid, simp(a - b.base))
        return p

    def check_ptr(self, p, n, what, write=False):
        p = self.resolve(p)
        if p.isnull:
            self.oblige('mem', 'null pointer dereference: ' + what, False)
        if p.bid is None:
            if p.addr is not None and self.valid(Eq(p.addr, 0)):
                self.oblige('mem', 'null pointer dereference: ' + what, False)
            if p.addr is not None and not self.valid(Ne(p.addr, 0)):
                self.oblige('mem', 'pointer may be null: ' + what, Ne(p.addr, 0))
            raise Unsupported('access through a pointer of unknown provenance: ' + what)
        b = self.blk(p.bid)
        if not b.alive:
            self.oblige('mem', 'use after free: ' + what, False)
        if write and b.const:
            self.oblige('mem', 'write to constant object: ' + what, False)
        g = And(p.off >= 0, p.off + n <= b.size)
        self.oblige('mem', 'access in bounds: ' + what, g)
        return p

    def byte_fact(self, t, lo=0, hi=255):
        if sym(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            l, h = self.bnd.get(t.decl().name(), (lo, hi))
            if l is not None:
                self.st.pc.append(z3.And(t >= l, t <= h))
        elif sym(t):
            seen = 0
            stack = [t]
            done = set()
            while stack and seen < 60:
                x = stack.pop()
                if x.get_id() in done:
                    continue
                done.add(x.get_id())
                seen += 1
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.sort() == z3.IntSort():
                        l, h = self.bnd.get(x.decl().name(), (None, None))
                        if l is not None:
                            self.st.pc.append(z3.And(x >= l, x <= h))
                        continue
                    if x.sort() == z3.IntSort():
                        stack.extend(x.children())

    def getbyte(self, b, k):
        t = simp(b.content(k))
        self.byte_fact(t)
        return t

    def as_view(self, bid, ty):
        """give a raw zeroed/fresh byte block the shape wanted by a typed access"""
        b = self.blk(bid)
        if b.kind != 'bytes' or b.content.uniform is None:
            return b
        init = 'zero' if b.content.uniform == 0 else 'junk'
        return b, init

    def shape(self, p, ty):
        """ensure the block can serve an access of type ty at p; may retype a raw block"""
        b = self.blk(p.bid)
        if b.kind == 'bytes' and ty[0] in ('ptr', 'struct') and b.content.uniform is not None:
            init = 'zero' if b.content.uniform == 0 else 'junk'
            sz = self.prog.sizeof(ty)
            size = simp(b.size)
            if ty[0] == 'struct' and not sym(size) and size == sz:
                nb = self.mut(p.bid)
                nb.kind = 'cells'
                nb.content = None
                nb.cells = {}
                for (o, t) in self.prog.leaves(ty):
                    if o not in nb.cells:
                        nb.cells[o] = (t, self.zero_of(t) if init == 'zero' else UNINIT)
                nb.ty = ty
                return nb
            nb = self.mut(p.bid)
            self.make_elems(nb, ty, init, b.name)
            return nb
        return b

    def load(self, p, ty, what='load'):
        if ty[0] in ('array', 'func'):
            return p
        n = self.prog.sizeof(ty)
        p = self.check_ptr(p, n, what)
        b = self.shape(p, ty)
        if b.kind == 'cells':
            return self.load_cells(b, simp(p.off), ty)
        if b.kind == 'bytes':
            return self.load_bytes(b, p.off, ty)
        return self.load_elems(b, p.off, ty)

    def load_cells(self, b, off, ty):
        if sym(off):
            raise Unsupported('symbolic offset into a struct')
        if ty[0] == 'struct':
            out = {}
            for (o, t) in self.prog.leaves(ty):
                if o in out:
                    continue
                out[o] = self.load_cells(b, off + o, t)
            return S(out, ty)
        if off in b.cells:
            cty, v = b.cells[off]
            if self.prog.sizeof(cty) == self.prog.sizeof(ty):
                if v is UNINIT:
                    self.oblige('mem', 'read of uninitialised memory (%s)' % b.name, False)
                return self.retype(v, ty)
        # byte access into a scalar
        if ty[0] == 'int' and ty[1] == 8:
            t = self.cell_byte(b, off)
            return self.retype(I(t, UCHAR), ty)
        raise Unsupported('mistyped access to a struct cell')

    def retype(self, v, ty):
        k = ty[0]
        if isinstance(v, S):
            return v
        if k == 'int':
            if isinstance(v, B):
                return I(B2I(v.b), ty)
            if isinstance(v, I):
                if v.ty == ty:
                    return v
                return I(self.conv(v.t, ty), ty)
            if isinstance(v, P):
                return I(self.addr(v), ty)
        if k == 'bool':
            if isinstance(v, B):
                return B(v.b, ty)
            if isinstance(v, I):
                return B(Ne(v.t, 0), ty)
        if k == 'ptr':
            if isinstance(v, P):
                return v
            if isinstance(v, I):
                return P(addr=v.t) if sym(v.t) or v.t != 0 else NULL
        if k == 'float' and isinstance(v, F) and v.ty == ty:
            return v
        raise Unsupported('reinterpretation of a value')

    def conv(self, t, ty):
        """value conversion to integer type ty (modular)"""
        lo, hi = int_bounds(ty)
        if not sym(t):
            m = hi - lo + 1
            return (t - lo) % m + lo
        l, h = self.bounds(t)
        if l is not None and h is not None and l >= lo and h <= hi:
            return t
        if self.valid(And(t >= lo, t <= hi)):
            return t
        m = hi - lo + 1
        if lo == 0:
            return t % m
        return (t - lo) % m + lo

    def cell_byte(self, b, k):
        """byte k of a cells block"""
        k = simp(k)
        offs = sorted(b.cells)
        r = 0
        for o in reversed(offs):
            ty, v = b.cells[o]
            n = self.prog.sizeof(ty)
            for j in range(n):
                r = If(Eq(k, o + j), self.val_byte(v, ty, j), r) if sym(k) or k == o + j else r
                if not sym(k) and k == o + j:
                    return r
        return r

    def val_byte(self, v, ty, j):
        if v is UNINIT:
            raise Unsupported('bytes of an uninitialised object')
        if isinstance(v, B):
            return B2I(v.b) if j == 0 else 0
        if isinstance(v, I):
            t = v.t
            if v.ty[0] == 'int' and v.ty[2]:
                t = Mod(t, 1 << v.ty[1])
            if not sym(t):
                return (t >> (8 * j)) & 255
            return Mod(Div(t, 1 << (8 * j)), 256)
        if isinstance(v, F):
            f = z3.Function('fbyte%d' % v.ty[1], FP_SORT[v.ty[1]], z3.IntSort(), z3.IntSort())
            t = f(v.t, z3.IntVal(j))
            self.st.pc.append(z3.And(t >= 0, t <= 255))
            return t
        if isinstance(v, P):
            t = self.addr(v)
            return Mod(Div(t, 1 << (8 * j)), 256)
        raise Unsupported('bytes of value')

    def load_bytes(self, b, off, ty):
        off = simp(off)
        if ty[0] == 'int':
            if ty[1] == 8:
                t = self.getbyte(b, off)
                if ty[2]:
                    t = simp(If(t >= 128, t - 256, t))
                return I(t, ty)
            n = ty[1] // 8
            t = 0
            for j in range(n):
                t = Add(t, Mul(self.getbyte(b, Add(off, j)), 1 << (8 * j)))
            if ty[2]:
                t = If(t >= (1 << (ty[1] - 1)), t - (1 << ty[1]), t)
            return I(simp(t), ty)
        if ty[0] == 'bool':
            return B(Ne(self.getbyte(b, off), 0), ty)
        if ty[0] == 'float':
            n = {32: 4, 64: 8, 80: 10}[ty[1]]
            bs = [zint(self.getbyte(b, Add(off, j))) for j in range(n)]
            f = z3.Function('fdec%d' % ty[1], *([z3.IntSort()] * n + [FP_SORT[ty[1]]]))
            return F(f(*bs), ty)
        if ty[0] == 'ptr':
            t = 0
            for j in range(8):
                t = Add(t, Mul(self.getbyte(b, Add(off, j)), 1 << (8 * j)))
            return P(addr=simp(t))
        if ty[0] == 'struct':
            return S({o: self.load_bytes(b, Add(off, o), t) for (o, t) in self.prog.leaves(ty)}, ty)
        raise Unsupported('load %r from bytes' % (ty,))

    def split_off(self, b, off, ty):
        """byte offset into an elems block -> (index, leaf offset)"""
        st = b.stride
        off = simp(off)
        if not sym(off):
            return off // st, off % st
        # try each leaf offset
        for fo in sorted(b.fields):
            q = self.exact_div(Sub(off, fo), st)
            if q is not None:
                return q, fo
        raise Unsupported('unaligned access to an array of records')

    def exact_div(self, t, m):
        t = simp(t)
        if not sym(t):
            return t // m if t % m == 0 else None
        # syntactic: all coefficients divisible
        s = z3.simplify(t, som=True)
        parts = s.children() if z3.is_add(s) else [s]
        q = 0
        ok = True
        for p in parts:
            if z3.is_int_value(p):
                v = p.as_long()
                if v % m:
                    ok = False
                    break
                q = Add(q, v // m)
            elif z3.is_mul(p) and z3.is_int_value(p.arg(0)) and p.arg(0).as_long() % m == 0:
                rest = p.children()[1:]
                r = rest[0]
                for x in rest[1:]:
                    r = r * x
                q = Add(q, Mul(p.arg(0).as_long() // m, r))
            else:
                ok = False
                break
        if ok:
            return simp(q)
        if self.valid(Eq(Mod(t, m), 0)):
            return Div(t, m)
        return None

    def load_elems(self, b, off, ty):
        idx, fo = self.split_off(b, off, ty)
        if ty[0] == 'struct':
            out = {}
            for (o, t) in self.prog.leaves(ty):
                if o not in out:
                    out[o] = self.elem_val(b, idx, fo + o, t)
            return S(out, ty)
        return self.elem_val(b, idx, fo, ty)

    def elem_val(self, b, idx, fo, ty):
        if fo not in b.fields:
            raise Unsupported('unaligned field access')
        fty, c = b.fields[fo]
        if self.prog.sizeof(fty) != self.prog.sizeof(ty):
            raise Unsupported('mistyped element access')
        if c.pget is not None:
            idx = simp(idx)
            if sym(idx):
                n = simp(Div(b.size, b.stride))
                if sym(n) or n > 64:
                    raise Unsupported('symbolic index into a constant table')
                for i in range(n):
                    if self.branch(Eq(idx, i)):
                        return c.pget(i)
                raise Infeasible()
            return c.pget(idx)
        t = c(idx)
        if fty[0] == 'ptr':
            if sym(t):
                t = simp(t)
                self.byte_fact(t)
            return self.resolve(P(addr=t)) if sym(t) or t != 0 else NULL
        if fty[0] == 'bool':
            return B(t, ty)
        if fty[0] == 'float':
            return F(t, ty)
        t = simp(t)
        self.byte_fact(t)
        return self.retype(I(t, fty), ty)

    def term_of(self, v, fty):
        """value -> raw term as stored in an elems field"""
        if v is UNINIT:
            return 0
        if fty[0] == 'ptr':
            return self.addr(v)
        if fty[0] == 'bool':
            return v.b if isinstance(v, B) else Ne(v.t, 0)
        if fty[0] == 'float':
            return v.t
        return B2I(v.b) if isinstance(v, B) else v.t

    def store(self, p, ty, v, what='store'):
        n = self.prog.sizeof(ty)
        p = self.check_ptr(p, n, what, write=True)
        self.shape(p, ty)
        b = self.mut(p.bid)
        if b.kind == 'cells':
            self.store_cells(b, simp(p.off), ty, v)
        elif b.kind == 'bytes':
            self.store_bytes(b, simp(p.off), ty, v)
        else:
            self.store_elems(b, p.off, ty, v)

    def store_cells(self, b, off, ty, v):
        if sym(off):
            raise Unsupported('symbolic offset into a struct (store)')
        if ty[0] == 'struct':
            for (o, t) in self.prog.leaves(ty):
                if o in v.cells:
                    self.store_cells(b, off + o, t, v.cells[o])
            return
        if off in b.cells and self.prog.sizeof(b.cells[off][0]) == self.prog.sizeof(ty):
            self.log('cell', b.bid, off)
            b.cells[off] = (b.cells[off][0] if b.cells[off][0][0] == ty[0] else ty, v)
            return
        raise Unsupported('mistyped store to a struct cell')

    def store_bytes(self, b, off, ty, v):
        self.log('content', b.bid)
        old = b.content
        n = self.prog.sizeof(ty)
        if n == 1 and not isinstance(v, (F, S)):
            t = simp(self.val_byte(v, ty, 0))
            b.content = c_store(old, off, t)
            if not sym(t) and t == 0:
                b.nul = tuple(list(b.nul)[-6:]) + (off,)
            return
        if isinstance(v, S):
            raise Unsupported('struct stored into a byte buffer')
        bs = [simp(self.val_byte(v, ty, j)) for j in range(n)]
        for j in range(n):
            b.content = c_store(b.content, Add(off, j), bs[j])

    def store_elems(self, b, off, ty, v):
        idx, fo = self.split_off(b, off, ty)
        if ty[0] == 'struct':
            for (o, t) in self.prog.leaves(ty):
                if o in v.cells:
                    self.store_elem(b, idx, fo + o, t, v.cells[o])
            return
        self.store_elem(b, idx, fo, ty, v)

    def store_elem(self, b, idx, fo, ty, v):
        if fo not in b.fields or self.prog.sizeof(b.fields[fo][0]) != self.prog.sizeof(ty):
            raise Unsupported('mistyped element store')
        fty, old = b.fields[fo]
        if isinstance(v, P) and fty[0] == 'int':
            fty = ty
        t = self.term_of(v, fty)
        self.kept_by_list(v)
        self.log('field', b.bid, fo)
        b.fields[fo] = (fty, c_store(old, idx, t))

    def kept_by_list(self, v):
        """the address of a heap object was stored in a pointer array: it is not lost"""
        if isinstance(v, P) and v.bid is not None and v.bid in self.st.mem and self.st.mem[v.bid].heap and not self.concrete_mode:
            if v.bid in self.conts or not self.st.mem[v.bid].initial:
                b = self.mut(v.bid)
                b.owner_list = True
                if b.kind == 'cells' and b.ty == ('struct', 'VitaBaseArrayType'):
                    d = b.cells[40][1]
                    if isinstance(d, P) and d.bid in self.st.mem:
                        self.mut(d.bid).owner_list = True

    # regions -------------------------------------------------------------
    def region(self, p):
        """closure j -> byte at p+j (p must point into a block)"""
        b = self.blk(p.bid)
        off = p.off
        if b.kind == 'bytes':
            c = b.content
            return lambda j: c(Add(off, j))
        if b.kind == 'cells':
            return lambda j: self.cell_byte(b, Add(off, j))
        raise Unsupported('byte view of an array of records')

    def copy(self, d, s, n, what='copy', overlap_ok=True, checked=False):
        n = simp(n)
        if not checked:
            s = self.check_ptr(s, n, what + ' (source)')
            d = self.check_ptr(d, n, what + ' (destination)', write=True)
        if not overlap_ok and d.bid == s.bid:
            self.oblige('mem', what + ': regions do not overlap',
                        Or(Eq(n, 0), d.off + n <= s.off, s.off + n <= d.off, Eq(d.off, s.off)))
        sb = self.blk(s.bid)
        db = self.blk(d.bid)
        if not sym(n) and n == 0:
            return
        if sb.kind == 'elems' or db.kind == 'elems':
            if sb.kind == 'elems' and db.kind == 'bytes' and db.content.uniform is not None:
                db = self.mut(d.bid)
                self.make_elems(db, sb.ty[1], 'zero' if db.content.uniform == 0 else 'junk', db.name)
            if db.kind == 'elems' and sb.kind == 'bytes' and sb.content.uniform is not None:
                sb = self.mut(s.bid)
                self.make_elems(sb, db.ty[1], 'zero' if sb.content.uniform == 0 else 'junk', sb.name)
            if sb.kind == 'cells' and db.kind == 'elems':
                m = simp(n)
                if not sym(m) and m == db.stride:
                    v = self.load_cells(sb, simp(s.off), db.ty[1])
                    nb = self.mut(d.bid)
                    self.store_elems(nb, d.off, db.ty[1], v)
                    return
            if sb.kind == 'elems' and db.kind == 'cells':
                m = simp(n)
                if not sym(m) and m == sb.stride:
                    v = self.load_elems(sb, s.off, sb.ty[1])
                    nb = self.mut(d.bid)
                    self.store_cells(nb, simp(d.off), sb.ty[1], v)
                    return
            if sb.kind != 'elems' or db.kind != 'elems' or sb.stride != db.stride:
                raise Unsupported('copy between differently shaped objects')
            st = sb.stride
            di = self.exact_div(d.off, st)
            si = self.exact_div(s.off, st)
            cnt = self.exact_div(n, st)
            if di is None or si is None or cnt is None:
                raise Unsupported('copy not aligned to elements')
            nb = self.mut(d.bid)
            for fo in nb.fields:
                fty, old = nb.fields[fo]
                src = sb.fields[fo][1]
                if src.pget is not None:
                    raise Unsupported('copy from a constant table')
                self.log('field', nb.bid, fo)
                nb.fields[fo] = (fty, c_region(old, di, cnt, lambda j, src=src: src(Add(j, si)),
                                               None if src.defined is None else (lambda j, src=src: src.defined(Add(j, si)))))
            return
        if db.kind == 'bytes':
            src = self.region(s)
            nb = self.mut(d.bid)
            old = db.content
            off = d.off
            self.log('content', nb.bid)
            sdef = None
            if sb.kind == 'bytes' and sb.content.defined is not None:
                sc, so = sb.content, s.off
                sdef = lambda j: sc.defined(Add(so, j))
            nb.content = c_region(old, off, n, src, sdef)
            if sb.kind == 'bytes':
                nb.nul = tuple(nb.nul)[-6:] + tuple(simp(Add(Sub(w, s.off), d.off)) for w in tuple(sb.nul)[-3:])
            return
        # destination is a cells object
        if sym(n):
            raise Unsupported('symbolic-size copy into a struct')
        off = simp(d.off)
        if sym(off):
            raise Unsupported('symbolic offset into a struct (copy)')
        nb = self.mut(d.bid)
        if sb.kind == 'cells':
            so = simp(s.off)
            for o in list(nb.cells):
                if off <= o < off + n:
                    if (o - off + so) in sb.cells:
                        self.log('cell', nb.bid, o)
                        nb.cells[o] = (nb.cells[o][0], self.retype(sb.cells[o - off + so][1], nb.cells[o][0]))
                    else:
                        raise Unsupported('copy between mismatched structs')
            return
        for o in list(nb.cells):
            ty = nb.cells[o][0]
            sz = self.prog.sizeof(ty)
            if o >= off + n or o + sz <= off:
                continue
            if o < off or o + sz > off + n:
                raise Unsupported('partial copy into a scalar')
            self.log('cell', nb.bid, o)
            nb.cells[o] = (ty, self.load_bytes(sb, Add(s.off, o - off), ty))

    def fill(self, d, val, n, what='fill'):
        n = simp(n)
        d = self.check_ptr(d, n, what, write=True)
        if not sym(n) and n == 0:
            return
        b = self.mut(d.bid)
        if b.kind == 'bytes':
            old = b.content
            off = d.off
            self.log('content', b.bid)
            v = Mod(val, 256)
            b.content = c_region(old, off, n, lambda j: v)
            if not sym(v) and v == 0:
                b.nul = tuple(b.nul)[-6:] + (off,)
            return
        val = simp(val)
        if not sym(val) and val == 0 and b.kind == 'cells' and not sym(n) and not sym(simp(d.off)):
            o0 = simp(d.off)
            for o in list(b.cells):
                ty = b.cells[o][0]
                if o0 <= o and o + self.prog.sizeof(ty) <= o0 + n:
                    self.log('cell', b.bid, o)
                    b.cells[o] = (ty, self.zero_of(ty))
            return
        raise Unsupported('memset on a record array')

    # heap ------------------------------------------------------------
    def heap_alloc(self, size, zero, owner=None, name='heap'):
        size = simp(size)
        b = self.new_block('bytes', size, name, heap=True, owner=owner)
        b.content = Content(lambda k: 0, uniform=0) if zero else self.junk()
        self.log('alloc', b.bid)
        return P(b.bid, 0)

    def heap_check(self, p, owner, what):
        p = self.resolve(p)
        if p.bid is None:
            raise Unsupported(what + ' of a pointer of unknown provenance')
        b = self.blk(p.bid)
        if not b.heap:
            self.oblige('own', what + ' of memory that is not heap-allocated (%s)' % b.name, False)
        if not b.alive:
            self.oblige('own', what + ' of memory already freed (%s)' % b.name, False)
        self.oblige('own', what + ': pointer is the start of the allocation', Eq(p.off, 0))
        if b.owner != owner:
            self.oblige('own', what + ' through the wrong allocator (%s)' % b.name, False)
        return p

    def heap_free(self, p, owner=None, what='free'):
        p = self.resolve(p)
        if p.bid is None and p.addr is not None and self.st.ghost.get('opaque_free'):
            return self.st.ghost['opaque_free'](self, p)
        p = self.heap_check(p, owner, what)
        b = self.mut(p.bid)
        b.alive = False
        self.log('free', p.bid)

    def heap_realloc(self, p, size, owner=None, what='realloc'):
        size = simp(size)
        p = self.heap_check(p, owner, what)
        ob = self.blk(p.bid)
        nb = self.new_block(ob.kind, size, ob.name, heap=True, owner=owner)
        nb.stride, nb.ty, nb.nul = ob.stride, ob.ty, ob.nul
        if ob.kind == 'cells':
            raise Unsupported('realloc of a struct')
        if ob.kind == 'bytes':
            c = ob.content
            nb.content = c_clip(c, ob.size, self.junk())
            nb.content.uniform = c.uniform if c.uniform == 'junk' else None
        else:
            nb.fields = {}
            cnt = self.exact_div(ob.size, ob.stride)
            if cnt is None:
                cnt = Div(ob.size, ob.stride)
            for fo, (ty, c) in ob.fields.items():
                j = self.elem_content(ty, 'junk', 'junk')
                nb.fields[fo] = (ty, c_clip(c, cnt, j))
        o2 = self.mut(p.bid)
        o2.alive = False
        self.log('free', p.bid)
        self.log('alloc', nb.bid)
        return P(nb.bid, 0)

    # ------------------------------------------------------------ values
    def truth(self, v):
        if isinstance(v, B):
            return v.b
        if isinstance(v, I):
            return Ne(v.t, 0)
        if isinstance(v, P):
            if v.isnull:
                return False
            if v.bid is not None or v.fn is not None:
                return True
            return Ne(v.addr, 0)
        if isinstance(v, F):
            return z3.Not(z3.fpIsZero(v.t))
        raise Unsupported('truth value')

    def int_of(self, v):
        if isinstance(v, B):
            return B2I(v.b)
        if isinstance(v, I):
            return v.t
        raise Unsupported('integer value expected')

    def ptr_eq(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a.fn or b.fn:
            return a.fn == b.fn if (a.fn and b.fn) else False
        if a.bid is not None and b.bid is not None:
            if a.bid == b.bid:
                return Eq(a.off, b.off)
            return False
        if a.isnull and b.isnull:
            return True
        if a.isnull or b.isnull:
            o = b if a.isnull else a
            if o.bid is not None:
                return False
            return Eq(o.addr, 0)
        return Eq(self.addr(a), self.addr(b))

    def arith(self, op, a, b, ty):
        """integer arithmetic on terms in type ty"""
        if op == '+':
            r = Add(a, b)
        elif op == '-':
            r = Sub(a, b)
        elif op == '*':
            r = Mul(a, b)
        elif op in ('/', '%'):
            self.oblige('arith', 'division by zero', Ne(b, 0))
            if ty[2]:
                lo, _ = int_bounds(ty)
                if not (not sym(b) and b != -1):
                    self.oblige('arith', 'signed division overflow', Not(And(Eq(a, lo), Eq(b, -1))))
            if not sym(a) and not sym(b):
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == '/' else a - q * b
            if not ty[2]:
                return simp(Div(a, b)) if op == '/' else simp(Mod(a, b))
            za, zb = zint(a), zint(b)
            absa, absb = If(za >= 0, za, -za), If(zb >= 0, zb, -zb)
            if op == '/':
                q = zint(absa) / zint(absb)
                return simp(If(Iff(za >= 0, zb >= 0) if sym(zb >= 0) else za >= 0, q, -q))
            m = zint(absa) % zint(absb)
            return simp(If(za >= 0, m, -m))
        elif op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(op, a, b, ty)
        else:
            raise Unsupported('operator ' + op)
        r = simp(r)
        return self.fit(r, ty, op)

    def fit(self, r, ty, op):
        lo, hi = int_bounds(ty)
        if not sym(r):
            if lo <= r <= hi:
                return r
            if ty[2]:
                self.oblige('arith', 'signed overflow in %s' % op, False)
            return (r - lo) % (hi - lo + 1) + lo
        l, h = self.bounds(r)
        if l is not None and h is not None and l >= lo and h <= hi:
            return r
        if ty[2]:
            self.oblige('arith', 'no signed overflow in %s' % op, And(r >= lo, r <= hi))
            return r
        if self.optimistic:
            return r
        if self.valid(And(r >= lo, r <= hi)):
            return r
        return simp(r % (hi + 1))

    def bitop(self, op, a, b, ty):
        lo, hi = int_bounds(ty)
        if not sym(a) and not sym(b):
            r = {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b,
                 '>>': lambda: a >> b}[op]()
            return (r - lo) % (hi - lo + 1) + lo
        if op == '>>' and not sym(b):
            return simp(Div(a, 1 << b))
        if op == '<<' and not sym(b):
            return self.fit(simp(Mul(a, 1 << b)), ty, '<<')
        if op == '&' and not sym(b) and b >= 0:
            if b & (b + 1) == 0:
                return simp(Mod(a, b + 1))
            # runs of ones
            runs, rest, s = [], b, 0
            while rest:
                z = (rest & -rest).bit_length() - 1
                rest >>= z
                s += z
                o = ((rest + 1) & -(rest + 1)).bit_length() - 1
                runs.append((s, o))
                rest >>= o
                s += o
            if len(runs) <= 4:
                r = 0
                for s, o in runs:
                    q = Div(a, 1 << s)
                    if not (s + o == ty[1] and not ty[2]):
                        q = Mod(q, 1 << o)
                    r = Add(r, Mul(q, 1 << s))
                return simp(r)
        if not sym(a) and op in '&|^':
            return self.bitop(op, b, a, ty)
        if op in '|^' and not sym(b) and b >= 0 and not ty[2]:
            x = self.bitop('&', a, b, ty)
            return simp(Sub(Add(a, b), x if op == '|' else Mul(2, x)))
        for x, y, first in ((b, a, False), (a, b, True)):
            if sym(x):
                it = small_ite(x)
                if it is not None:
                    c = it.arg(0)
                    rs = []
                    for v in (it.arg(1), it.arg(2)):
                        w = simp(z3.substitute(x, (it, v)))
                        rs.append(self.bitop(op, w if first else y, y if first else w, ty))
                    return simp(If(c, rs[0], rs[1]))
        bits = ty[1]
        za, zb = z3.Int2BV(zint(a), bits), z3.Int2BV(zint(b), bits)
        r = {'&': za & zb, '|': za | zb, '^': za ^ zb}.get(op)
        if r is None:
            raise Unsupported('symbolic shift')
        return z3.BV2Int(r, ty[2])

    # ------------------------------------------------------------ expressions
    def ty(self, e):
        return self.prog.node_type(e)

    def frame(self):
        return self.st.frames[-1]

    def ev(self, e):
        if '_line' in e and e['_line']:
            self.line = e['_line']
        k = e['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(e)

    def ev_ParenExpr(self, e):
        return self.ev(e['inner'][0])

    def ev_ConstantExpr(self, e):
        return self.ev(e['inner'][0])

    def ev_IntegerLiteral(self, e):
        return I(int(e['value']), self.ty(e))

    def ev_CharacterLiteral(self, e):
        return I(int(e['value']), self.ty(e))

    def ev_FloatingLiteral(self, e):
        ty = self.ty(e)
        return F(z3.FPVal(float(e['value']), FP_SORT[ty[1]]), ty)

    def ev_ImplicitValueInitExpr(self, e):
        ty = self.ty(e)
        if ty[0] == 'struct':
            return self.zero_struct(ty)
        if ty[0] == 'array':
            raise Unsupported('array value')
        return self.zero_of(ty)

    def ev_StmtExpr(self, e):
        body = e['inner'][0]
        last = None
        for s in body.get('inner', []):
            if s['kind'] in EXPRS:
                last = self.ev(s)
            else:
                self.ex(s)
                last = None
        return last

    def ev_UnaryExprOrTypeTraitExpr(self, e):
        nm = e.get('name')
        if 'argType' in e:
            t = e['argType']
            try:
                ty = self.prog.parse_type(t.get('desugaredQualType') or t['qualType'])
            except Unsupported:
                ty = self.prog.parse_type(t['qualType'])
        else:
            ty = self.ty(e['inner'][0])
        if nm == 'sizeof':
            return I(self.prog.sizeof(ty), ULONG)
        return I(self.prog.alignof(ty), ULONG)

    def ev_PredefinedExpr(self, e):
        return self.load_lv(self.lv(e), self.ty(e))

    def ev_DeclRefExpr(self, e):
        d = e['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return I(self.prog.enums[d['name']], INT)
        if d['kind'] == 'FunctionDecl':
            return P(fn=d['name'])
        return self.load_lv(self.lv(e), self.ty(e))

    def ev_MemberExpr(self, e):
        return self.load_lv(self.lv(e), self.ty(e))

    def ev_ArraySubscriptExpr(self, e):
        return self.load_lv(self.lv(e), self.ty(e))

    def ev_CompoundLiteralExpr(self, e):
        return self.ev_init(e['inner'][0], self.ty(e))

    def ev_InitListExpr(self, e):
        return self.ev_init(e, self.ty(e))

    def ev_init(self, e, ty):
        """initialiser -> value (S for structs)"""
        if e['kind'] != 'InitListExpr':
            return self.ev(e)
        if ty[0] == 'struct':
            rec = self.prog.records[ty[1]]
            out = {o: self.zero_of(t) for (o, t) in self.prog.leaves(ty)}
            inner = e.get('inner', [])
            if rec['union']:
                fld = e.get('field')
                for c in inner:
                    f = None
                    if fld:
                        f = [x for x in rec['fields'] if x[3].split('#')[-1] == fld['id'].split('#')[-1] or x[0] == fld.get('name')]
                    f = f[0] if f else rec['fields'][0]
                    v = self.ev_init(c, f[2])
                    self._put(out, f[1], f[2], v)
                return S(out, ty)
            for f, c in zip(rec['fields'], inner):
                if c['kind'] == 'ImplicitValueInitExpr':
                    continue
                v = self.ev_init(c, f[2])
                self._put(out, f[1], f[2], v)
            return S(out, ty)
        if ty[0] == 'array':
            return ('arrinit', e, ty)
        inner = e.get('inner', [])
        return self.ev(inner[0]) if inner else self.zero_of(ty)

    def _put(self, out, off, ty, v):
        if isinstance(v, S):
            for o, x in v.cells.items():
                out[off + o] = x
        elif isinstance(v, tuple):
            raise Unsupported('array inside struct initialiser')
        else:
            out[off] = v

    # casts
    def ev_ImplicitCastExpr(self, e):
        return self.cast(e)

    def ev_CStyleCastExpr(self, e):
        return self.cast(e)

    def cast(self, e):
        ck = e['castKind']
        x = e['inner'][0]
        if ck == 'LValueToRValue':
            return self.load_lv(self.lv(x), self.ty(e))
        if ck == 'ArrayToPointerDecay':
            lv = self.lv(x)
            return lv[1]
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(x)
        if ck == 'NullToPointer':
            self.ev(x)
            return NULL
        if ck == 'ToVoid':
            self.ev(x)
            return None
        v = self.ev(x)
        return self.do_cast(ck, v, self.ty(e), self.ty(x))

    def do_cast(self, ck, v, ty, src):
        if ck in ('NoOp', 'BitCast', 'LValueBitCast'):
            return v
        if ck == 'IntegralCast' or ck == 'BooleanToSignedIntegral':
            if isinstance(v, B):
                return B(v.b, ty)
            return I(self.conv(v.t, ty), ty)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return B(self.truth(v), ty)
        if ck == 'IntegralToFloating':
            return self.int_to_float(v, ty)
        if ck == 'FloatingCast':
            if src[1] == ty[1]:
                return F(v.t, ty)
            return F(z3.fpFPToFP(RNE, v.t, FP_SORT[ty[1]]), ty)
        if ck == 'FloatingToIntegral':
            return self.float_to_int(v, ty)
        if ck == 'PointerToIntegral':
            return I(self.addr(v), ty)
        if ck == 'IntegralToPointer':
            t = self.int_of(v)
            return P(addr=t) if sym(t) or t != 0 else NULL
        raise Unsupported('cast ' + ck)

    def int_to_float(self, v, ty):
        t = self.int_of(v)
        if not sym(t):
            return F(z3.FPVal(t, FP_SORT[ty[1]]), ty)
        if z3.is_app(t) and t.decl().name().startswith('BV2Int'):
            pass
        f = z3.Function('i2f%d' % ty[1], z3.IntSort(), FP_SORT[ty[1]])
        return F(f(t), ty)

    def float_to_int(self, v, ty):
        f = z3.Function('f2i_%d_%d%s' % (v.ty[1], ty[1], 's' if ty[2] else 'u'), FP_SORT[v.ty[1]], z3.IntSort())
        t = f(v.t)
        lo, hi = int_bounds(ty)
        self.st.pc.append(z3.And(t >= lo, t <= hi))
        return I(t, ty)

    # lvalues
    def lv(self, e):
        if '_line' in e and e['_line']:
            self.line = e['_line']
        k = e['kind']
        if k == 'ParenExpr':
            return self.lv(e['inner'][0])
        if k == 'DeclRefExpr':
            d = e['referencedDecl']
            return self.var_lv(d['id'], d.get('name'), e)
        if k == 'MemberExpr':
            base = e['inner'][0]
            off, fty = self.prog.fieldoff[e['referencedMemberDecl']]
            if e.get('isArrow'):
                p = self.ev(base)
                if not isinstance(p, P):
                    raise Unsupported('-> on a non-pointer')
                bty = self.ty(base)
                q = self.resolve(p)
                if q.bid is not None and q.bid in self.st.mem and bty[0] == 'ptr' and bty[1][0] == 'struct' and not sym(simp(q.off)):
                    qb = self.blk(q.bid)
                    if qb.kind == 'bytes' and qb.content.uniform is not None and simp(q.off) == 0:
                        self.shape(q, bty[1])
                return ('mem', self.member(p, off, e.get('name', '')), fty)
            l = self.lv(base)
            if l[0] == 'val':
                return ('val', S({o - off: v for o, v in l[1].cells.items()
                                  if off <= o < off + self.prog.sizeof(fty)}, fty), fty)
            return ('mem', l[1].plus(off), fty)
        if k == 'ArraySubscriptExpr':
            a, i = e['inner']
            p = self.ev(a)
            iv = self.ev(i)
            if isinstance(iv, P):
                p, iv = iv, p
            ety = self.ty(e)
            return ('mem', p.plus(Mul(self.int_of(iv), self.prog.sizeof(ety))), ety)
        if k == 'UnaryOperator' and e['opcode'] == '*':
            p = self.ev(e['inner'][0])
            if isinstance(p, P) and p.fn:
                return ('val', p, None)
            return ('mem', p, self.ty(e))
        if k == 'UnaryOperator' and e['opcode'] == '__extension__':
            return self.lv(e['inner'][0])
        if k == 'StringLiteral':
            s = _c_string(e['value'])
            return ('mem', self.literal(s + b'\0'), self.ty(e))
        if k == 'PredefinedExpr':
            sl = [c for c in e.get('inner', []) if c['kind'] == 'StringLiteral']
            return self.lv(sl[0]) if sl else ('mem', self.literal(b'?\0'), self.ty(e))
        if k == 'CompoundLiteralExpr':
            ty = self.ty(e)
            v = self.ev(e)
            b = self.alloc_type(ty, 'compound literal')
            self.init_block(b, ty, v)
            return ('mem', P(b.bid, 0), ty)
        if k in ('CallExpr', 'ConditionalOperator', 'StmtExpr', 'ImplicitCastExpr'):
            v = self.ev(e)
            return ('val', v, self.ty(e))
        raise Unsupported('lvalue ' + k)

    def member(self, p, off, name):
        if p.isnull:
            self.oblige('mem', 'null pointer dereference: ->' + name, False)
        return self.resolve(p).plus(off)

    def var_lv(self, did, name, e):
        fr = self.frame()
        if did in fr:
            v = fr[did]
            if isinstance(v, Ref):
                return ('mem', P(v.bid, 0), self.ty(e))
            return ('var', did, self.ty(e))
        # global or static
        bid = self.global_block(did, name)
        return ('mem', P(bid, 0), self.ty(e))

    def global_block(self, did, name):
        bid = 'g:' + (name or did)
        if bid in self.st.mem:
            return bid
        node = self.prog.gnames.get(name) or self.prog.globals.get(did)
        if node is None:
            raise Unsupported('unknown variable ' + str(name))
        ty = self.prog.node_type(node)
        const = 'const' in node['type']['qualType'].split('*')[-1] or (ty[0] == 'array' and 'const' in node['type']['qualType'])
        init = [c for c in node.get('inner', []) if c['kind'] in EXPRS]
        b = self.alloc_type(ty, name, 'zero', bid)
        b.initial = True
        if const and init:
            self.init_block(b, ty, self.ev_init(init[0], ty))
            b = self.mut(bid)
            b.const = True
        elif not const:
            b = self.mut(bid)
            ov = self.opts.get('globals', {}).get(name)
            if b.kind == 'cells':
                for o, (t, _v) in list(b.cells.items()):
                    b.cells[o] = (t, self.fresh_of(t, name))
            elif b.kind == 'bytes':
                b.content = self.fresh_content(name)
            else:
                for o, (t, _c) in list(b.fields.items()):
                    b.fields[o] = (t, self.elem_content(t, 'junk', name))
            if ov:
                ov(self, bid)
        return bid

    def init_block(self, b, ty, v):
        """initialise a just-created local/global block"""
        bid = b.bid
        saved_const = b.const
        if isinstance(v, tuple) and v[0] == 'arrinit':
            e = v[1]
            if b.kind == 'bytes':
                inner = e.get('inner', [])
                if len(inner) == 1 and inner[0]['kind'] == 'StringLiteral':
                    s = _c_string(inner[0]['value'])
                    nb = self.mut(bid)
                    nb.content = const_content(s.ljust(simp(b.size), b'\0'))
                    nb.nul = (len(s),)
                    return
                vals = [self.ev(c) for c in inner if c['kind'] != 'ImplicitValueInitExpr']
                nb = self.mut(bid)
                nb.content = Content(lambda k: 0, uniform=0)
                nb.nul = (simp(b.size) - 1,) if not vals else ()
                for i, x in enumerate(vals):
                    if not vals:
                        break
                    t = self.int_of(x)
                    if not sym(t) and t == 0:
                        nb.nul = tuple(nb.nul) + (i,)
                        continue
                    self.store(P(bid, i), ty[1], x)
                return
            el = ty[1]
            inner = e.get('inner', e.get('array_filler', []))
            inner = [c for c in inner]
            vals = []
            for c in inner:
                if c['kind'] == 'ImplicitValueInitExpr':
                    continue
                vals.append(self.ev_init(c, el))
            nb = self.mut(bid)
            if el[0] == 'ptr':
                tab = list(vals)
                nb.fields[0] = (el, Content(lambda k: 0, pget=lambda i: tab[i] if 0 <= i < len(tab) else NULL))
                return
            for o, (t, _c) in list(nb.fields.items()):
                nb.fields[o] = (t, self.elem_content(t, 'zero', ''))
            if vals and el[0] in ('int', 'bool'):
                ts = [self.int_of(x) for x in vals]

                def get(k, ts=ts):
                    k = simp(k)
                    if not sym(k):
                        return ts[k] if 0 <= k < len(ts) else 0
                    r = 0
                    for i in range(len(ts) - 1, -1, -1):
                        r = If(Eq(k, i), ts[i], r)
                    return r
                nb.fields[0] = (el, Content(get))
                return
            if vals and el[0] == 'struct':
                for i, sv in enumerate(vals):
                    self.store(P(bid, i * nb.stride), el, sv)
                return
            if vals:
                for i, x in enumerate(vals):
                    self.store(P(bid, i * nb.stride), el, x)
            return
        if b.kind == 'bytes':
            # char buf[] = "..." comes as a StringLiteral lvalue
            raise Unsupported('array initialiser')
        nb = self.mut(bid)
        if isinstance(v, S):
            for o, x in v.cells.items():
                if o in nb.cells:
                    nb.cells[o] = (nb.cells[o][0], x)
        else:
            nb.cells[0] = (ty, self.retype(v, ty))

    def load_lv(self, l, ty):
        if l[0] == 'val':
            return l[1]
        if l[0] == 'var':
            v = self.frame()[l[1]]
            if v is UNINIT:
                self.oblige('mem', 'read of an uninitialised variable', False)
            return v
        lty = l[2] if l[2] is not None else ty
        return self.load(l[1], lty)

    def store_lv(self, l, ty, v):
        if l[0] == 'var':
            self.log('var', l[1])
            self.frame()[l[1]] = v
            return
        if l[0] == 'val':
            raise Unsupported('assignment to an rvalue')
        self.store(l[1], l[2], v)

    # operators
    def ev_UnaryOperator(self, e):
        op = e['opcode']
        x = e['inner'][0]
        ty = self.ty(e)
        if op == '&':
            l = self.lv(x)
            if l[0] == 'val' and isinstance(l[1], P) and l[1].fn:
                return l[1]
            if l[0] != 'mem':
                if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['kind'] == 'FunctionDecl':
                    return P(fn=x['referencedDecl']['name'])
                raise Unsupported('address of a register variable')
            return l[1]
        if op == '*':
            l = self.lv(e)
            return self.load_lv(l, ty)
        if op in ('++', '--'):
            l = self.lv(x)
            old = self.load_lv(l, ty)
            if isinstance(old, P):
                d = self.prog.sizeof(ty[1])
                new = old.plus(d if op == '++' else -d)
            elif isinstance(old, F):
                one = z3.FPVal(1.0, FP_SORT[ty[1]])
                new = F(z3.fpAdd(RNE, old.t, one) if op == '++' else z3.fpSub(RNE, old.t, one), ty)
            else:
                t = self.int_of(old)
                lo, hi = int_bounds(ty)
                if ty[0] == 'int' and ty[1] < 32:
                    r = self.conv(simp(Add(t, 1 if op == '++' else -1)), ty)
                elif ty[0] == 'bool':
                    raise Unsupported('++ on bool')
                else:
                    r = self.arith('+' if op == '++' else '-', t, 1, ty)
                new = I(r, ty)
            self.store_lv(l, ty, new)
            return old if e.get('isPostfix') else new
        if op == '!':
            v = self.ev(x)
            return B(Not(self.truth(v)), ty)
        v = self.ev(x)
        if op == '-':
            if isinstance(v, F):
                return F(z3.fpNeg(v.t), ty)
            return I(self.arith('-', 0, self.int_of(v), ty), ty)
        if op == '+' or op == '__extension__':
            return v
        if op == '~':
            t = self.int_of(v)
            lo, hi = int_bounds(ty)
            return I(simp(-1 - t) if ty[2] else simp(hi - t), ty)
        raise Unsupported('unary ' + op)

    def ev_BinaryOperator(self, e):
        op = e['opcode']
        a, b = e['inner']
        ty = self.ty(e)
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op == '=':
            l = self.lv(a)
            lty = self.ty(a)
            v = self.ev(b)
            # C: order of the two evaluations is unspecified; the l-value here has no effects
            self.store_lv(l, lty, v)
            return v
        if op == '&&' or op == '||':
            av = self.truth(self.ev(a))
            if self.pure(b):
                # no effects on the right: keep as one condition, but guard its obligations
                if isinstance(av, bool):
                    if op == '&&':
                        return B(self.truth(self.ev(b)), ty) if av else B(False, ty)
                    return B(True, ty) if av else B(self.truth(self.ev(b)), ty)
            d = self.branch(av)
            if op == '&&':
                if not d:
                    return B(False, ty)
                return B(self.truth(self.ev(b)), ty)
            if d:
                return B(True, ty)
            return B(self.truth(self.ev(b)), ty)
        x = self.ev(a)
        y = self.ev(b)
        return self.binop(op, x, y, ty, self.ty(a), self.ty(b))

    def pure(self, e):
        return True

    def binop(self, op, x, y, ty, ta, tb):
        if isinstance(x, P) or isinstance(y, P):
            return self.ptr_op(op, x, y, ty, ta, tb)
        if isinstance(x, F) or isinstance(y, F):
            return self.fp_op(op, x, y, ty)
        if op in ('==', '!=') and isinstance(x, B) and isinstance(y, B):
            r = Iff(x.b, y.b)
            return B(r if op == '==' else Not(r), ty)
        if op in ('==', '!=') and isinstance(x, B) and isinstance(y, I) and not sym(y.t) and y.t in (0, 1):
            r = x.b if y.t == 1 else Not(x.b)
            return B(r if op == '==' else Not(r), ty)
        s, t = self.int_of(x), self.int_of(y)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if op == '==':
                r = Eq(s, t)
            elif op == '!=':
                r = Ne(s, t)
            else:
                r = {'<': lambda: s < t, '>': lambda: s > t, '<=': lambda: s <= t, '>=': lambda: s >= t}[op]()
            return B(simp(r) if sym(r) else r, ty)
        return I(self.arith(op, s, t, ty), ty)

    def ptr_op(self, op, x, y, ty, ta, tb):
        if op in ('==', '!='):
            if not isinstance(x, P):
                x = self.do_cast('IntegralToPointer', x, None, None)
            if not isinstance(y, P):
                y = self.do_cast('IntegralToPointer', y, None, None)
            r = self.ptr_eq(x, y)
            return B(r if op == '==' else Not(r), ty)
        if op in ('+', '-') and not (isinstance(x, P) and isinstance(y, P)):
            p, i, pt = (x, y, ta) if isinstance(x, P) else (y, x, tb)
            d = Mul(self.int_of(i), self.prog.sizeof(pt[1]))
            if op == '-':
                d = -d
            if p.isnull and not self.valid(Eq(d, 0)):
                self.oblige('mem', 'arithmetic on a null pointer', Eq(d, 0))
            return p.plus(d)
        if not (isinstance(x, P) and isinstance(y, P)):
            raise Unsupported('pointer operator ' + op)
        x, y = self.resolve(x), self.resolve(y)
        if x.isnull or y.isnull:
            self.oblige('mem', 'null pointer used in pointer arithmetic/comparison', False)
        if x.bid is not None and x.bid == y.bid:
            if op == '-':
                d = self.exact_div(Sub(x.off, y.off), self.prog.sizeof(ta[1]))
                return I(d if d is not None else Div(Sub(x.off, y.off), self.prog.sizeof(ta[1])), ty)
            r = {'<': lambda: x.off < y.off, '>': lambda: x.off > y.off, '<=': lambda: x.off <= y.off,
                 '>=': lambda: x.off >= y.off}[op]()
            return B(r, ty)
        if op == '-' and x.bid is not None and y.bid is not None:
            self.oblige('mem', 'subtraction of pointers into different objects', False)
        raise Unsupported('pointer comparison across objects')

    def fp_op(self, op, x, y, ty):
        if not isinstance(x, F) or not isinstance(y, F):
            raise Unsupported('mixed float op')
        a, b = x.t, y.t
        if op in ('<', '>', '<=', '>=', '==', '!='):
            r = {'<': lambda: z3.fpLT(a, b), '>': lambda: z3.fpGT(a, b), '<=': lambda: z3.fpLEQ(a, b),
                 '>=': lambda: z3.fpGEQ(a, b), '==': lambda: z3.fpEQ(a, b), '!=': lambda: z3.Not(z3.fpEQ(a, b))}[op]()
            return B(simp(r), ty)
        r = {'+': lambda: z3.fpAdd(RNE, a, b), '-': lambda: z3.fpSub(RNE, a, b), '*': lambda: z3.fpMul(RNE, a, b),
             '/': lambda: z3.fpDiv(RNE, a, b)}[op]()
        return F(r, ty)

    def ev_CompoundAssignOperator(self, e):
        op = e['opcode'][:-1]
        a, b = e['inner']
        ty = self.ty(e)
        ct = e.get('computeLHSType')
        cty = self.prog.parse_type(ct.get('desugaredQualType') or ct['qualType']) if ct else ty
        l = self.lv(a)
        y = self.ev(b)
        x = self.load_lv(l, ty)
        if isinstance(x, P):
            v = self.ptr_op(op, x, y, ty, ty, self.ty(b))
        else:
            rt = e.get('computeResultType')
            rty = self.prog.parse_type(rt.get('desugaredQualType') or rt['qualType']) if rt else cty
            if isinstance(x, F) or isinstance(y, F):
                if isinstance(x, F) and x.ty != rty:
                    x = self.do_cast('FloatingCast', x, rty, x.ty)
                if isinstance(x, (I, B)):
                    x = self.int_to_float(x, rty)
                v = self.fp_op(op, x, y, rty)
                if ty[0] == 'float' and ty != rty:
                    v = self.do_cast('FloatingCast', v, ty, rty)
                elif ty[0] == 'int':
                    v = self.float_to_int(v, ty)
            else:
                xx = self.conv(self.int_of(x), cty)
                r = self.arith(op, xx, self.int_of(y), rty)
                v = I(self.conv(r, ty), ty) if ty[0] == 'int' else B(Ne(r, 0), ty)
        self.store_lv(l, ty, v)
        return v

    def ev_ConditionalOperator(self, e):
        c, a, b = e['inner']
        t = self.truth(self.ev(c))
        t = simp(t) if sym(t) else t
        if sym(t) and self.opts.get('merge') and self.ty(e)[0] == 'int' and arms_pure(a) and arms_pure(b):
            # both arms are plain arithmetic: one path with a conditional value
            out = []
            for g, x in ((t, a), (Not(t), b)):
                pc = list(self.st.pc)
                self.st.pc.append(g)
                out.append(self.int_of(self.ev(x)))
                self.st.pc[:] = pc
            return I(If(t, *out), self.ty(e))
        if self.branch(t):
            return self.ev(a)
        return self.ev(b)

    def ev_StringLiteral(self, e):
        return self.lv(e)[1]

    def ev_VAArgExpr(self, e):
        ty = self.ty(e)
        if ty[0] != 'ptr' or ty[1] != CHAR:
            raise Unsupported('va_arg')
        from .contract import fresh_cstr
        v = self.ev(e['inner'][0])
        p = self.resolve(v)
        st = self.st.ghost.get('va:%s' % p.bid)
        self.oblige('mem', 'va_arg reads a started argument list', st is not None and st[0] == 'fresh')
        return fresh_cstr(self, 'vararg')

    # calls
    def ev_CallExpr(self, e):
        f = e['inner'][0]
        args = e['inner'][1:]
        fv = self.ev(f)
        line = e.get('_line') or self.line
        vals = [self.ev(a) for a in args]
        self.line = line
        if not isinstance(fv, P):
            raise Unsupported('call through non-pointer')
        fv = self.resolve(fv)
        if fv.isnull:
            self.oblige('mem', 'call through a null function pointer', False)
        if fv.fn is None:
            h = self.st.ghost.get('callback')
            if h:
                return h(self, fv, vals)
            raise Unsupported('call through an unknown function pointer')
        rty = self.ty(e)
        return self.call(fv.fn, vals, rty, [self.ty(a) for a in args])

    def call(self, name, vals, rty, atys=None):
        if name in self.models:
            self.assumed.add(name)
            return self.models[name](self, vals, rty)
        c = self.contracts.get(name) if name not in self.opts.get('inline', ()) else None
        if c is not None and not c.inline:
            self.used_contracts.add(name)
            return c.apply(self, vals, rty)
        node = self.prog.funcs.get(name)
        if node is None:
            raise Unsupported('call to %s (no body, no contract)' % name)
        if name in self.callstack or len(self.callstack) > 12:
            raise Unsupported('recursion through %s' % name)
        self.inlined.add(name)
        return self.inline(name, node, vals)

    def inline(self, name, node, vals):
        self.callstack.append(name)
        self.st.frames.append({})
        depth = len(self.st.frames)
        try:
            self.bind_params(node, vals)
            try:
                self.ex(self.prog.fn_body(node))
                r = None
            except ReturnEx as x:
                r = x.val
        finally:
            self.callstack.pop()
        self.leave_frame()
        return r

    def leave_frame(self):
        fr = self.st.frames.pop()
        for v in fr.values():
            if isinstance(v, Ref) and v.bid in self.st.mem and not str(v.bid).startswith('g:'):
                b = self.mut(v.bid)
                b.alive = False

    def bind_params(self, node, vals):
        taken = self.addr_taken(node)
        ps = self.prog.fn_params(node)
        for p, v in zip(ps, vals):
            ty = self.prog.node_type(p)
            if p['id'] in taken or ty[0] == 'struct':
                b = self.alloc_type(ty, p.get('name', 'arg'))
                self.init_block(b, ty, v)
                self.frame()[p['id']] = Ref(b.bid)
            else:
                self.frame()[p['id']] = v

    _taken = {}

    def addr_taken(self, node):
        k = node['id']
        if k in self._taken:
            return self._taken[k]
        out = set()
        stack = [node]
        while stack:
            n = stack.pop()
            if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
                x = n['inner'][0]
                while x['kind'] in ('ParenExpr', 'MemberExpr', 'ArraySubscriptExpr', 'ImplicitCastExpr'):
                    x = x['inner'][0]
                if x['kind'] == 'DeclRefExpr':
                    out.add(x['referencedDecl']['id'])
            stack.extend(n.get('inner', []))
        self._taken[k] = out
        return out

    # ------------------------------------------------------------ statements
    def ex(self, s):
        k = s['kind']
        if '_line' in s and s['_line']:
            self.line = s['_line']
        m = getattr(self, 'ex_' + k, None)
        if m is not None:
            return m(s)
        if k in EXPRS:
            self.ev(s)
            return
        raise Unsupported('statement ' + k)

    def ex_CompoundStmt(self, s):
        inner = s.get('inner', [])
        i = 0
        jumping = None
        while i < len(inner):
            try:
                if jumping is not None:
                    t = inner[i]
                    if not _has_label(t, jumping):
                        i += 1
                        continue
                    if t['kind'] != 'LabelStmt':
                        raise Unsupported('goto into a block')
                    jumping = None
                self.ex(inner[i])
                i += 1
            except GotoEx as g:
                tgt = None
                for j, t in enumerate(inner):
                    if t['kind'] == 'LabelStmt' and t.get('declId') == g.label:
                        tgt = j
                if tgt is None:
                    raise
                if tgt <= i:
                    raise Unsupported('backward goto')
                i = tgt

    def ex_LabelStmt(self, s):
        for c in s.get('inner', []):
            self.ex(c)

    def ex_GotoStmt(self, s):
        raise GotoEx(s.get('targetLabelDeclId'))

    def ex_NullStmt(self, s):
        pass

    def ex_AttributedStmt(self, s):
        self.ex(s['inner'][-1])

    def ex_DeclStmt(self, s):
        for d in s.get('inner', []):
            if d['kind'] == 'VarDecl':
                self.decl(d)
            elif d['kind'] in ('RecordDecl',):
                self.prog._record(d, d.get('name') or ('@' + d['id']))
                self._lastrec = d.get('name') or ('@' + d['id'])
            elif d['kind'] in ('EnumDecl',):
                self.prog._enum(d)
            elif d['kind'] in ('TypedefDecl', 'StaticAssertDecl', 'EmptyDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d['kind'])

    def decl(self, d):
        q = d['type']['qualType']
        if 'unnamed' in q or 'anonymous' in q:
            ty = ('struct', self._lastrec)
        else:
            ty = self.prog.node_type(d)
        if d.get('storageClass') == 'static':
            # static local: behaves like a file-scope variable
            name = 'static:' + d.get('name', '') + ':' + d['id']
            self.prog.gnames[name] = d
            bid = self.global_block(d['id'], name)
            self.frame()[d['id']] = Ref(bid)
            return
        init = [c for c in d.get('inner', []) if c['kind'] in EXPRS]
        taken = self.cur_taken()
        self.log('decl', d['id'])
        if ty[0] in ('array', 'struct') or d['id'] in taken:
            b = self.alloc_type(ty, d.get('name', 'local'))
            if init:
                x = init[0]
                if ty[0] == 'array' and x['kind'] == 'StringLiteral':
                    s_ = _c_string(x['value'])
                    nb = self.mut(b.bid)
                    nb.content = const_content(s_.ljust(simp(b.size), b'\0'))
                    nb.nul = (len(s_),)
                else:
                    v = self.ev_init(x, ty)
                    self.init_block(b, ty, v)
            self.frame()[d['id']] = Ref(b.bid)
            return
        if init:
            v = self.ev_init(init[0], ty)
            self.frame()[d['id']] = v
        else:
            self.frame()[d['id']] = UNINIT

    def cur_taken(self):
        name = self.callstack[-1] if self.callstack else self.fname
        return self.addr_taken(self.prog.funcs[name])

    def ex_ReturnStmt(self, s):
        inner = s.get('inner', [])
        v = self.ev(inner[0]) if inner else None
        raise ReturnEx(v)

    def ex_IfStmt(self, s):
        inner = s['inner']
        c = inner[0]
        if self.branch(self.truth(self.ev(c))):
            self.ex(inner[1])
        elif len(inner) > 2:
            self.ex(inner[2])

    def ex_BreakStmt(self, s):
        raise BreakEx()

    def ex_ContinueStmt(self, s):
        raise ContinueEx()

    def ex_SwitchStmt(self, s):
        inner = s['inner']
        v = self.int_of(self.ev(inner[0]))
        body = inner[1]
        stmts = body.get('inner', [])
        # flatten: list of (labels, stmt)
        flat = []

        def walk(t, labels):
            if t['kind'] == 'CaseStmt':
                cv = t['inner'][0]
                val = int(cv['value']) if 'value' in cv else self.int_of(self.ev(cv))
                walk(t['inner'][-1], labels + [val])
            elif t['kind'] == 'DefaultStmt':
                walk(t['inner'][-1], labels + ['default'])
            else:
                flat.append((labels, t))
        for t in stmts:
            walk(t, [])
        target = None
        dflt = None
        for i, (ls, _t) in enumerate(flat):
            for l in ls:
                if l == 'default':
                    dflt = i
                elif target is None and self.branch(Eq(v, l)):
                    target = i
            if target is not None:
                break
        if target is None:
            target = dflt
            if target is None:
                # the default may come before a later case; already covered above
                return
        try:
            for (ls, t) in flat[target:]:
                self.ex(t)
        except BreakEx:
            pass

    # loops
    def ex_ForStmt(self, s):
        init, _cv, cond, inc, body = (s['inner'] + [{}] * 5)[:5]
        if init.get('kind'):
            self.ex(init)
        self.loop(s, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body, False)

    def ex_WhileStmt(self, s):
        inner = s['inner']
        self.loop(s, inner[0], None, inner[-1], False)

    def ex_DoStmt(self, s):
        body, cond = s['inner']
        self.loop(s, cond, None, body, True)

    def loop(self, s, cond, inc, body, is_do):
        from . import loops
        loops.run_loop(self, s, cond, inc, body, is_do)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        if not z3.is_quantifier(x):
            st.extend(x.children())


def _has_label(t, label):
    if t['kind'] == 'LabelStmt' and t.get('declId') == label:
        return True
    return any(_has_label(c, label) for c in t.get('inner', []) if isinstance(c, dict) and 'kind' in c)


EXPRS = {'IntegerLiteral', 'CharacterLiteral', 'StringLiteral', 'FloatingLiteral', 'DeclRefExpr', 'ImplicitCastExpr',
         'CStyleCastExpr', 'UnaryOperator', 'BinaryOperator', 'CompoundAssignOperator', 'ConditionalOperator',
         'ParenExpr', 'CallExpr', 'MemberExpr', 'ArraySubscriptExpr', 'UnaryExprOrTypeTraitExpr',
         'CompoundLiteralExpr', 'InitListExpr', 'ImplicitValueInitExpr', 'StmtExpr', 'ConstantExpr', 'VAArgExpr',
         'PredefinedExpr'}


def _c_string(v):
    """clang prints the literal with quotes and C escapes"""
    if v.startswith('L') or v.startswith('u'):
        raise Unsupported('wide string')
    s = v[1:-1]
    out = bytearray()
    i = 0
    simple = {'n': 10, 't': 9, 'r': 13, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '?': 63}
    while i < len(s):
        c = s[i]
        if c != '\\':
            out += c.encode('utf-8')
            i += 1
            continue
        i += 1
        c = s[i]
        if c in simple:
            out.append(simple[c])
            i += 1
        elif c == 'x':
            j = i + 1
            while j < len(s) and s[j] in '0123456789abcdefABCDEF':
                j += 1
            out.append(int(s[i + 1:j], 16) & 255)
            i = j
        elif c in '01234567':
            j = i
            while j < len(s) and j < i + 3 and s[j] in '01234567':
                j += 1
            out.append(int(s[i:j], 8) & 255)
            i = j
        else:
            out.append(ord(c))
            i += 1
    return bytes(out)
