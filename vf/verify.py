"""Verify one function of the real code against its contract, path by path."""
import time, sys
from .tm import *
from .mem import *
from .cast import Unsupported, VOID
from .ex import Engine, ExitEx, ReturnEx, PathEnd, Infeasible, Budget, Ref, UNINIT
from .contract import Ctx, StopSpec, AV, Arr
from . import models, timemodel, world, fs, contract, solver

sys.setrecursionlimit(20000)


class FnResult:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.status = None          # 'proved' | 'failed' | 'undecided'
        self.reason = ''
        self.paths = 0
        self.returns = 0
        self.exits = 0
        self.secs = 0.0
        self.used = set()
        self.assumed = set()
        self.inlined = set()
        self.loops = []
        self.cov = None

    def counts(self):
        d = {}
        for o in self.obls:
            d[o.status] = d.get(o.status, 0) + 1
        return d


def start_run(eng, prefix):
    eng.prefix = prefix
    eng.trace = []
    eng.qn = 0
    eng.n = 0
    eng.st = State()
    eng.callstack = []
    eng.quiet = 0
    eng.sub = ()
    eng.approx = 0
    eng.loopstack = []
    from .mem import _ver
    _ver[0] = 0


def pre_state(eng, con):
    """argument set-up and preconditions; returns the C values"""
    ctx = Ctx(eng, 'pre', con)
    vals = [None] * len(con.kinds)
    ctx.args = [None] * len(con.kinds)
    for first in (True, False):
        for i, k in enumerate(con.kinds):
            if isinstance(k, contract.Int) == first:
                vals[i] = k.setup(ctx, i)
                ctx.args[i] = k.view(ctx, vals[i])
    try:
        con.body(ctx, *ctx.args)
        raise Unsupported('contract of %s has no start()' % con.name)
    except StopSpec:
        pass
    return vals, ctx


def run_spec(eng, con, vals, s0, act, outcome, ret, rty, oom=False):
    pc = act.pc
    eng.st = s0.copy()
    eng.st.pc = pc
    for k, v in act.ghost.items():
        if k in ('same_seen', 'qf', 'idx', 'approx') or (isinstance(k, str) and k.startswith('strlen:')) or (isinstance(k, tuple) and k[0] == 'memo'):
            eng.st.ghost[k] = v
    ctx = Ctx(eng, 'check', con)
    ctx.rty = rty
    ctx.act = act
    ctx.act_ret = ret
    ctx.outcome = outcome
    for k, v in zip(con.kinds, vals):
        ctx.args.append(k.view(ctx, v))
    if eng.concrete_mode:
        ctx.extra = [k.view(ctx, v) for k, v in zip(con.va, vals[len(con.kinds):])]
    try:
        r = con.body(ctx, *ctx.args)
    except StopSpec:
        return ctx, None, True
    except ExitEx:
        raise Unsupported('contract %s exits after start' % con.name)
    return ctx, r, False


def check_post(eng, con, ctx, ret_spec, act, entry):
    spec = eng.st
    ctx.compare(spec, act, ret_spec, entry)
    if ctx.ending:
        return
    # representation invariants hold in the state the code left behind
    pc = eng.st.pc
    eng.st = act
    eng.st.pc = pc
    ctx.mode = 'inv'
    todo = []
    for k, v in zip(con.kinds, ctx.args):
        if isinstance(k, Arr) and not v.null and not k.noinv:
            b = act.mem[v.p.bid]
            if b.alive:
                todo.append((k, v.p))
    r = ctx.act_ret
    rk = con.ret_kind
    if rk is not None and isinstance(r, P) and r.bid is not None:
        todo.append((rk, r))
    for k, p in todo:
        v = AV(ctx, p, elems=k.shape == 'plist', tail=1 if k.shape == 'str' else 0)
        isv = simp(v.is_view)
        if isinstance(isv, bool) and isv:
            continue
        k.check_valid(ctx, v, 'inv', 'representation: ')


def run_path(eng, con, node):
    vals, ctx0 = pre_state(eng, con)
    s0 = eng.st.copy()
    entry = set(s0.mem)
    eng.entry = entry
    eng.s0 = s0
    eng.pre_ctx = ctx0
    eng.argvals = vals
    if eng.want_cover:
        # vacuity guard: the precondition admits this kind of input
        r = solver.check_unsat([zbool(x) for x in eng.st.pc], 3000)
        eng.covers['pre'] = eng.covers.get('pre', False) or r.status != 'proved'
    rty = eng.prog.fn_ret(node)
    eng.rty = rty
    eng.st.frames.append({})
    eng.callstack.append(con.name)
    try:
        eng.bind_params(node, vals)
        try:
            eng.ex(eng.prog.fn_body(node))
            if rty != VOID:
                eng.oblige('post', 'control reaches the end of a non-void function', False)
            ret = None
        except ReturnEx as x:
            ret = x.val
        outcome = 'return'
    except ExitEx as x:
        outcome = 'exit'
        if eng.st.ghost.get('oom') or x.oom:
            return 'oom'
        ret = None
    eng.callstack.pop()
    act = eng.st
    if outcome == 'return':
        eng.st = act
        eng.leave_frame()
        if eng.st.ghost.get('oom'):
            eng.oblige('exit', 'a failed allocation terminates the process', eng.opts.get('oom_ok', False))
    ctx, r, stop = run_spec(eng, con, vals, s0, act, outcome, ret, rty)
    if stop:
        return outcome
    check_post(eng, con, ctx, r, act, entry)
    return outcome


def verify_function(prog, con, budget=60, opts=None):
    res = FnResult(con.name)
    node = prog.funcs.get(con.name)
    t0 = time.time()
    if node is None:
        res.status, res.reason = 'undecided', 'function %s not found in the sources' % con.name
        return res
    o = dict(con.opts)
    o.update(opts or {})
    eng = Engine(prog, contract.REG, models.M, con.name, o)
    eng.con = con
    eng.deadline = t0 + max(o.get('budget', 0), budget)
    eng.hints = con.hints
    eng.work = [[]]
    reach = 0
    try:
        while eng.work:
            prefix = eng.work.pop()
            eng.npaths += 1
            eng.want_cover = eng.npaths <= 40 and not eng.covers.get('pre')
            start_run(eng, prefix)
            try:
                r = run_path(eng, con, node)
                if r == 'return':
                    res.returns += 1
                elif r == 'exit':
                    res.exits += 1
            except PathEnd:
                pass
            eng.check_time()
            nf = sum(1 for x in eng.obls if x.status == 'failed')
            if nf >= 6 or sum(1 for x in eng.obls if x.status == 'unknown') > 8:
                res.reason = 'stopped after %d failed obligations' % nf
                break
        complete = not eng.work
    except Unsupported as x:
        res.reason = 'outside the verifier\'s reach: %s (line %s)' % (x, eng.line)
        complete = False
    except Budget as x:
        res.reason = 'budget: %s' % x
        complete = False
    except RecursionError:
        res.reason = 'term too deep'
        complete = False
    res.obls = eng.obls
    res.paths = eng.npaths
    res.secs = time.time() - t0
    res.used = set(eng.used_contracts)
    res.assumed = set(eng.assumed)
    res.inlined = set(eng.inlined)
    res.covers = dict(eng.covers)
    res.loops = list(eng.looplog)
    res.argnames = eng.known_ids
    res.noterm = sorted(getattr(eng, 'noterm', set()))
    failed = [x for x in eng.obls if x.status == 'failed']
    unk = [x for x in eng.obls if x.status == 'unknown']
    if failed:
        res.status = 'failed'
    elif not complete or unk:
        res.status = 'undecided'
        if unk and not res.reason:
            res.reason = 'solver gave up on: %s (line %s)' % (unk[0].desc, unk[0].line)
    elif not eng.obls:
        res.status, res.reason = 'undecided', 'vacuous: no obligation generated'
    elif not eng.covers.get('pre'):
        res.status, res.reason = 'undecided', 'vacuous: precondition unsatisfiable'
    elif res.returns + res.exits + len(eng.looplog) == 0:
        res.status, res.reason = 'undecided', 'vacuous: no path completes'
    elif res.noterm and not o.get('noterm'):
        res.status, res.reason = 'undecided', 'no termination measure found for the loop at line %s' % res.noterm[0]
    else:
        res.status = 'proved'
    return res
