"""Discharging obligations: z3 (E-matching only, nonlinear products abstracted with
monotonicity lemmas), then z3 with its full nonlinear engine, then cvc5."""
import time, os
import z3
from .tm import *

STATS = dict(queries=0, time=0.0, z3=0, z3nl=0, cvc5=0, unknown=0)


def _collect_products(terms):
    """nonlinear monomials (as sorted tuples of atom asts) occurring in the terms"""
    seen = set()
    prods = {}
    stack = list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            continue
        if z3.is_mul(t):
            fs = [a for a in t.children() if not z3.is_int_value(a)]
            if len(fs) >= 2 and t.sort() == z3.IntSort():
                prods[i] = t
        stack.extend(t.children())
    return list(prods.values())


def _has_vars(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        st.extend(x.children())
    return False


_PREP = {}


class Prep:
    __slots__ = ('src', 'norm', 'false', 'prods')


def prep(f):
    """normal form and product terms of one fact (facts recur in most queries)"""
    i = f.get_id()
    p = _PREP.get(i)
    if p is None:
        if len(_PREP) > 60000:
            _PREP.clear()
        p = Prep()
        p.src = f
        p.norm = _norm(f)
        p.false = z3.is_false(p.norm)
        p.prods = [x for x in _collect_products([p.norm]) if not _has_vars(x)]
        _PREP[i] = p
    return p


def unique(fs):
    out, seen = [], set()
    for f in fs:
        f = zbool(f)
        if f.get_id() not in seen:
            seen.add(f.get_id())
            out.append(f)
    return out


def products(ps):
    out, seen = [], set()
    for p in ps:
        for x in p.prods:
            if x.get_id() not in seen:
                seen.add(x.get_id())
                out.append(x)
    return out


def lemmas(ps):
    """instances of: a<b & c>0 -> a*c+c <= b*c (and friends) for the products present"""
    bin_ = []
    for p in ps:
        fs = [a for a in p.children() if not z3.is_int_value(a)]
        if len(fs) == 2:
            bin_.append((p, fs[0], fs[1]))
    if len(bin_) > 14:
        bin_ = bin_[:14]
    out = []
    byf = {}
    for p, a, b in bin_:
        byf.setdefault(a.get_id(), []).append((b, a))
        byf.setdefault(b.get_id(), []).append((a, b))
        out.append(z3.Implies(z3.And(a >= 0, b >= 0), a * b >= 0))
        out.append(z3.Implies(z3.And(a >= 1, b >= 1), z3.And(a * b >= a, a * b >= b)))
        out.append(z3.Implies(z3.Or(a == 0, b == 0), a * b == 0))
    for k, lst in byf.items():
        for i in range(len(lst)):
            for j in range(len(lst)):
                if i == j:
                    continue
                x, c = lst[i]
                y, _ = lst[j]
                out.append(z3.Implies(z3.And(x < y, c >= 0), x * c + c <= y * c))
                if i < j:
                    out.append(z3.Implies(x == y, x * c == y * c))
    return out


def _abstract(ps):
    """replace nonlinear products by fresh constants (sound for unsat); ps: Preps"""
    prods = products(ps)
    if not prods:
        return [p.norm for p in ps], False
    # innermost first is not needed: after som, products have atomic factors
    subs = []
    tab = {}
    for p in prods:
        fs_ = tuple(sorted((a.get_id() for a in p.children() if not z3.is_int_value(a))))
        coef = 1
        for a in p.children():
            if z3.is_int_value(a):
                coef *= a.as_long()
        if fs_ not in tab:
            tab[fs_] = z3.Int('prod!%d' % len(tab))
        subs.append((p, tab[fs_] * coef if coef != 1 else tab[fs_]))
    return [z3.substitute(p.norm, *subs) if p.prods else p.norm for p in ps], True


def _norm(f):
    return z3.simplify(f, som=True, arith_lhs=False)


class Result:
    def __init__(self, status, model=None, backend=None, reason=''):
        self.status = status      # 'proved' | 'failed' | 'unknown'
        self.model = model
        self.backend = backend
        self.reason = reason


def _z3check(fs, timeout, mbqi=False, nl=True):
    s = z3.Solver()
    s.set('timeout', int(timeout))
    s.set('auto_config', False)
    s.set('smt.mbqi', mbqi)
    for f in fs:
        s.add(f)
    r = s.check()
    return r, s


def check_unsat(fs, timeout=4000, want_model=True, nla=True):
    """fs: list of z3 bools. proved <=> conjunction unsatisfiable."""
    t0 = time.time()
    STATS['queries'] += 1
    fs = unique(fs)
    for f in fs:
        if z3.is_false(f):
            return Result('proved', backend='trivial')
    ps = [prep(f) for f in fs]
    if any(p.false for p in ps):
        return Result('proved', backend='trivial')
    nf = [p.norm for p in ps]
    try:
        prods = products(ps)
        if prods:
            lp = [prep(l) for l in lemmas(prods)]
            lm = [p.norm for p in lp]
            af, _ = _abstract(ps + lp)
            r, s = _z3check(af, timeout)
            if r == z3.unsat:
                STATS['z3'] += 1
                return Result('proved', backend='z3')
            if not nla:
                return Result('failed' if r == z3.sat else 'unknown', None, 'z3')
            # full nonlinear
            r, s = _z3check(nf + lm, timeout)
            if r == z3.unsat:
                STATS['z3nl'] += 1
                return Result('proved', backend='z3-nla')
        else:
            r, s = _z3check(nf, timeout)
            if r == z3.unsat:
                STATS['z3'] += 1
                return Result('proved', backend='z3')
        m = None
        if want_model:
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        if r == z3.sat:
            return Result('failed', m, 'z3')
        STATS['unknown'] += 1
        return Result('unknown', m, 'z3', s.reason_unknown())
    finally:
        STATS['time'] += time.time() - t0


def entailed(facts, goals, timeout=1500):
    """indices of the goals entailed by the facts (nonlinear products abstracted)"""
    t0 = time.time()
    STATS['queries'] += 1
    try:
        ps = [prep(f) for f in unique(facts)]
        gp = [prep(zbool(g)) for g in goals]
        if any(p.false for p in ps):
            return list(range(len(goals)))
        lp = [prep(l) for l in lemmas(products(ps + gp))]
        allf, _ = _abstract(ps + lp + gp)
        k = len(ps) + len(lp)
        fs, gs = allf[:k], allf[k:]
        s = z3.Solver()
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.set('timeout', int(timeout))
        for f in fs:
            s.add(f)
        todo = [(i, g) for i, g in enumerate(gs)]
        out = []
        while todo:
            s.push()
            s.add(z3.Or(*[z3.Not(g) for _i, g in todo]))
            r = s.check()
            if r == z3.unsat:
                s.pop()
                out += [i for i, _g in todo]
                break
            m = None
            try:
                m = s.model()
            except z3.Z3Exception:
                pass
            s.pop()
            nt = todo
            if m is not None:
                nt = [(i, g) for i, g in todo if not z3.is_false(m.eval(g, model_completion=True))]
            if len(nt) < len(todo):
                todo = nt
                continue
            s.set('timeout', 400)
            for i, g in todo:
                s.push()
                s.add(z3.Not(g))
                if s.check() == z3.unsat:
                    out.append(i)
                s.pop()
            break
        return out
    finally:
        STATS['time'] += time.time() - t0


def check_cvc5(fs, timeout=5000):
    """second opinion on an undecided query"""
    try:
        import cvc5
    except ImportError:
        return Result('unknown')
    t0 = time.time()
    s = z3.Solver()
    for f in fs:
        s.add(zbool(f))
    txt = s.to_smt2()
    try:
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout)))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = 'unknown'
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if 'unsat' in str(o):
                res = 'proved'
        if res == 'proved':
            STATS['cvc5'] += 1
            return Result('proved', backend='cvc5')
    except Exception:
        pass
    finally:
        STATS['time'] += time.time() - t0
    return Result('unknown')
