#!/usr/bin/env python3-vt
"""check.py --property C01 [--tier quick|thorough] [--fn NAME]
Verifies every function the property depends on against its contract, from /repo's current source."""
import argparse, json, multiprocessing as mp, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import cast, contract, props, solver

PROG = None
DRV = None
CFG = {}
TRUSTED = [
    'the contract verifier in /verif/vf (symbolic execution of the clang AST, memory model, loop invariant inference is re-proved)',
    'clang 18 front end (AST of the code as compiled on x86-64 Linux)',
    'z3 5.3.2 and cvc5 1.4.2 (unsat answers)',
    'models of the C library functions in /verif/vf/models.py (C locale)',
    'user-supplied allocators and callbacks conform to their interface (callbacks do not modify the container)',
]
GENERAL = [
    'sizes and counts whose byte size overflows size_t are outside the contracts (stated as preconditions)',
    'objects are at most 2^47 bytes and do not wrap the address space',
    'a failed allocation terminates the process; no property is claimed on that path beyond termination',
    'arithmetic is machine arithmetic (wrapping for unsigned; signed overflow is an obligation)',
]


def overrides(obl):
    """solver models of a failed obligation, shrunk to sizes that can be materialised"""
    import z3
    outs = []
    if not obl.smt:
        return outs
    s = z3.Solver()
    s.set('timeout', 3000)
    for f in obl.smt:
        s.add(f)
    names = {}
    fns = {}
    seen = set()
    st = list(obl.smt)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and '!' not in d.name():
                if d.arity() == 0:
                    names[d.name()] = x
                else:
                    fns[d.name()] = d
            st.extend(x.children())
    sized = [x for n, x in names.items() if z3.is_int(x) and n.endswith(('_len', '_cap', '_es', '_size', '_objsize', '_off'))]
    ints = [x for n, x in names.items() if z3.is_int(x) and x not in sized] if len(names) < 40 else []
    t0 = time.time()
    for cap, icap in ((9, 9), (9, None), (70, 70), (70, None), (400, 400), (6000, 6000), (6000, None), (None, None)):
        if time.time() - t0 > 12:
            break
        extra = [x <= cap for x in sized] if cap else []
        if icap:
            extra += [z3.And(x <= icap, x >= -icap) for x in ints]
        s.push()
        for e in extra:
            s.add(e)
        try:
            r = s.check()
            m = s.model() if r != z3.unsat else None
        except z3.Z3Exception:
            m = None
        s.pop()
        if m is None:
            continue
        ov = {}
        for n, x in names.items():
            v = m.eval(x, model_completion=True)
            if z3.is_int_value(v):
                ov[n] = v.as_long()
            elif z3.is_true(v):
                ov[n] = True
            elif z3.is_false(v):
                ov[n] = False
        for n, d in fns.items():
            if d.arity() == 1:
                tab = {}
                for k in range(40):
                    v = m.eval(d(z3.IntVal(k)), model_completion=True)
                    if z3.is_int_value(v):
                        tab[k] = v.as_long()
                ov[n] = (lambda tab: lambda k: tab.get(k))(tab)
        outs.append(ov)
        break
    return outs


def work(name):
    from vf import verify, concrete
    con = contract.REG[name]
    t0 = time.time()
    d = dict(name=name, status='undecided', reason='', obligations=0, discharged=0, backends={}, solver_s=0.0, cats={}, failed=[],
             loops=[], used=[], assumed=[], inlined=[], paths=0, conc=0, conc_note='', distinct=0, samples=[], fail=None, covers={}, fails=[])
    try:
        solver.STATS['time'] = 0.0
        res = None
        overs = []
        if con.bounded is None:
            try:
                res = verify.verify_function(PROG, con, budget=CFG['budget'])
            except Exception as x:
                d['reason'] = 'internal: %r' % (x,)
                d['trace'] = traceback.format_exc()[-1500:]
        else:
            d['reason'] = con.bounded
        if res is not None:
            d['status'], d['reason'], d['paths'] = res.status, res.reason, res.paths
            d['solver_s'] = solver.STATS['time']
            for o in res.obls:
                d['obligations'] += 1
                cc = d['cats'].setdefault(o.cat, [0, 0])
                cc[0] += 1
                if o.status == 'proved':
                    d['discharged'] += 1
                    cc[1] += 1
                    d['backends'][o.backend] = d['backends'].get(o.backend, 0) + 1
                else:
                    overs += [(o.cat, ov) for ov in (overrides(o) if len(overs) < 6 else [])]
                    d['failed'].append(dict(cat=o.cat, what=o.desc, line=o.line, status=o.status, approx=o.approx,
                                            reason=o.reason, model=str(o.model)[:3000] if o.model is not None else ''))
            d['loops'], d['used'], d['assumed'], d['inlined'] = res.loops, sorted(res.used), sorted(res.assumed), sorted(res.inlined)
            d['covers'] = res.covers
        # concrete: cross-check of contract and code, search for a failing input
        if DRV is not None and name not in DRV.idx and con.through in DRV.idx and d['status'] != 'proved':
            # no run of its own (hidden state, or local to its file): run the function that shows its effect
            con, overs = contract.REG[con.through], []
        if DRV is not None and con.name in DRV.idx:
            n = CFG['conc_ok'] if d['status'] == 'proved' else CFG['conc_bad']
            try:
                k, bad, note = concrete.search(DRV, con, n, CFG['seed'], [ov for _c, ov in overs],
                                               budget=CFG['conc_time'] if d['status'] != 'proved' else 20, cats=CFG['cats'])
                d['conc'], d['conc_note'] = k, note
                d['distinct'], d['samples'] = concrete.search.stats['distinct'], concrete.search.stats['samples']
                if bad:
                    c, r, why = bad
                    d['fail'] = dict(cat=why[0], what=why[1], case=concrete.describe(c, r))
            except Exception as x:
                d['conc_note'] = 'replay error: %r' % (x,)
                d['trace'] = traceback.format_exc()[-1500:]
    except Exception as x:
        d['reason'] = 'internal: %r' % (x,)
        d['trace'] = traceback.format_exc()[-1500:]
    d['secs'] = round(time.time() - t0, 2)
    return d


def main():
    global PROG, DRV
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--fn', nargs='*')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    props.load()
    PROG = cast.load_program()
    from vf import concrete
    own, deps = props.functions(PROG, contract.REG, pid)
    names = a.fn or (own + deps)
    cats = props.PROPS[pid][1]
    th = tier == 'thorough'
    CFG.update(budget=180 if th else 60, seed=seed, conc_ok=1500 if th else 120, conc_bad=40000 if th else 12000,
               conc_time=300 if th else 90, cats=cats)
    note = ''
    try:
        DRV = concrete.Driver(PROG)
    except Exception as x:
        note = 'replay driver not built: %s' % (str(x)[-300:],)
        DRV = None
    tb = time.time()
    order = sorted(names, key=lambda n: -contract.REG[n].cost)
    with mp.get_context('fork').Pool(int(os.environ.get('VERIF_JOBS', '8')), maxtasksperchild=12) as pool:
        results = list(pool.imap_unordered(work, order))
    results.sort(key=lambda d: names.index(d['name']))
    known = load_known()
    viol = []
    bounded = []
    for d in results:
        f = d['fail']
        if f and (cats is None or f['cat'] in cats):
            if known_match(known, pid, d['name'], f):
                continue
            viol.append((d, f, True))
            continue
        bad = [o for o in d['failed'] if not o['approx'] and o['status'] == 'failed' and (cats is None or o['cat'] in cats)]
        if bad and d['status'] == 'failed':
            if known_match(known, pid, d['name'], dict(cat=bad[0]['cat'], what=bad[0]['what'])):
                continue
            viol.append((d, bad[0], False))
            continue
        if d['status'] != 'proved':
            bounded.append(d)
    nf = sum(1 for d in results if d['status'] == 'proved')
    ob, di = sum(d['obligations'] for d in results), sum(d['discharged'] for d in results)
    be = {}
    for d in results:
        for k, v in d['backends'].items():
            be[k] = be.get(k, 0) + v
    assumed = sorted({x for d in results for x in d['assumed']})
    ev = dict(property=pid, tier=tier, seed=seed, level='proof' if nf else 'other', wall_s=round(time.time() - t0, 2),
              violations=len(viol),
              assumptions=GENERAL + ['modelled, not verified: ' + x for x in assumed] + sorted({x for n in names for x in contract.REG[n].assumes}),
              coverage=dict(
                  obligations=ob, discharged=di,
                  checker_cmd='python3-vt check.py --property %s --tier %s' % (pid, tier),
                  trusted_base=TRUSTED,
                  backends=be, solver_seconds=round(sum(d['solver_s'] for d in results), 2),
                  functions_under_contract=len(results), functions_proved=nf,
                  functions_bounded_only=[dict(function=d['name'], why=d['reason'], concrete_runs=d['conc'],
                                               undischarged=[o['what'] for o in d['failed']][:4], note=d['conc_note']) for d in bounded],
                  concrete_cross_checks=sum(d['conc'] for d in results),
                  concrete_bound='random small memory images (container lengths 0..9 and a few large ones, see vf/concrete.py)',
                  functions=[dict(function=d['name'], status=d['status'], obligations=d['obligations'], discharged=d['discharged'],
                                  by_category=d['cats'], paths=d['paths'], callee_contracts=d['used'], inlined=d['inlined'], loops=d['loops'],
                                  precondition_satisfiable=bool(d['covers'].get('pre')), concrete_runs=d['conc'], secs=d['secs']) for d in results],
                  note=note))
    mine = [d for d in results if d['name'] in own]
    if pid in props.BOUNDED or not any(d['status'] == 'proved' for d in mine):
        # what decides (the main function of) the property are the bounded runs
        ev['level'] = 'exploration'
        ev['coverage'].update(
            evaluations=sum(d['conc'] for d in mine), distinct_nontrivial=sum(d['distinct'] for d in mine),
            rule='random memory images and directory trees, run on the real code and judged by the contract; non-trivial: distinct, '
                 'the call returned and the directory is not empty',
            samples=[x for d in mine for x in d['samples']][:5])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d functions under contract, %d proved, %d bounded only; %d/%d obligations discharged; %d concrete cross-checks; %.1fs'
          % (pid, len(results), nf, len(bounded), di, ob, ev['coverage']['concrete_cross_checks'], time.time() - t0))
    for d in bounded:
        print('  bounded: %s (%s) %d concrete runs %s' % (d['name'], d['reason'], d['conc'], d['conc_note']))
        if a.v and d.get('trace'):
            print(d['trace'])
    if a.v:
        for d in results:
            print('  %-30s %-9s obl %d/%d paths %d conc %d %s %.1fs' % (d['name'], d['status'], d['discharged'], d['obligations'], d['paths'], d['conc'], d['conc_note'], d['secs']))
            for o in d['failed']:
                print('       ', o['cat'], o['what'], 'line', o['line'], o['status'], 'approx' if o['approx'] else 'exact')
    for k in known:
        if k.get('status') == 'finding' and k['property'] == pid:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        for d, f, conc in viol[:8]:
            path = os.path.join(HERE, 'replay', '%s-%s.json' % (pid, d['name']))
            with open(path, 'w') as fh:
                json.dump(dict(property=pid, function=d['name'], failed_obligation=dict(category=f['cat'], what=f['what'], line=f.get('line')),
                               failing_input=f.get('case'), verifier_output=d['failed'], reason=d['reason'],
                               replay='python3-vt check.py --property %s --fn %s' % (pid, d['name'])), fh, indent=1, default=str)
            print('  %s: [%s] %s%s' % (d['name'], f['cat'], f['what'], '' if conc else ' (line %s)' % f.get('line')))
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if conc else ' no-failing-input-found'))
        return 1
    return 0


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def known_match(known, pid, fn, f):
    for k in known:
        if k.get('status') == 'finding' and k['property'] == pid and k.get('function') == fn and k.get('category') == f['cat'] and k.get('match', '\0') in f['what']:
            return True
    return False


if __name__ == '__main__':
    sys.exit(main())
