"""check.py <property-id>: decides one property on /repo's current source.

Exit 0: every obligation of the property's contracts was discharged.
Exit 1 with a VIOLATION line otherwise."""
import sys, os, time, json, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import falsify
sys.setrecursionlimit(20000)

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
NPROC = min(8, os.cpu_count() or 1)
BUDGET = 780 if TIER == 'quick' else 3300


def known(prop):
    """findings listed as not repaired (none suppress a different violation)"""
    out = []
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding:') and ('property=%s ' % prop) in l: out.append(l)
    except OSError:
        pass
    return out


def own(prop, o):
    """the obligation carries a clause of the property (its own, or required by a callee)"""
    return ('.' + prop + '.') in ('.' + o.name)


def main():
    t0 = time.time()
    prop = sys.argv[1]
    ev = dict(property=prop, tier=TIER, seed=SEED, level='proof', coverage={}, assumptions=[], wall_s=0, violations=0)
    rd = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, '%s.txt' % prop)
    try:
        rc, hit, cov, assumptions, report = decide(prop, t0)
    except Exception:
        tb = traceback.format_exc()
        # the machinery itself failed on this source: nothing was proved
        rc, cov, assumptions = 2, {'obligations': 0, 'discharged': 0, 'checker_cmd': 'z3, cvc5', 'trusted_base': []}, []
        hit = None
        report = 'internal error of the check, nothing was proved\n' + tb
        sys.stderr.write(tb)
    ev['coverage'] = cov; ev['assumptions'] = assumptions
    if rc:
        ev['violations'] = 1
        try:
            left = BUDGET - (time.time() - t0)
            if not hit: hit = falsify.search(prop, SEED + 7, min(150, max(40, left - 60)), NPROC)
        except Exception:
            report += '\nreplay search failed:\n' + traceback.format_exc()
        with open(rp, 'w') as f:
            if hit: f.write(hit + '\n\n')
            f.write(report)
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if hit else ' no-failing-input-found'))
        rc = 1
    else:
        if os.path.exists(rp): os.unlink(rp)
    ev['wall_s'] = round(time.time() - t0, 2)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, l.split('property=%s ' % prop, 1)[1]))
    print('%s: %s obligations %s discharged %s in %.1fs' % (prop, 'FAILED' if rc else 'ok', cov.get('obligations'), cov.get('discharged'), ev['wall_s']))
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, t0):
    import ir, engine, verify, specs
    from engine import CONTRACTS
    report = []
    try:
        w = verify.setup()
    except ir.IRError as x:
        return 1, None, dict(obligations=1, discharged=0, checker_cmd='clang -emit-llvm', trusted_base=[]), [], 'the source does not compile for verification:\n%s' % x
    import props
    fns = [f for f, c in CONTRACTS.items() if not c.trusted]
    verify.install_dropping(props.ENV)
    t1 = 6 if TIER == 'quick' else 30
    deadline = t0 + BUDGET * 0.6
    main = set(props.reach(props.roots(prop, w), w))        # the functions the property is about
    kinds = props.KINDS.get(prop)

    def rel(fn, o):
        if fn in main: return o is None or not kinds or o.kind in kinds or own(prop, o)
        return o is not None and o.kind in ('post', 'pre') and own(prop, o)
    hit = None
    searched = False
    frs = {}

    def failing(frs):
        return [(fn, o) for fn, r in frs.items() for o in r.failed if rel(fn, o)]

    def hard(o): return o is None or o.kind != 'post' or own(prop, o)

    def early(frs):
        # some obligation that cannot be dropped failed: look for a session that shows it
        nonlocal hit, searched
        if searched or not any(hard(o) for fn, o in failing(frs)): return False
        searched = True
        hit = falsify.search(prop, SEED, 40, NPROC)
        return hit is not None
    slow = set()
    good = {}           # readings of the loops of a function that proved it
    dropped_all = []; unsettled = {}; spent = 0
    todo = [f for f in fns if f in w.m.funcs or f in main]
    # every function of the shell is proved: the invariant that the functions of the property start from is kept by all of them
    for rounds in range(8):
        lf = verify.fast(w, todo, NPROC, vac=main, choices=good)
        frs.update(lf)
        while True:
            more = {k for fn in main if fn in frs and frs[fn].eng for k in frs[fn].eng.called if not CONTRACTS[k].trusted} - main
            if not more: break
            main |= more
        late = time.time() > deadline
        for part, lim in ((main, deadline), (set(fns) - main, min(deadline, time.time() + max(0, 150 - spent)))):
            again = {fn: verify.attempt(w, fn, good.get(fn, {})) for fn in todo if fn in part and frs[fn].failed}
            if not again or hit: continue
            ts = time.time()
            verify.verify(w, again, NPROC, t1=t1, deadline=lim, on_fail=early, fixed=good)
            if part is not main:
                spent += time.time() - ts
                # readings of its loops were left untried
                if time.time() > lim: slow |= {fn for fn, r in again.items() if r.failed and r.nalts and fn not in good}
            frs.update(again)
        if hit or late: break
        for fn in todo:
            if not frs[fn].failed: good[fn] = frs[fn].choice
        for fn in todo:
            unsettled.pop(fn, None)
            if fn not in main and frs[fn].failed and (frs[fn].error or fn in slow or any(o.kind not in ('post', 'pre') for o in frs[fn].failed)): unsettled[fn] = frs[fn].error or [o.label() for o in frs[fn].failed][:4]
        if any(hard(o) for fn, o in failing(frs)): break
        # a clause of another property that fails is no longer promised to anyone; what it was needed for is proved again without it
        d = verify.drop_clauses([(fn, o) for fn, r in frs.items() if fn not in unsettled for o in r.failed if o is not None and not own(prop, o)], props.ENV, frs)
        if not d: break
        dropped_all += d
        todo = verify.affected(d, frs)
    if (dropped_all or any(r.failed for fn, r in frs.items() if fn not in main)) and not hit and not searched and not any(hard(o) for fn, o in failing(frs)):
        # everything the property says is proved, but something it may rest on is not
        searched = True
        hit = falsify.search(prop, SEED, 60, NPROC)
    allfrs = frs
    frs = {fn: r for fn, r in frs.items() if fn in main}
    sup = {fn: r for fn, r in allfrs.items() if fn not in main}
    for fn, r in frs.items():
        if not r.error and not hasattr(r.eng, 'vac'): r.eng.vac, r.eng.nvac = verify.vacuity1(w, fn, r)
    vac = [(fn, r.eng.vac) for fn, r in frs.items() if r.eng and r.eng.vac and not r.failed]
    nv = sum(r.eng.nvac for r in frs.values() if r.eng)
    lem = props.lemmas(prop, w, NPROC, frs) if not hit else []
    stat = props.static(prop, w)
    nob = sum(len(r.eng.obls) for r in frs.values() if r.eng) + len(lem) + len(stat)
    triv = sum(1 for r in frs.values() if r.eng for o in r.eng.obls if o.res == 'trivial') + sum(1 for _, b, _ in stat if b)
    res = [d for r in frs.values() if r.eng for d in r.res.values()] + [d for _, d in lem]
    be = {}
    for d in res:
        if d['result'] == 'proved': be[d['backend']] = be.get(d['backend'], 0) + 1
    disch = triv + sum(be.values())
    used = set()
    for r in allfrs.values():
        if r.eng: used |= r.eng.called
    trusted = sorted(k for k in used if CONTRACTS[k].trusted)
    cov = dict(obligations=nob, discharged=disch, checker_cmd='python3-vt vcg/check.py %s (VCs from clang -O0 LLVM IR of /repo/src; z3 4.8.12 API, cvc5 1.1.2)' % prop,
               trusted_base=['clang 18 -O0 -emit-llvm as the semantics of C', 'vcg/ir.py and vcg/engine.py (VC generation)', 'z3, cvc5',
                             'axioms of vcg/smt.py and vcg/specs'] + ['contract assumed: ' + k for k in trusted],
               functions_under_contract=sorted(fn for fn, r in frs.items() if r.eng),
               supporting_functions=sorted(fn for fn, r in sup.items() if r.eng and not r.failed),
               supporting_obligations=sum(len(r.eng.obls) for r in sup.values() if r.eng),
               supporting_discharged=sum(1 for r in sup.values() if r.eng for i, o in enumerate(r.eng.obls) if o.res == 'trivial' or r.res[i]['result'] == 'proved'),
               property_clauses=sorted({o.fn + ': ' + o.name for r in frs.values() if r.eng for o in r.eng.obls if own(prop, o) or (kinds and o.kind in ('frame', 'dangling', 'const'))} | {n for n, _, _ in stat}),
               inlined=sorted({x for r in frs.values() if r.eng for x in r.eng.inlined}),
               paths=sum(r.eng.paths for r in frs.values() if r.eng),
               syntactic=triv, backends=be, solver_time_s=round(sum(d['time'] for d in res), 2),
               vacuity_queries=nv, lemmas=[n for n, _ in lem], dropped_auxiliary_clauses=['%s: %s' % x for x in dropped_all])
    bad = []
    for fn, r in sorted(frs.items()):
        if r.error: bad.append('%s: not verifiable: %s' % (fn, r.error))
        else:
            for i, o in enumerate(r.eng.obls):
                if o.res == 'trivial': continue
                d = r.res[i]
                if d['result'] != 'proved' and rel(fn, o):
                    bad.append('obligation %s NOT PROVED: %s\n      path %s' % (o.label(), d['reason'], ' '.join(o.path[-10:])))
    for fn, r in sorted(sup.items()):
        for o in r.failed:
            if rel(fn, o): bad.append('obligation %s NOT PROVED (supporting function)' % o.label())
            elif hit: bad.append('(supporting function) %s NOT PROVED' % (fn + ': ' + r.error if o is None else o.label()))
    if hit and not bad: bad.append('obligations of other properties that failed: %s %s' % (dropped_all, unsettled))
    for n, b, det in stat:
        if not b: bad.append('obligation %s FAILS: %s' % (n, det))
    for n, d in lem:
        if d['result'] != 'proved': bad.append('lemma %s NOT PROVED: %s' % (n, d['reason']))
    # functions whose error-free attempt is required
    for x in vac: bad.append('vacuity: %s: %s' % x)
    if nob == 0: bad.append('no obligations generated')
    if not cov['property_clauses']: bad.append('no clause of the property was generated')
    report = 'property %s on %s\n%d obligations, %d discharged\n' % (prop, ir.REPO, nob, disch)
    report += 'dropped auxiliary clauses (not needed): %s\nnot settled (supporting): %s\n' % (dropped_all, unsettled)
    report += '\n'.join(bad[:200]) + '\n'
    if bad:
        print('\n'.join(bad[:12]))
    return (1 if bad else 0), hit, cov, props.assumptions(prop), report


if __name__ == '__main__': main()
