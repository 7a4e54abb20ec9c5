"""Development driver: verify functions.  run.py [-v] fn..."""
import sys, time, os, json
import z3
from smt import *
import smt, ir, engine, solve
from engine import *


def setup():
    if os.environ.get('REPO'): ir.REPO = os.environ['REPO']
    m = ir.load()
    init_fields(m)
    w = World(m)
    from specs import base
    base.setup(w)
    import specs.all
    return w


def gen(w, fn, choice=None):
    e = Engine(w, fn, choice)
    e.run()
    extra = e.literal_facts(e.used_globals)
    from specs import base
    con = CONTRACTS[fn]
    if 'fd' in con.axioms:
        extra = extra + [ax for _, ax in base.fd_axioms(e)]
    return e, extra


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    v = '-v' in sys.argv
    w = setup()
    if not args: args = [k for k, c in CONTRACTS.items() if not c.trusted]
    bad = 0
    for fn in args:
        t0 = time.time()
        try:
            e, extra = gen(w, fn)
        except Unsupported as x:
            print('%-40s UNSUPPORTED %s' % (fn, x)); bad += 1; continue
        t1 = time.time()
        todo = [o for o in e.obls if o.res != 'trivial']
        rs = solve.pool([(o, extra) for o in todo], 8, None, t1=float(os.environ.get('T', '8')), full='-q' not in sys.argv, cvc='-q' not in sys.argv)
        fails = [(o, r) for o, r in zip(todo, rs) if r['result'] != 'proved']
        print('%-40s %4d obl %4d nontrivial %3d failed  gen %.1fs solve %.1fs max %.1f ret %d inl %s' % (
            fn, len(e.obls), len(todo), len(fails), t1 - t0, time.time() - t1, max([r['time'] for r in rs] or [0]), e.reach_ret, sorted(e.inlined)), flush=True)
        js = [(Oblig(fn, 'vac', 'pre', 0, e.pre_facts, BoolVal(False), e.con.axioms, []), extra)] + [(Oblig(fn, 'vac', 'ret', 0, fs, BoolVal(False), e.con.axioms, []), extra) for fs in e.ret_facts]
        vs_ = solve.pool(js, 8, None, t1=2, full=False, cvc=False)
        nv = [k for k, r in enumerate(vs_) if r['result'] == 'proved']
        if 0 in nv or len(nv) == len(js) - 1: print('    VACUOUS', nv, len(js)); bad += 1
        for o, r in zip(todo, rs):
            if r['time'] > 3: print('    SLOW %.1f' % r['time'], r['backend'], o.label(), o.path[-6:])
        seen = set()
        for o, r in fails:
            bad += 1
            k = (o.kind, o.name, o.line)
            if k in seen and not v: continue
            seen.add(k)
            print('    FAIL', o.label(), r['reason'][:100], '| path', o.path[-8:])
        if e.reach_ret == 0: print('    no return reached')
    print('bad', bad)


if __name__ == '__main__': main()
