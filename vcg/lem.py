"""Lemmas over the specification vocabulary, proved like obligations."""
import z3
from engine import Oblig
import solve


def all_lemmas():
    from specs import paths
    return paths.LEMMAS


def deps(groups):
    """lemma groups used, also by the proofs of other lemmas"""
    have = {l[1] for l in all_lemmas()}
    out = set(); todo = [g for g in groups if g in have]
    while todo:
        g = todo.pop()
        if g in out: continue
        out.add(g)
        for l in all_lemmas():
            if l[1] == g: todo += [d for d in l[4] if d in have and d != g]
    return out


def jobs(groups=None):
    out = []
    for nm, grp, hyps, goal, deps in all_lemmas():
        if groups is not None and grp not in groups: continue
        o = Oblig('lemma', 'lemma', nm, 0, list(hyps), goal, tuple(deps), [])
        out.append(o)
    return out


def prove(groups, nproc, t1=8):
    js = jobs(groups)
    rs = solve.pool([(o, []) for o in js], nproc, None, t1=t1)
    return [(o.name, r) for o, r in zip(js, rs)]


if __name__ == '__main__':
    import run
    run.setup()
    for n, r in prove(None, 8): print(r['result'], n, r['backend'], round(r['time'], 2), r['reason'])
