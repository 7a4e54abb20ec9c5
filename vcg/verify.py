"""Verification of a property: closure of contracts, obligations, retries,
clause dropping, vacuity."""
import time, os, itertools, re, json, mmap, struct, tempfile
import z3
from smt import *
import smt, ir, engine, solve
from engine import *


def setup():
    m = ir.load()
    init_fields(m)
    w = World(m)
    from specs import base
    base.setup(w)
    import specs.all
    return w


def gen(w, fn, choice=None, hold=None):
    if fn not in w.m.funcs: raise Unsupported('function %s not found in /repo/src' % fn)
    e = Engine(w, fn, choice)
    if hold is not None: hold.append(e)
    e.run()
    extra = e.literal_facts(e.used_globals)
    from specs import base
    con = CONTRACTS[fn]
    if 'fd' in con.axioms:
        extra = extra + [ax for _, ax in base.fd_axioms(e)]
    if e.reach_ret == 0:
        raise Unsupported('no path of %s returns' % fn)
    return e, extra


class FnResult:
    def __init__(self, fn):
        self.fn = fn; self.eng = None; self.extra = None; self.error = None
        self.res = {}        # index -> dict
        self.choice = {}; self.nalts = {}

    @property
    def failed(self):
        if self.error: return [None]
        return [o for i, o in enumerate(self.eng.obls) if o.res != 'trivial' and self.res[i]['result'] != 'proved']


def attempt(w, fn, choice):
    r = FnResult(fn); r.choice = dict(choice)
    hold = []
    try:
        r.eng, r.extra = gen(w, fn, choice, hold)
    except (Unsupported, ir.IRError) as x:
        r.error = str(x)
    except Exception as x:
        r.error = 'verifier cannot process this code: %s %s' % (type(x).__name__, str(x)[:300])
    if hold: r.nalts = dict(hold[0].nalts)
    return r


def solve_fns(frs, nproc, t1, full=True, cvc=True, sem=None):
    jobs = []
    for r in frs:
        if r.error: continue
        for i, o in enumerate(r.eng.obls):
            if o.res != 'trivial' and r.res.get(i, {}).get('result') != 'proved':
                jobs.append((r, i, o))
    def put(r, i, d):
        old = r.res.get(i)
        if old: d['time'] += old['time']
        r.res[i] = d
    if not full:
        chunks = []
        for r, i, o in jobs:
            if chunks and chunks[-1][0] is r and len(chunks[-1][1]) < 40: chunks[-1][1].append((i, o))
            else: chunks.append((r, [(i, o)]))
        out = solve.pool([([o for _, o in l], r.extra) for r, l in chunks], nproc, sem, run=solve.batch)
        left = []
        for (r, l), ds in zip(chunks, out):
            for (i, o), d in zip(l, ds or [None] * len(l)):
                if d: put(r, i, d)
                else: left.append((r, i, o))
        jobs = left
    out = solve.pool([(o, r.extra) for r, i, o in jobs], nproc, sem, t1=t1, full=full, cvc=cvc)
    for (r, i, o), d in zip(jobs, out): put(r, i, d)


def alternatives(nalts, limit=16):
    keys = sorted(nalts)
    out = []
    rng = [range(min(nalts[k], 12)) for k in keys]
    for combo in itertools.product(*rng):
        if any(combo): out.append(dict(zip(keys, combo)))
    out.sort(key=lambda c: (sum(1 for v in c.values() if v), sum(c.values())))
    return [{'_l': 1}] + [dict(c, _l=1) for c in out[:limit]]


# ------------------------------------------------------------------ first pass over many functions, in parallel
# functions with many obligations are shared by several workers (scheduling only)
SPLIT = {'ush_buildin_cmd_ls_service': 5, 'ush_autocomp_state_candidates_process': 4, 'ush_buildin_cmd_echo_callback': 3, 'ush_buildin_cmd_xxd_service': 3,
         'ush_parse_char': 3, 'ush_service': 3, 'ush_autocomp_service': 2, 'ush_parse_finish': 2, 'ush_printf': 2, 'ush_buildin_cmd_help_service': 2, 'ush_utils_get_collapse_path': 2}


class LightOblig:
    __slots__ = ('fn', 'kind', 'name', 'line', 'res', 'callee', 'loop', 'path')

    def label(self): return '%s:%s:%s@%s' % (self.fn, self.kind, self.name, self.line)


class LightEngine:
    """what a worker tells about the engine it ran"""


class LightResult(FnResult):
    light = True


def _task(w, fn, k, m, t1, vac, choice):
    r = attempt(w, fn, choice)
    if r.error: return dict(error=r.error, nalts=[]), []
    e = r.eng
    out = []
    todo = [(i, o) for i, o in enumerate(e.obls) if o.res != 'trivial']
    todo = todo[len(todo) * k // m:len(todo) * (k + 1) // m]
    for (i, o), d in zip(todo, solve.batch([o for _, o in todo], r.extra)):
        out.append((i, d or solve.discharge(o, r.extra, t1=t1, full=False, cvc=False)))
    meta = None
    if k == 0:
        meta = dict(error=None, nalts=[[a, b] for a, b in r.nalts.items()], called=sorted(e.called), inlined=sorted(e.inlined), paths=e.paths, nvac=0, vac=None,
                    obls=[[o.kind, o.name, o.line, o.res == 'trivial', str(o.callee) if o.callee is not None else None, o.loop, [str(x) for x in o.path[-10:]]] for o in e.obls])
        if vac:
            q = [(Oblig(fn, 'vacuity', 'precondition consistent', 0, e.pre_facts, BoolVal(False), e.con.axioms, []), 'pre')] + \
                [(Oblig(fn, 'vacuity', 'return reachable', 0, fs, BoolVal(False), e.con.axioms, []), 'ret') for fs in e.ret_facts[:4]]
            ok = False
            for o, what in q:
                if what == 'ret' and ok: break
                meta['nvac'] += 1
                pr = solve.run_z3(o, r.extra, 0.7, 0)[0] == 'unsat'
                if what == 'pre' and pr: meta['vac'] = 'precondition inconsistent'
                if what == 'ret' and not pr: ok = True
            if not ok and not meta['vac']: meta['vac'] = 'no reachable return'
    return meta, out


def fast(w, fns, nproc, t1=2.5, vac=(), choices={}):
    """one quick attempt at every function with the default readings: {fn: LightResult}"""
    tasks = [(fn, k, SPLIT.get(fn, 1)) for fn in fns for k in range(SPLIT.get(fn, 1))]
    tasks.sort(key=lambda t: -SPLIT.get(t[0], 1))
    ctr = mmap.mmap(-1, 8); lock = tempfile.TemporaryFile()
    import fcntl
    ps = []
    for _ in range(max(1, min(nproc, len(tasks)))):
        out = tempfile.TemporaryFile('w+')
        pid = os.fork()
        if pid == 0:
            try:
                lk = open('/proc/self/fd/%d' % lock.fileno(), 'r+b')
                while True:
                    fcntl.lockf(lk, fcntl.LOCK_EX)
                    i = struct.unpack('q', ctr[:8])[0]
                    ctr[:8] = struct.pack('q', i + 1)
                    fcntl.lockf(lk, fcntl.LOCK_UN)
                    if i >= len(tasks): break
                    fn, k, m = tasks[i]
                    try: meta, res = _task(w, fn, k, m, t1, fn in vac, choices.get(fn, {}))
                    except Exception as x: meta, res = dict(error='verifier cannot process this code: %r' % x, nalts=[]), []
                    out.write(json.dumps([fn, k, meta, res]) + '\n')
                out.flush()
            finally:
                os._exit(0)
        ps.append((pid, out))
    frs = {fn: LightResult(fn) for fn in fns}
    for fn, r in frs.items(): r.choice = choices.get(fn, {})
    for pid, out in ps:
        os.waitpid(pid, 0)
        out.seek(0)
        for l in out:
            fn, k, meta, res = json.loads(l)
            r = frs[fn]
            if meta and meta['error']: r.error = meta['error']
            if meta: r.nalts = {a: b for a, b in meta['nalts']}
            if meta and not meta['error']:
                e = r.eng = LightEngine()
                e.called = set(meta['called']); e.inlined = set(meta['inlined']); e.paths = meta['paths']
                e.nvac = meta['nvac']; e.vac = meta['vac']
                e.obls = []
                for x in meta['obls']:
                    o = LightOblig(); o.fn = fn; o.kind, o.name, o.line, tr, o.callee, o.loop, o.path = x
                    o.res = 'trivial' if tr else None
                    e.obls.append(o)
            for i, d in res: r.res[i] = d
    for fn, r in frs.items():
        if r.error is None and r.eng is None: r.error = 'a worker of the verifier died'
        if r.error: r.eng = None; continue
        for i, o in enumerate(r.eng.obls):
            if o.res != 'trivial' and i not in r.res: r.res[i] = dict(result='unproved', backend='-', time=0, reason='not run')
    return frs


ORDER = [0, ('raw', 0), 1, 2, 3, 4, 5, 6, 7, 8]


def verify(w, frs, nproc=8, t1=6, deadline=None, fast=2.5, on_fail=None, fixed=()):
    solve_fns(list(frs.values()), nproc, fast, full=False, cvc=False)
    bad = [r for r in frs.values() if not r.error and r.failed]
    if bad or any(r.error for r in frs.values()):
        solve_fns(bad, nproc, t1, full=True)
        # on_fail: a concrete failing input settles the matter; otherwise keep looking for a proof
        if on_fail and on_fail(frs): return frs
    for fn, r in list(frs.items()):
        if r.error is None and not r.failed: continue
        na = r.nalts
        if not na or fn in fixed: continue
        seen = set()

        def consider(ch):
            q = attempt(w, fn, ch)
            if q.error: return q
            key = tuple(sorted(q.eng.chosen.items()))
            if key in seen: return None
            seen.add(key)
            solve_fns([q], nproc, 2, full=False, cvc=False)
            if len(q.failed) and len(q.failed) < 6: solve_fns([q], nproc, t1, full=True)
            if not q.failed or frs[fn].error or len(q.failed) < len(frs[fn].failed): frs[fn] = q
            return q
        late = lambda: deadline and time.time() > deadline
        # the most promising reading of every loop; where its own obligations fail, the next one
        pos = {}
        for _ in range(10):
            if late(): break
            q = consider(dict({li: ORDER[min(k, len(ORDER) - 1)] for li, k in pos.items()}, _l=1))
            if q is not None:
                if q.error or not q.failed: break
                bad = {o.loop for o in q.failed if o.loop is not None}
                if not bad: break
            for li in bad: pos[li] = pos.get(li, 0) + 1
            if any(k > 8 for k in pos.values()): break
        if not frs[fn].failed: continue
        for ch in alternatives(na):
            if late(): break
            consider(ch)
            if not frs[fn].failed: break
    return frs


def drop_clauses(fails, env=(), frs=None):
    """remove failed ensures clauses that belong to other properties; what the user may rely on between two calls is removed everywhere"""
    inv = {base_name(o.name[len(o.callee) + 1:]) for r in (frs or {}).values() if r.eng for o in r.eng.obls if o.kind == 'pre' and o.callee and o.callee.startswith('*ush_')}
    dropped = []
    for fn, o in fails:
        if o.kind == 'pre' and o.callee and o.callee.startswith('*ush_') and frs is not None: n = o.name[len(o.callee) + 1:]
        elif o.kind == 'post': n = o.name
        else: continue
        if o.kind == 'post' and (fn, n) not in DROPPED:
            DROPPED.add((fn, n)); dropped.append((fn, n))
        if (o.kind == 'pre' or fn in env) and base_name(n) in inv and base_name(n) not in GDROPPED:
            GDROPPED.add(base_name(n)); dropped.append(('*', base_name(n)))
    return dropped


def affected(dropped, frs):
    """functions whose obligations change when these clauses are gone"""
    fs = {fn for fn, n in dropped}
    if '*' in fs: return sorted(frs)
    return sorted(fn for fn, r in frs.items() if fn in fs or r.eng is None or r.eng.called & fs)


DROPPED = set()
GDROPPED = set()         # parts of the invariant that the current source does not keep


def base_name(n): return re.sub(r'^(C\d\d\.)?(inv\.)?', '', n)


def gone(n, glob): return base_name(n) in GDROPPED and (glob or '.inv.' in '.' + n)


def install_dropping(env=()):
    for fn, con in CONTRACTS.items():
        if getattr(con, '_dropwrap', False): continue
        con._dropwrap = True
        ens = con.ensures; req = con.requires
        glob = con.trusted or fn in env

        def f(c, ens=ens, fn=fn, glob=glob):
            return [cl for cl in clauses(ens(c)) if (fn, cl.name) not in DROPPED and not gone(cl.name, glob)]

        def g(c, req=req, glob=glob):
            return [cl for cl in clauses(req(c)) if not gone(cl.name, glob)]
        con.ensures = f
        con.requires = g


def vacuity1(w, fn, r):
    """some return path must be reachable: False must not be provable there"""
    jobs = [(Oblig(fn, 'vacuity', 'precondition consistent', 0, r.eng.pre_facts, BoolVal(False), r.eng.con.axioms, []), r.extra)] + \
           [(Oblig(fn, 'vacuity', 'return reachable', 0, fs, BoolVal(False), r.eng.con.axioms, []), r.extra) for fs in r.eng.ret_facts[:4]]
    out = solve.pool(jobs, len(jobs), None, t1=1.0, full=False, cvc=False)
    if out[0]['result'] == 'proved': return 'precondition inconsistent', len(jobs)
    if all(d['result'] == 'proved' for d in out[1:]): return 'no reachable return', len(jobs)
    return None, len(jobs)
