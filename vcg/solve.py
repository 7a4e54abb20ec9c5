"""Discharges obligations: z3 first, then cvc5 on the same query."""
import os, sys, time, json, subprocess, tempfile, hashlib, signal, resource
import z3
from smt import AX
import smt

Z3_SEEDS = (0, 7, 23)


def build(ob, extra):
    s = z3.Solver()
    for g in ob.axioms:
        for nm, ax in AX.get(g, []): s.add(ax)
    for f in extra: s.add(f)
    for f in ob.facts: s.add(f)
    s.add(z3.Not(ob.goal))
    return s


def run_z3(ob, extra, timeout, seed, without=()):
    s = z3.SimpleSolver()
    s.set('timeout', int(timeout * 1000))
    if seed:
        s.set('random_seed', seed)
        s.set('smt.random_seed', seed)
        if seed in (7, 23): s.set('smt.case_split', 3 if seed == 7 else 1)
        if seed == 23: s.set('smt.relevancy', 0)
    for g in ob.axioms:
        for nm, ax in AX.get(g, []):
            if nm not in without: s.add(ax)
    for f in extra: s.add(f)
    for f in ob.facts: s.add(f)
    s.add(z3.Not(ob.goal))
    try:
        r = s.check()
    except z3.Z3Exception as e:
        return 'unknown', str(e), s
    return str(r), (s.reason_unknown() if r != z3.unsat else ''), s


def run_cvc5(s, timeout):
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + txt
    fd, p = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode()); os.close(fd)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--no-stats', p], capture_output=True, text=True,
                           timeout=timeout + 10)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else r.stderr.strip()[:200]
    except Exception as e:
        o = 'error ' + str(e)
    finally:
        os.unlink(p)
    return o


def discharge(ob, extra, t1=8, cvc=True, full=True):
    """returns dict(result, backend, time, reason)"""
    t0 = time.time()
    T = ob.timeout or t1
    reason = ''
    s = None
    # short attempts with different seeds first: most queries that run away with one seed are easy with another
    # ('lite': without the axiom that is instantiated most; fewer hypotheses are always allowed)
    plan = [(0, 0.7), ('lite', 0.7), (0, T)] if not full else [(0, T / 3), ('lite', T / 3), (11, T / 4), (31, T / 4), ('cvc5', T), (7, T), (23, T), (0, T)]
    for seed, t in plan:
        if seed == 'cvc5':
            if not cvc: continue
            o = run_cvc5(s, t)
            if o == 'unsat': return dict(result='proved', backend='cvc5', time=time.time() - t0, reason='')
            reason += '; cvc5: ' + o[:80]
            continue
        if seed == 'lite':
            if 'zend' in ob.axioms and run_z3(ob, extra, t, 0, ('zend.least',))[0] == 'unsat':
                return dict(result='proved', backend='z3', time=time.time() - t0, reason='')
            continue
        r, why, s = run_z3(ob, extra, t, seed)
        if r == 'unsat':
            return dict(result='proved', backend='z3', time=time.time() - t0, reason='')
        if r == 'sat' : return dict(result='unproved', backend='z3', time=time.time() - t0, reason='sat')
        reason = '%s (%s)' % (r, why)
    return dict(result='unproved', backend='z3+cvc5', time=time.time() - t0, reason=reason)


def batch(obs, extra, t=0.2):
    """one solver for many obligations of a function: the axioms and the facts that consecutive obligations share are asserted once.
    Returns, per obligation, the result if it was proved, else None (to be tried on its own)"""
    out = []
    if not obs: return out
    s = z3.SimpleSolver()
    s.set('timeout', int(t * 1000))
    for g in obs[0].axioms:
        for nm, ax in AX.get(g, []): s.add(ax)
    for f in extra: s.add(f)
    base = list(obs[0].axioms)
    cur = []; starts = []; misses = 0
    for o in obs:
        t0 = time.time()
        if list(o.axioms) != base or misses > 25: out.append(None); continue
        ids = [f.get_id() for f in o.facts]
        k = 0
        while k < len(ids) and k < len(cur) and ids[k] == cur[k]: k += 1
        while len(cur) > k:
            s.pop(); cur = cur[:starts.pop()]
        if len(ids) > len(cur):
            starts.append(len(cur)); s.push()
            for f in o.facts[len(cur):]: s.add(f)
            cur = ids
        s.push(); s.add(z3.Not(o.goal))
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        s.pop()
        if r != z3.unsat: misses += 1
        out.append(dict(result='proved', backend='z3', time=time.time() - t0, reason='') if r == z3.unsat else None)
    return out


def pool(jobs, nproc, sem, run=None, **kw):
    """jobs: list of (ob, extra).  Forks workers, returns list of result dicts."""
    import mmap, struct, fcntl
    n = len(jobs)
    if n == 0: return []
    res = [None] * n
    ctr = mmap.mmap(-1, 8)
    lock = tempfile.TemporaryFile()
    pipes = []
    nproc = max(1, min(nproc, n))
    stop = mmap.mmap(-1, 8)
    for w in range(nproc):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                f = os.fdopen(wr, 'w')
                lk = open('/proc/self/fd/%d' % lock.fileno(), 'r+b')
                while True:
                    fcntl.lockf(lk, fcntl.LOCK_EX)
                    i = struct.unpack('q', ctr[:8])[0]
                    ctr[:8] = struct.pack('q', i + 1)
                    fcntl.lockf(lk, fcntl.LOCK_UN)
                    if i >= n: break
                    if kw.get('failfast') and stop[0] >= kw['failfast']:
                        continue
                    if sem: sem.acquire()
                    try:
                        d = run(*jobs[i]) if run else discharge(jobs[i][0], jobs[i][1], **{k: v for k, v in kw.items() if k != 'failfast'})
                    except Exception as e:
                        d = dict(result='unproved', backend='-', time=0, reason='exception ' + repr(e)[:300])
                    finally:
                        if sem: sem.release()
                    if not run and d['result'] != 'proved': stop[0] = min(255, stop[0] + 1)
                    f.write(json.dumps([i, d]) + '\n'); f.flush()
                f.close()
            finally:
                os._exit(0)
        os.close(wr)
        pipes.append((pid, r))
    import selectors
    sel = selectors.DefaultSelector()
    for pid, r in pipes:
        sel.register(r, selectors.EVENT_READ, pid)
    bufs = {r: b'' for _, r in pipes}
    live = len(pipes)
    while live:
        for key, _ in sel.select():
            d = os.read(key.fd, 65536)
            if not d:
                sel.unregister(key.fd); os.close(key.fd); live -= 1
                for l in bufs[key.fd].split(b'\n'):
                    if l.strip():
                        i, x = json.loads(l); res[i] = x
                os.waitpid(key.data, 0)
            else:
                bufs[key.fd] += d
    for i in range(n):
        if res[i] is None and not run: res[i] = dict(result='unproved', backend='-', time=0, reason='not run')
    return res
