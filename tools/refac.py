"""refac.py [-j N] [NAME..] : behaviour-preserving rewritings of the source, applied one at a time to a scratch copy;
the functions of the touched files are proved again.  Every line must read 'quiet'."""
import sys, os, re, subprocess, tempfile, shutil, json, time
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path.insert(0, H); sys.path.insert(0, R + '/vcg')


def one(name):
    from refacs import REFACS, apply
    edits = REFACS[name]
    d = tempfile.mkdtemp(prefix='refac')
    try:
        repo = d + '/repo'
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('_build', 'build', '.git'))
        orig = {}
        for f, old, new in edits:
            p = repo + '/src/src/' + f
            t = open(p).read()
            orig.setdefault(f, t)
            t = apply(t, old, new)
            if t is None: return 'BAD EDIT %s: %r' % (f, old[:60])
            open(p, 'w').write(t)
        r = subprocess.run(['python3-vt', os.path.abspath(__file__), '--child', name] + sorted(orig), env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = [l for l in r.stdout.split('\n') if l.strip()]
        ok = [l for l in out if l.startswith('RESULT ')]
        return ok[-1][7:] + ''.join('\n      ' + l for l in out if l.startswith('   ')) if ok else 'ERROR ' + r.stdout[-600:]
    finally:
        shutil.rmtree(d)


def child(name, files):
    sys.setrecursionlimit(20000)
    import ir, engine, verify, specs, props
    from engine import CONTRACTS
    t0 = time.time()
    try:
        w = verify.setup()
    except ir.IRError as x:
        print('RESULT does not compile', str(x)[:800]); return
    fns = []
    for f in files:
        t = open('/repo/src/src/' + f).read()
        if f == 'ush_autocomp_utils.c': t += open('/repo/src/src/ush_autocomp_state.c').read() + open('/repo/src/src/ush_read_char.c').read()
        fns += [m for m in re.findall(r'^[a-z][\w \*]*?(\w+)\(', t, re.M) if m in CONTRACTS]
    verify.install_dropping()
    dropped = []
    todo = set(fns)
    done = {}
    for rnd in range(5):
        frs = {fn: verify.attempt(w, fn, {}) for fn in todo}
        verify.verify(w, frs, int(os.environ.get('NP', '3')), t1=6)
        done.update(frs)
        fails = [(fn, o) for fn, r in frs.items() for o in r.failed]
        if not fails: break
        d = verify.drop_clauses([(fn, o) for fn, o in fails if o is not None])
        if not d or any(o is None or o.kind != 'post' for fn, o in fails): break
        dropped += d
        todo = {fn for fn, o in fails}
    fails = [(fn, o) for fn, r in done.items() for o in r.failed]
    st = [n for n, b, _ in props.static('C20', w) if not b]
    for fn, o in fails: print('   FAIL', fn, done[fn].error if o is None else o.label())
    for x in dropped: print('   DROPPED', x)
    for n in st: print('   STATIC', n)
    print('RESULT %s %d functions %.0fs' % ('ALARM' if fails or st else 'clause' if dropped else 'quiet', len(fns), time.time() - t0))
    sys.stdout.flush(); os._exit(0)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--child': child(a[1], a[2:]); sys.exit(0)
    j = 1
    if a and a[0] == '-j': j = int(a[1]); a = a[2:]
    from refacs import REFACS
    from concurrent.futures import ThreadPoolExecutor
    names = [n for n in REFACS if not a or any(n.startswith(x) for x in a)]
    with ThreadPoolExecutor(j) as ex:
        for n, r in zip(names, ex.map(one, names)): print('%-28s %s' % (n, r), flush=True)
