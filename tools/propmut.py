"""Development tool: property by property, does a mutant of /repo/src that visibly breaks the property (replay search in
that property's mode) also fail an obligation that the property's check cannot drop?
propmut.py OUT [JOBS] [N] [FILESUBSTR] [SECS]  (uses /tmp/fzmut.out, the result of fzmut.py, to skip mutants nothing notices)"""
import sys, os, subprocess, tempfile, shutil, glob, random, json
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H); V = R + '/vcg'
A = sys.argv[1:]; sys.argv = sys.argv[:1]
exec(compile(open(H + '/mutate.py').read().replace('\nmain()\n', '\n'), 'mutate', 'exec'))
OUT = open(A[0], 'a'); JOBS = int(A[1]); N = int(A[2]); FLT = A[3] if len(A) > 3 else ''; SECS = float(A[4]) if len(A) > 4 else 3
F = ['-g', '-w', '-DUSH_CONFIG_PLATFORM_POSIX']
S = ['-O1', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=function']
LD = ['clang', '-fsanitize=fuzzer,address,undefined'] + ['-Wl,--wrap=' + x for x in ('malloc', 'calloc', 'realloc', 'free')]

WORK = r'''
import sys, json
sys.path.insert(0, %r); sys.setrecursionlimit(20000)
import verify, solve, z3
from engine import CONTRACTS
w = verify.setup()
fn0, inl = sys.argv[1], json.load(open(sys.argv[2]))['inl']
out = []
for f in [f for f in inl if f == fn0 or fn0 in inl[f]]:
    r = verify.attempt(w, f, {})
    if r.error: out.append((f, 'error', r.error[:80])); continue
    bad = 0
    for o in r.eng.obls:
        if o.res == 'trivial' or (f, o.kind, o.name) in out: continue
        if bad > 25: break
        d = solve.discharge(o, r.extra, t1=1.5, cvc=False, full=False)
        if d['result'] != 'proved': out.append((f, o.kind, o.name)); bad += 1
print(json.dumps(out))
''' % V
BASE = r'''
import sys, json
sys.path.insert(0, %r); sys.setrecursionlimit(20000)
import verify, props
from engine import CONTRACTS
w = verify.setup(); al = {}; clo = {}
for f, c in CONTRACTS.items():
    if not c.trusted: al[f] = verify.attempt(w, f, {})
inl = {f: sorted(r.eng.inlined) if r.eng else [] for f, r in al.items()}
for p in props.ROOTS:
    todo = list(props.roots(p, w)); seen = set()
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f); todo += [k for k in al[f].eng.called if not CONTRACTS[k].trusted]
    clo[p] = sorted(seen)
json.dump(dict(inl=inl, clo=clo, kinds=props.KINDS), open('/tmp/propbase.json', 'w'))
''' % V
subprocess.run(['python3-vt', '-c', BASE], check=True)
B = json.load(open('/tmp/propbase.json')); CLO, KINDS = B['clo'], B['kinds']
open('/tmp/propwork.py', 'w').write(WORK)
base = tempfile.mkdtemp(prefix='fzbase')
subprocess.run(['clang'] + F + ['-I/repo/src', '-O2', '-c', R + '/falsify/h.c', '-o', base + '/h.o'], check=True)
files = [os.path.join(d, f) for d, _, fs in os.walk('/repo/src') for f in fs if f.endswith('.c')]
for f in files: subprocess.run(['clang'] + F + S + ['-I/repo/src', '-c', f, '-o', base + '/' + os.path.basename(f) + '.o'], check=True)
desc = lambda p, i, fn, old, n: '%s:%d %s | %s -> %s' % (os.path.basename(p), i + 1, fn, old.strip(), n.strip())
live = set(l.rstrip('\n').split(' | ', 1)[1] for l in open('/tmp/fzmut.out') if l.startswith(('KILLED', 'TIMEOUT')))
done = set(l.rstrip('\n').split(' || ', 1)[1] for l in open(A[0]) if ' || ' in l)
todo = []
for p in files:
    if FLT in os.path.basename(p):
        L = open(p).read().split('\n')
        for i, n, fn in mutants(p):
            d = desc(p, i, fn, L[i], n)
            if d in live and d not in done: todo.append((p, i, n, fn, d))
random.Random(3).shuffle(todo)
todo = todo[:N]
print(len(todo), flush=True)


def own(P, nm): return ('.' + P + '.') in ('.' + nm)


def one(t):
    p, i, n, fn, ds = t
    d = tempfile.mkdtemp(prefix='fzm')
    try:
        shutil.copytree('/repo/src', d + '/src')
        q = d + p[len('/repo'):]
        L = open(q).read().split('\n'); L[i] = n
        open(q, 'w').write('\n'.join(L))
        o = d + '/' + os.path.basename(p) + '.o'
        subprocess.run(['clang'] + F + S + ['-I/repo/src', '-c', q, '-o', o], check=True, stderr=subprocess.DEVNULL)
        objs = [x for x in glob.glob(base + '/*.o') if os.path.basename(x) != os.path.basename(o)] + [o]
        subprocess.run(LD + objs + ['-o', d + '/fz'], check=True, stderr=subprocess.DEVNULL)
        r = subprocess.run(['python3-vt', '/tmp/propwork.py', fn, '/tmp/propbase.json'], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=900)
        obs = json.loads(r.stdout.strip().split('\n')[-1]) if r.stdout.strip() else [('?', 'error', r.stderr[-100:])]
        holes = []; broken = []
        for m in range(1, 23):
            P = 'C%02d' % m
            if not any(fn in B['inl'].get(f, []) or f == fn for f in CLO[P]): continue
            rel = [x for x in obs if x[0] in CLO[P] or x[0] == '?']
            kinds = KINDS.get(P)
            hard = [x for x in rel if x[1] == 'error' or own(P, x[2]) or (x[1] in kinds if kinds else x[1] != 'post')]
            if hard: continue              # the check would fail
            r = subprocess.run([d + '/fz', '-max_total_time=%d' % SECS, '-timeout=4', '-max_len=400', '-seed=1'], cwd=d, env=dict(os.environ, FZ_PROP=str(m)), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            if r.returncode: holes.append('%s%s' % (P, '?' if rel else '!'))
        # '?': only clauses of other properties fail (they are dropped first), '!': nothing fails at all
        res = ('HOLE ' + ' '.join(holes) + ' [' + '; '.join('%s:%s:%s' % tuple(x) for x in obs[:4]) + ']') if holes else 'ok'
    except Exception as x: res = 'ERR ' + repr(x)[:100]
    finally: shutil.rmtree(d)
    OUT.write('%s || %s\n' % (res, ds)); OUT.flush()


with ThreadPoolExecutor(JOBS) as ex: list(ex.map(one, todo))
shutil.rmtree(base)
