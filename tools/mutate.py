"""Development tool: mutates /repo/src line by line and reports the mutants no contract notices.
mutate.py [-n MAX] [-f FILESUBSTR] [-o OUT]: each mutant is verified (only the functions it touches)."""
import sys, os, re, json, shutil, subprocess, tempfile, random
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
V = os.path.join(R, 'vcg')
RULES = [(r' == ', [' != ']), (r' != ', [' == ']), (r' <= ', [' < ']), (r' >= ', [' > ']), (r' < ', [' <= ', ' != ']), (r' > ', [' >= ']),
         (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r'\+\+', ['--']), (r'--', ['++']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ', ' = ']),
         (r'\b1\b', ['0', '2']), (r'\b0\b', ['1']), (r'\b([2-9])\b', ['(\\1 - 1)', '(\\1 + 1)']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
         (r'->next\b', ['']), (r'\bbreak;', [';']), (r'!', ['']), (r' % ', [' / '])]
FN = re.compile(r'^[a-z].*?\b(ush_\w+)\s*\(')


def mutants(path):
    L = open(path).read().split('\n')
    fn = None
    states = sorted(set(re.findall(r'USH_STATE_\w+', open('/repo/src/inc/ush_internal.h').read()))) or []
    for i, l in enumerate(L):
        m = FN.match(l)
        if m and not l.rstrip().endswith(';'): fn = m.group(1)
        if l.startswith('}'): fn = None
        s = l.strip()
        if fn is None or not s or s.startswith(('USH_ASSERT', '//', '/*', '*', '#')) or FN.match(l): continue
        for pat, reps in RULES:
            for k, m in enumerate(re.finditer(pat, l)):
                if k > 2: break
                for r in reps:
                    n = l[:m.start()] + m.expand(r) + l[m.end():]
                    if n != l: yield i, n, fn
        if s.endswith(';') and not s.startswith(('return', 'break', 'for')) and not re.match(r'^(const |struct |size_t |int |char |bool |ush_\w+_t |uint\w+ )', s):
            yield i, re.match(r'\s*', l).group(0) + ';', fn
        if s.startswith('if (') and s.endswith('{'):
            yield i, re.sub(r'if \(.*\) \{$', 'if (1) {', l), fn
            yield i, re.sub(r'if \(.*\) \{$', 'if (0) {', l), fn
        for m in re.finditer(r'USH_STATE_\w+|USH_STATUS_\w+', l):
            base = m.group(0)
            for r in (['USH_STATE_RESET', 'USH_STATE_RESET_PROMPT', 'USH_STATE_READ_PREPARE', 'USH_STATE_PROCESS_FINISH'] if 'STATE_' in base else ['USH_STATUS_OK', 'USH_STATUS_ERROR_NODE_NOT_FOUND']):
                if r != base: yield i, l[:m.start()] + r + l[m.end():], fn


WORK = r'''
import sys, json
sys.path.insert(0, %r); sys.setrecursionlimit(20000)
import verify, solve, z3
from engine import CONTRACTS
from verify import attempt
fn0, inl = sys.argv[1], json.load(open(sys.argv[2]))
try:
    w = verify.setup()
except Exception as x:
    print('NOCOMPILE', str(x)[-200:].replace('\n', ' ')); sys.exit()
fns = [f for f in inl if f == fn0 or fn0 in inl[f]]
if not fns: print('UNCOVERED'); sys.exit()
for f in fns:
    r = attempt(w, f, {})
    if r.error: print('KILLED', f, 'unsupported', r.error[:100]); sys.exit()
    for o in r.eng.obls:
        if o.res == 'trivial': continue
        d = solve.discharge(o, r.extra, t1=4, cvc=False, full=False)
        if d['result'] != 'proved': print('KILLED', f, o.label(), d['reason']); sys.exit()
print('SURVIVED', ' '.join(fns))
'''


def baseline():
    p = '/tmp/mutbase.json'
    if not os.path.exists(p):
        code = 'import sys,json\nsys.path.insert(0,%r)\nsys.setrecursionlimit(20000)\nimport verify\nfrom engine import CONTRACTS\nw=verify.setup()\nd={}\nfor f,c in CONTRACTS.items():\n  if c.trusted: continue\n  r=verify.attempt(w,f,{})\n  d[f]=sorted(r.eng.inlined) if r.eng else []\njson.dump(d,open(%r,"w"))\n' % (V, p)
        subprocess.run(['python3-vt', '-c', code], check=True)
    return p


def main():
    a = sys.argv[1:]
    opt = {a[i]: a[i + 1] for i in range(0, len(a) - 1, 2)}
    base = baseline()
    wp = '/tmp/mutwork.py'; open(wp, 'w').write(WORK % V)
    todo = []
    for d, _, fs in os.walk('/repo/src/src'):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith('.c') and opt.get('-f', '') in f:
                for i, n, fn in mutants(p): todo.append((p, i, n, fn))
    random.Random(int(opt.get('-s', '1'))).shuffle(todo)
    todo = todo[:int(opt.get('-n', '100000'))]
    out = open(opt.get('-o', '/tmp/mut.out'), 'w')
    print(len(todo), 'mutants')

    def one(t):
        p, i, n, fn = t
        d = tempfile.mkdtemp(prefix='mutw')
        try:
            shutil.copytree('/repo/src', d + '/src')
            q = d + p[len('/repo'):]
            L = open(q).read().split('\n'); old = L[i]; L[i] = n
            open(q, 'w').write('\n'.join(L))
            try:
                r = subprocess.run(['python3-vt', wp, fn, base], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=600)
                res = (r.stdout.strip().split('\n') or [''])[-1] or 'ERR ' + r.stderr[-200:]
            except subprocess.TimeoutExpired:
                res = 'TIMEOUT'
        finally:
            shutil.rmtree(d)
        out.write('%s | %s:%d %s | %s -> %s\n' % (res, os.path.basename(p), i + 1, fn, old.strip(), n.strip())); out.flush()
    with ThreadPoolExecutor(int(opt.get('-j', '8'))) as ex: list(ex.map(one, todo))


main()
