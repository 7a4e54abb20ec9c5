"""Development tool: which mutants of /repo/src does the replay search (falsify/h.c) notice?
fzmut.py OUT [JOBS] [FILESUBSTR]"""
import sys, os, subprocess, tempfile, shutil, glob, random
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.argv, A = [sys.argv[0]], sys.argv[1:]
src = open(H + '/mutate.py').read().replace('\nmain()\n', '\n')
exec(compile(src, 'mutate', 'exec'))
MODES = {'ush_cmd_cat': 12, 'ush_cmd_echo': 13, 'ush_cmd_xxd': 14, 'ush_cmd_ls': 15, 'ush_cmd_help': 16, 'ush_cmd_cd': 10, 'ush_cmd_pwd': 10, 'autocomp': 17, 'parse': 3, 'read': 2, 'mount': 9, 'ush_commands': 19, 'ush_node.c': 7, 'ush_file': 11, 'ush.c': 18, 'write': 5}
F = ['-g', '-w', '-DUSH_CONFIG_PLATFORM_POSIX']
S = ['-O1', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=function']
LD = ['clang', '-fsanitize=fuzzer,address,undefined'] + ['-Wl,--wrap=' + x for x in ('malloc', 'calloc', 'realloc', 'free')]
out = open(A[0], 'w'); jobs = int(A[1]) if len(A) > 1 else 7; flt = A[2] if len(A) > 2 else ''
base = tempfile.mkdtemp(prefix='fzbase')
subprocess.run(['clang'] + F + ['-I/repo/src', '-O2', '-c', R + '/falsify/h.c', '-o', base + '/h.o'], check=True)
files = [os.path.join(d, f) for d, _, fs in os.walk('/repo/src') for f in fs if f.endswith('.c')]
for f in files: subprocess.run(['clang'] + F + S + ['-I/repo/src', '-c', f, '-o', base + '/' + os.path.basename(f) + '.o'], check=True)
todo = [(p,) + t for p in files if flt in os.path.basename(p) for t in mutants(p)]
random.Random(1).shuffle(todo)
print(len(todo))


def one(t):
    p, i, n, fn = t
    d = tempfile.mkdtemp(prefix='fzm')
    try:
        L = open(p).read().split('\n'); old = L[i]; L[i] = n
        q = d + '/' + os.path.basename(p); open(q, 'w').write('\n'.join(L))
        o = d + '/' + os.path.basename(p) + '.o'
        if subprocess.run(['clang'] + F + S + ['-I/repo/src', '-c', q, '-o', o], stderr=subprocess.DEVNULL).returncode: res = 'NOCOMPILE'
        else:
            objs = [x for x in glob.glob(base + '/*.o') if os.path.basename(x) != os.path.basename(o)] + [o]
            subprocess.run(LD + objs + ['-o', d + '/fz'], check=True, stderr=subprocess.DEVNULL)
            m = [v for k, v in MODES.items() if k in os.path.basename(p)][:1] or [0]
            res = 'SURVIVED'
            for mode, secs in ((m[0], 7), (0, 5)):
                r = subprocess.run([d + '/fz', '-max_total_time=%d' % secs, '-timeout=4', '-max_len=400', '-seed=1'], cwd=d, env=dict(os.environ, FZ_PROP=str(mode)), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
                if r.returncode:
                    e = r.stderr.decode('latin1')
                    res = 'KILLED mode %d %s' % (mode, ([l for l in e.split('\n') if 'DEVIATION' in l or 'ASSERT' in l or 'ERROR' in l] or ['?'])[0][:90]); break
    except Exception as x: res = 'ERR ' + repr(x)[:100]
    finally: shutil.rmtree(d)
    out.write('%s | %s:%d %s | %s -> %s\n' % (res, os.path.basename(p), i + 1, fn, old.strip(), n.strip())); out.flush()


with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, todo))
shutil.rmtree(base)
