"""Replay search: after a failed obligation, looks for a concrete session on the real code that breaks the property.

It decides nothing: a property is judged by its obligations alone.  falsify/h.c is compiled with /repo's sources
(address and undefined-behaviour sanitizers) and libFuzzer drives scripted sessions through it, comparing every byte
and callback with a reference model.  A hit becomes the failing input in the replay file."""
import os, subprocess, shutil, tempfile, time, glob, base64
HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(os.path.dirname(HERE), 'falsify', 'h.c')
REPO = os.environ.get('VERIF_REPO', '/repo')


def build(d):
    src = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(REPO, 'src')) for f in fs if f.endswith('.c')]
    F = ['-g', '-w', '-DUSH_CONFIG_PLATFORM_POSIX', '-I' + os.path.join(REPO, 'src')]
    ps = [subprocess.Popen(['clang'] + F + ['-O2', '-c', H, '-o', d + '/h.o'], stderr=subprocess.DEVNULL)]
    for i, c in enumerate(src):
        ps.append(subprocess.Popen(['clang'] + F + ['-O1', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=function', '-c', c, '-o', '%s/s%d.o' % (d, i)], stderr=subprocess.DEVNULL))
    if any([p.wait() for p in ps]): return None
    exe = d + '/fz'
    r = subprocess.run(['clang', '-fsanitize=fuzzer,address,undefined'] + ['-Wl,--wrap=' + x for x in ('malloc', 'calloc', 'realloc', 'free')] + glob.glob(d + '/*.o') + ['-o', exe], stderr=subprocess.DEVNULL)
    return exe if r.returncode == 0 else None


def search(prop, seed, budget, jobs=None):
    jobs = jobs or min(8, os.cpu_count() or 1)
    d = tempfile.mkdtemp(prefix='falsify')
    ps = []
    try:
        exe = build(d)
        if not exe: return None
        env = dict(os.environ, FZ_PROP=str(int(prop[1:])))
        env.pop('FZ_V', None)
        t0 = time.time()
        hit = None
        for j in range(jobs):
            w = '%s/w%d' % (d, j); os.mkdir(w)
            ps.append(subprocess.Popen([exe, '-seed=%d' % (seed * 1000 + j + 1), '-max_len=400', '-timeout=10', '-rss_limit_mb=2500', '-max_total_time=%d' % int(budget), '-print_final_stats=0'],
                                       cwd=w, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        while time.time() - t0 < budget + 20:
            time.sleep(0.2)
            f = glob.glob(d + '/w*/crash-*') + glob.glob(d + '/w*/timeout-*')
            if f: hit = sorted(f)[0]; break
            if all(p.poll() is not None for p in ps): break
        for p in ps: p.kill()
        for p in ps: p.wait()
        if not hit: return None
        # the hit must repeat on its own
        r = subprocess.run([exe, '-timeout=10', hit], cwd=d, env=dict(env, FZ_V='1'), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
        if r.returncode == 0: return None
        out = [l for l in r.stderr.decode('latin1').split('\n') if not l.startswith(('INFO', 'Running', exe, '/tmp'))]
        txt = '\n'.join(l for l in out)
        return ('FAILING INPUT for %s, found on the real code (falsify/h.c, FZ_PROP=%s, libFuzzer input, base64): %s\n'
                'session (bytes typed, operations, and where it departs from the property):\n%s') % (prop, env['FZ_PROP'], base64.b64encode(open(hit, 'rb').read()).decode(), txt[:20000])
    finally:
        for p in ps:
            if p.poll() is None: p.kill(); p.wait()
        shutil.rmtree(d, ignore_errors=True)
