"""seed.py make [ID..] : writes /verif/seeded/ID from tools/seeds.py
seed.py test [ID..] : confirms them in a scratch copy (builds, stable tests pass, demo tells apart)
seed.py run [ID..] : runs the property's check against each (VERIF_REPO=scratch copy)"""
import sys, os, json, shutil, subprocess, tempfile
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path.insert(0, H)
from seeds import SEEDS
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix='seed')
    sh('cp -a /repo %s/repo' % d)
    return d


def make(ids):
    d = copy()
    for i, (prop, edits, demo, needs, breaks) in SEEDS.items():
        if ids and i not in ids: continue
        sh('git -C %s/repo checkout -q -- .' % d)
        for f, old, new in edits:
            p = '%s/repo/src/src/%s' % (d, f)
            t = open(p).read()
            assert t.count(old) == 1, (i, f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        o = '%s/seeded/%s' % (R, i)
        shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        open(o + '/patch.diff', 'w').write(sh('git -C %s/repo diff' % d).stdout)
        shutil.copy(H + '/seedlib/sh.h', o); shutil.copy(H + '/seedlib/demo.sh', o)
        open(o + '/demo.c', 'w').write(demo.lstrip())
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)


def test(ids):
    d = copy()
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    env = dict(os.environ)
    for i in sorted(SEEDS):
        if ids and i not in ids: continue
        sh('git -C %s/repo checkout -q -- .' % d)
        o = '%s/seeded/%s' % (R, i)
        a = sh('sh %s/demo.sh' % o, cwd=d + '/repo')
        ap = sh('git -C %s/repo apply %s/patch.diff' % (d, o))
        b = sh('sh %s/demo.sh' % o, cwd=d + '/repo')
        # builds and tests in place of /repo: bind by path rewriting of the scripts
        sh("sed 's#/repo#%s/repo#g' /opt/vp/build.sh > %s/build.sh; sed 's#/repo#%s/repo#g; s#/opt/vp/build.sh#%s/build.sh#' /opt/vp/test.sh > %s/test.sh; rm -rf %s/repo/_build" % (d, d, d, d, d, d))
        t = sh('bash %s/test.sh %s/o.json' % (d, d))
        try:
            ps = set(json.load(open(d + '/o.json'))['passed'])
        except Exception:
            ps = set()
        miss = base - ps
        print(i, SEEDS[i][0], 'OK' if a.returncode == 0 and b.returncode not in (0, 2) and not miss and ap.returncode == 0 else 'BAD', a.returncode, b.returncode, len(miss),
              '' if a.returncode == 0 else a.stdout[-300:], b.stdout.strip()[-120:].replace('\n', ' | '), sorted(miss)[:4], flush=True)
    shutil.rmtree(d)


def run(ids):
    d = copy()
    for i in sorted(SEEDS):
        if ids and i not in ids: continue
        sh('git -C %s/repo checkout -q -- .; git -C %s/repo apply %s/seeded/%s/patch.diff' % (d, d, R, i))
        props = [SEEDS[i][0]]
        if os.environ.get('ALL'): props = [c['property'] for c in json.load(open(R + '/MANIFEST.json'))['checks']]
        for p in props:
            r = sh('%s/check %s' % (R, p), env=dict(os.environ, VERIF_REPO=d + '/repo'))
            l = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            if p == SEEDS[i][0] or r.returncode: print(i, p, r.returncode, l, r.stdout.splitlines()[-1:], '\n     ', (r.stdout.splitlines() or [''])[0][:200], flush=True)
    shutil.rmtree(d)


if __name__ == '__main__': globals()[sys.argv[1]](sys.argv[2:])
