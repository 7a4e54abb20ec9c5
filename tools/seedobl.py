"""seedobl.py [ID..] : for each planted bug the obligations that fail in the functions of the files it touches (quick pass, no search)"""
import sys, os, re, json, subprocess, tempfile, shutil
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path.insert(0, R + '/vcg')


def child(files):
    sys.setrecursionlimit(20000)
    import verify
    from engine import CONTRACTS
    w = verify.setup()
    fns = []
    for f in files:
        t = open('/repo/' + f).read()
        fns += [m for m in re.findall(r'^[a-z][\w \*]*?(\w+)\(', t, re.M) if m in CONTRACTS]
        fns += [g for g in CONTRACTS if g in w.m.funcs and g not in fns and not CONTRACTS[g].trusted and 'autocomp' in f and 'autocomp' in g]
    frs = verify.fast(w, sorted(set(fns)), int(os.environ.get('NP', '4')))
    out = []
    for fn, r in frs.items():
        for o in r.failed:
            x = '%s: %s' % (fn, r.error if o is None else o.kind + ' ' + o.name)
            if x not in out: out.append(x)
    print('RESULT ' + json.dumps(out)); sys.stdout.flush(); os._exit(0)


if __name__ == '__main__':
    if sys.argv[1:2] == ['--child']: child(sys.argv[2:])
    ids = sys.argv[1:] or sorted(os.listdir(R + '/seeded'))
    for i in ids:
        d = tempfile.mkdtemp(prefix='seedobl')
        shutil.copytree('/repo/src', d + '/src')
        pf = '%s/seeded/%s/patch.diff' % (R, i)
        files = re.findall(r'^\+\+\+ b/(\S+)', open(pf).read(), re.M)
        subprocess.run(['patch', '-s', '-p1', '-d', d, '-i', pf], check=True)
        r = subprocess.run(['python3-vt', os.path.abspath(__file__), '--child'] + files, env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        l = [x[7:] for x in r.stdout.split('\n') if x.startswith('RESULT ')]
        p = json.load(open('%s/seeded/%s/meta.json' % (R, i)))['property']
        o = json.loads(l[0]) if l else ['ERROR ' + r.stdout[-300:]]
        mine = [x for x in o if '.%s.' % p in '.' + x.split(' ', 2)[-1] or ' %s.' % p in x]
        print('| %s | %s | %s | %d |' % (i, p, '; '.join((mine or o)[:2]), len(o)), flush=True)
        shutil.rmtree(d)
