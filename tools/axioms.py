"""Development tool: evaluates the trusted axioms of the specification vocabulary (vcg/smt.py, vcg/specs) and the explicit
unfoldings of its recursive definitions in the intended model (arrays of integers, strings as sequences of non-zero integers) on
random values.  An axiom that the intended model violates would be printed.  axioms.py [N] [SEED]"""
import sys, os, random
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H + '/../vcg'); sys.setrecursionlimit(20000)
import z3, verify, smt
from engine import *
import specs.paths as P, specs.collapse as CO, specs.print as PR
N = int(sys.argv[1]) if len(sys.argv) > 1 else 400
R = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
w = verify.setup()


class Arr:
    def __init__(s, d, default): s.d = {k: v for k, v in d.items() if v != default}; s.default = default
    def get(s, k): return s.d.get(k, s.default)
    def put(s, k, v): return Arr({**s.d, k: v}, s.default) if v != s.default else Arr({x: y for x, y in s.d.items() if x != k}, s.default)
    def __eq__(s, o): return s.default == o.default and s.d == o.d
    def __hash__(s): return hash((s.default, tuple(sorted(s.d.items()))))


class Mem:           # pointer-valued array: names of the files of a list
    def __init__(s, d): s.d = d
    def get(s, p): return s.d.get(p, (0, 0))


class HMem(Mem): pass


def zend(A, o):
    ks = [k for k, v in A.d.items() if v == 0 and k >= o]
    if A.default == 0:
        k = o
        while A.get(k) != 0: k += 1
        return k
    return min(ks) if ks else o - 1


def S_(A, o):
    z = zend(A, o)
    return tuple(A.get(k) for k in range(o, z)) if z >= o else (7, 7)


def sat(s, k): return s[k] if 0 <= k < len(s) else 0
def cnt(s, k): return sum(1 for i in range(1, k + 1) if sat(s, i) == 47)
def levels(s): return 0 if s == (47,) or not s else 1 + cnt(s, len(s))
def pl(s, n):
    if n <= 0: return 1
    if not s: return 0
    return next((k for k in range(1, len(s) + 1) if cnt(s, k) >= n), len(s))
def sub(s, n): return s[:max(n, 0)]
def lev(n, s): return (47,) if n <= 0 else sub(s, pl(s, n))
def lsl(s): return max([i for i, x in enumerate(s) if x == 47] or [-1])
def up(s):
    if len(s) == 1: return ()
    l = lsl(s)
    return s if l < 0 else s[:1] if l == 0 else s[:l]
def sp(s, k):
    if k < 0: return False
    return sat(s, k) == 47 and not (k > 0 and sp(s, k - 1))
def ncs(s, k): return sum(1 for i in range(0, k) if sp(s, i))
def cs(s, j):
    for k in range(0, len(s)):
        if sp(s, k) and ncs(s, k) == j: return k + 1
    return -5
def ns(s, n): return next((k for k in range(max(n, 0), len(s)) if sp(s, k)), len(s))
def subr(s, a, b): return s[a:b] if 0 <= a <= b else ()
DOT, DOTDOT = (46,), (46, 46)
def comp(s, j): return subr(s, cs(s, j), ns(s, cs(s, j)))
def dep(s, j):
    d = 0
    for i in range(0, j):
        c = comp(s, i)
        d = max(d - 1, 0) if c == DOTDOT else d if c == DOT else d + 1
    return d
def stk(s, j, n):
    r = 0
    for i in range(0, j):
        if comp(s, i) not in (DOT, DOTDOT) and n == dep(s, i): r = i
    return r
def bld(s, d):
    out = ()
    for i in range(0, d): out += (47,) + comp(s, stk(s, ncs(s, len(s)), i))
    return out
def norm(s):
    d = dep(s, ncs(s, len(s)))
    return (47,) if s == (47,) or d == 0 else bld(s, d)
def strip(s): return s[:-1] if len(s) > 1 and s[-1] == 47 else s
CM = {}
def cmem(o): return CM.get(o, Arr({}, 0))
def name_at(H_, p, k): q = H_.get((p[0], p[1] + k)); return S_(cmem(q[0]), q[1])
def joined(t, s): return (47,) + s if t == (47,) else t + (47,) + s
def fm(H_, p, n, s): return next((k for k in range(0, n) if name_at(H_, p, k) == s), max(n, 0))
def fmj(H_, p, n, t, s): return next((k for k in range(0, n) if joined(t, name_at(H_, p, k)) == s), max(n, 0))
def hexv(c): return int(chr(c), 16) if 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102 else 0
def dec(T, k):
    st = v = n = 0; out = []
    for i in range(0, k):
        ch = sat(T, i)
        emit = (st == 0 and ch != 92) or (st == 1 and ch != 120) or st == 3
        if emit: out.append(v + hexv(ch) if st == 3 else ch)
        if st == 2: v = hexv(ch) * 16
        st = (1 if ch == 92 else 0) if st == 0 else (2 if ch == 120 else 0) if st == 1 else 3 if st == 2 else 0
    return st, v, out
FDOK = set(); FL = {}
def flok(p, n): return all((p[0], k) in FDOK for k in range(p[1], p[1] + n)) and p[0] >= 1000 and n >= 0 and p[1] >= 0
F = dict(zend=zend, S=S_, slen=len, sat=sat, Empty=lambda: (), SlashStr=lambda: (47,), ext=lambda a, b: True,
         dif=lambda a, b: next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), -1), Hint=lambda x: True, HintS=lambda x: True, unf=lambda a, b: True,
         ior=lambda a, b: a | b if a >= 0 and b >= 0 else (b if a == 0 else a), iand=lambda a, b: a & b if a >= 0 and b >= 0 else 0, cat=lambda a, b: a + b,
         prefixof=lambda a, b: b[:len(a)] == a, cnt=cnt, levels=levels, pl=pl, lev=lev, sub=sub, lsl=lsl, up=up, sp=sp, ncs=ncs, cs=cs, ns=ns, subr=subr, dep=dep, stk=stk,
         bld=bld, norm=norm, strip=strip, cmem=cmem, fm=fm, fmj=fmj, flok=flok, canon=lambda s: len(s) >= 1 and s[0] == 47 and sat(s, 1) != 47,
         DotStr=lambda: DOT, DotDotStr=lambda: DOTDOT, obj=lambda p: p[0], off=lambda p: p[1], mk=lambda a, b: (a, b),
         ds=lambda T, k: dec(T, k)[0], dv=lambda T, k: dec(T, k)[1], dn=lambda T, k: len(dec(T, k)[2]), dout=lambda T, m: (dec(T, len(T))[2] + [0] * (m + 1))[m] if m >= 0 else 0)
F['ok.ush_file_descriptor'] = lambda p: p in FDOK
K = z3


def ev(e, env):
    if z3.is_quantifier(e):
        srt = [e.var_sort(i) for i in range(e.num_vars())]
        assert len(srt) == 1 and srt[0] == z3.IntSort()
        rs = [ev(e.body(), env + [k]) for k in range(-2, 14)]
        return all(rs) if e.is_forall() else any(rs)
    if z3.is_var(e): return env[len(env) - 1 - z3.get_var_index(e)]
    if z3.is_int_value(e): return e.as_long()
    k = e.decl().kind(); a = e.children()
    if k == K.Z3_OP_TRUE: return True
    if k == K.Z3_OP_FALSE: return False
    if k == K.Z3_OP_AND: return all(ev(x, env) for x in a)
    if k == K.Z3_OP_OR: return any(ev(x, env) for x in a)
    if k == K.Z3_OP_NOT: return not ev(a[0], env)
    if k == K.Z3_OP_IMPLIES: return (not ev(a[0], env)) or ev(a[1], env)
    if k == K.Z3_OP_ITE: return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
    v = [ev(x, env) for x in a]
    if k in (K.Z3_OP_EQ, K.Z3_OP_IFF): return v[0] == v[1]
    if k == K.Z3_OP_DISTINCT: return v[0] != v[1]
    if k == K.Z3_OP_LE: return v[0] <= v[1]
    if k == K.Z3_OP_LT: return v[0] < v[1]
    if k == K.Z3_OP_GE: return v[0] >= v[1]
    if k == K.Z3_OP_GT: return v[0] > v[1]
    if k == K.Z3_OP_ADD: return sum(v)
    if k == K.Z3_OP_SUB: return v[0] - sum(v[1:])
    if k == K.Z3_OP_MUL: return v[0] * v[1]
    if k == K.Z3_OP_UMINUS: return -v[0]
    if k == K.Z3_OP_MOD: return v[0] % v[1]
    if k == K.Z3_OP_IDIV: return v[0] // v[1]
    if k == K.Z3_OP_SELECT: return v[0].get(v[1])
    if k == K.Z3_OP_STORE: return v[0].put(v[1], v[2])
    nm = e.decl().name()
    if nm == 'mk' or nm in F: return F[nm](*v)
    raise Exception('no meaning for ' + nm)


CH = [47, 47, 47, 46, 46, 97, 98, 92, 120, 52, 300]


def rstr():
    r = R.random()
    if r < .1: return ()
    if r < .2: return (47,)
    if r < .6: return tuple(x for _ in range(R.randint(1, 4)) for x in [47] + list(R.choice([(97,), (46,), (46, 46), (98, 97), (46, 97), (47, 97), ()])))
    return tuple(R.choice(CH) for _ in range(R.randint(0, 7)))


def val(s):
    n = str(s)
    if n == 'Int': return R.choice([0, 0, 1, 2, 3, 4, 5, 6, 8, 15, 16, 240, 255, -1, -2]) if R.random() < .7 else R.randint(-2, 9)
    if n == 'Str': return rstr()
    if n == 'Array(Int, Int)':
        d = {}
        for k in range(-2, 10): d[k] = R.choice(CH + [0, 0])
        return Arr(d, R.choice([0, 5, 5]))
    if n == 'Ptr': return (R.choice([0, 1000, 1001]), R.randint(0, 3))
    if n == 'Array(Ptr, Ptr)': return Mem({(o, k): (R.choice([2000, 2001, 2002]), R.randint(0, 2)) for o in (0, 1000, 1001) for k in range(-1, 10)})
    raise Exception('sort ' + n)


def world():
    for o in (2000, 2001, 2002): CM[o] = Arr({k: R.choice([97, 98, 46, 0]) for k in range(0, 5)}, 0)
    FDOK.clear()
    for o in (1000, 1001):
        for k in range(0, 6):
            if R.random() < .8: FDOK.add((o, k))


def main():
    bad = 0; tot = 0
    proved = {(l[1], l[0].split('/')[0]) for l in P.LEMMAS}
    items = []
    for g, l in smt.AX.items():
        for nm, a in l: items.append(('%s %s%s' % (g, nm, ' (proved lemma)' if (g, nm) in proved else ''), a))
    s, k = z3.Const('s', smt.Str), z3.Int('k')
    for nm, f in (('spU', CO.spU), ('ncsU', CO.ncsU), ('depU', CO.depU), ('bldU', CO.bldU), ('cntU', P.cntU), ('decU', PR.decU)):
        items.append(('unfolding ' + nm, z3.ForAll([s, k], f(s, k))))
    for nm, a in items:
        fired = 0
        for i in range(N):
            world()
            if z3.is_quantifier(a):
                env = [val(a.var_sort(j)) for j in range(a.num_vars())]
                b = a.body()
                if z3.is_implies(b):
                    if not ev(b.arg(0), env): continue
                fired += 1
                r = ev(b, env)
            else:
                env = []; fired += 1; r = ev(a, env)
            tot += 1
            if not r:
                bad += 1; print('VIOLATED', nm, env); break
        print('%-40s %d instances' % (nm, fired))
    print(tot, 'instances checked,', bad, 'violated')
    return 1 if bad else 0


if __name__ == '__main__': sys.exit(main())
