"""Resolution of typed paths and names."""
from specs.collapse import *

NAX = ('zend', 'str', 'cat', 'pathlem2', 'fd', 'prefix')
strip = Function('strip', Str, Str)
axiom('strip', 'strip', [s_], strip(s_) == If(And(slen(s_) > 1, sat(s_, slen(s_) - 1) == 47), sub(s_, slen(s_) - 1), s_), [strip(s_)])


def cur(s, me): return s.ob(me, 'current_node')
def absT(s, me, S_): return If(sat(S_, 0) == 47, S_, joinS(P(s, cur(s, me)), S_))
def absS(s, me, S_): return If(slen(absT(s, me, S_)) + 1 > pml(s, me), Empty, norm(strip(absT(s, me, S_))))
def mounted(s, me): return And(root(s, me) != NULL)
def shell(s, me): return pre(s, me) + [('mounted', mounted(s, me))]


contract('ush_node_get_absolute_path', ['self', 'in_path', 'out_path'], axioms=('zend', 'str', 'cat', 'strip', 'path', 'cut', 'fd'),
         requires=lambda c: shell(c.s, c.self) + [('path', c.s.cstr(c.in_path)), ('room', roomfor(c.out_path, pml(c.s, c.self))), ('no overlap', O(c.in_path) != O(c.out_path))],
         modifies=lambda c: [('B', O(c.out_path), OFF(c.out_path), OFF(c.out_path) + pml(c.s, c.self))],
         ensures=lambda c: [Clause('C07.absolute path', t_is(c, c.out_path, absS(c.s, c.self, c.s.S(c.in_path)))),
                            ('C08.fits', And(c.t.cstr(c.out_path), c.t.strlen(c.out_path) < pml(c.s, c.self))),
                            ('C08.too long gives nothing', Implies(slen(absT(c.s, c.self, c.s.S(c.in_path))) + 1 > pml(c.s, c.self), c.t.B(c.out_path) == 0)),
                            ('C07.starts with a slash', Implies(slen(absT(c.s, c.self, c.s.S(c.in_path))) + 1 <= pml(c.s, c.self), c.t.B(c.out_path) == 47))])


def target(s, me, S_):
    """node the directory argument names"""
    a = absS(s, me, S_)
    return If(Or(slen(S_) == 0, a == Empty), NULL, findnode(s, me, a))


contract('ush_node_set_current_dir', ['self', 'path'], axioms=NAX,
         requires=lambda c: shell(c.s, c.self) + [('path', c.s.cstr(c.path))],
         modifies=lambda c: mod_ob(c.self, 'current_node'),
         ensures=lambda c: [('C10.directory', c.t.ob(c.self, 'current_node') == If(target(c.s, c.self, c.s.S(c.path)) != NULL, target(c.s, c.self, c.s.S(c.path)), cur(c.s, c.self))),
                            ('C10.result', c.r == If(target(c.s, c.self, c.s.S(c.path)) != NULL, E('OK'), E('ERROR_NODE_NOT_FOUND'))),
                            ('C10.still mounted', current(c.t, c.self)),
                            ('C08.too long is not found', Implies(slen(absT(c.s, c.self, c.s.S(c.path))) + 1 > pml(c.s, c.self), And(c.r == E('ERROR_NODE_NOT_FOUND'), same(c, 'current_node'))))])


# ------------------------------------------------------------------ names
AFD = ArraySort(Ptr, Ptr)
H_ = Const('H', AFD)
X_, Y_, Z_ = Const('X', AFD), Const('Y', AFD), Const('Z', ArraySort(Ptr, I))
fm = Function('fm', AFD, Ptr, I, Str, I)              # first file of a list with a name
fmj = Function('fmj', AFD, Ptr, I, Str, Str, I)       # first file of a list whose path below a directory is given
cf = Function('cf', AFD, AFD, AFD, ArraySort(Ptr, I), Ptr, Str, Ptr)            # command lookup from a group on
ff = Function('ff', AFD, AFD, AFD, AFD, ArraySort(Ptr, I), Ptr, Str, Ptr)       # file lookup from a node on
fat = lambda p, k: mk(pobj(p), poff(p) + k)
axiom('names', 'fm', [H_, p_, n_, s_], Implies(n_ >= 0, And(0 <= fm(H_, p_, n_, s_), fm(H_, p_, n_, s_) <= n_,
                                                            Implies(fm(H_, p_, n_, s_) < n_, cS(Select(H_, fat(p_, fm(H_, p_, n_, s_)))) == s_))), [fm(H_, p_, n_, s_)])
axiom('names', 'fm.first', [H_, p_, n_, s_, k_], Implies(And(poff(p_) <= k_, k_ < poff(p_) + fm(H_, p_, n_, s_)), cS(Select(H_, mk(pobj(p_), k_))) != s_),
      [MultiPattern(fm(H_, p_, n_, s_), Select(H_, mk(pobj(p_), k_)))])
axiom('names', 'fmj', [H_, p_, n_, t_, s_], Implies(n_ >= 0, And(0 <= fmj(H_, p_, n_, t_, s_), fmj(H_, p_, n_, t_, s_) <= n_,
                                                                 Implies(fmj(H_, p_, n_, t_, s_) < n_, joinS(t_, cS(Select(H_, fat(p_, fmj(H_, p_, n_, t_, s_))))) == s_))), [fmj(H_, p_, n_, t_, s_)])
axiom('names', 'fmj.first', [H_, p_, n_, t_, s_, k_], Implies(And(poff(p_) <= k_, k_ < poff(p_) + fmj(H_, p_, n_, t_, s_)), joinS(t_, cS(Select(H_, mk(pobj(p_), k_)))) != s_),
      [MultiPattern(fmj(H_, p_, n_, t_, s_), Select(H_, mk(pobj(p_), k_)))])


def names(s): return s.F('ush_file_descriptor', 'name')
def fname(s, p): return cS(s.fd(p, 'name'))
def CF(s, g, N): return cf(names(s), s.F(ND, 'next'), s.F(ND, 'file_list'), s.F(ND, 'file_list_size'), g, N)
def FF(s, n, A): return ff(names(s), s.F(ND, 'path'), s.F(ND, 'next'), s.F(ND, 'file_list'), s.F(ND, 'file_list_size'), n, A)


def CFU(s, g, N):
    i = fm(names(s), s.nd(g, 'file_list'), s.nd(g, 'file_list_size'), N)
    return CF(s, g, N) == If(g == NULL, NULL, If(i < s.nd(g, 'file_list_size'), fat(s.nd(g, 'file_list'), i), CF(s, s.nd(g, 'next'), N)))


def FFU(s, n, A):
    i = fmj(names(s), s.nd(n, 'file_list'), s.nd(n, 'file_list_size'), P(s, n), A)
    return FF(s, n, A) == If(n == NULL, NULL, If(i < s.nd(n, 'file_list_size'), fat(s.nd(n, 'file_list'), i), FF(s, s.nd(n, 'next'), A)))


def FIND(s, me, N):
    """the file a name means"""
    g = CF(s, s.ob(me, 'commands'), N)
    A = absS(s, me, N)
    return If(g != NULL, g, FF(s, findparent(s, me, A), A))


def hint(f): return Clause('definition', f, goal=BoolVal(True))


def N_(L): return L.c.s.S(L.c.a['name'])


def cmd_outer(L):
    c = L.c; s = c.s; me = c.self
    cu = L.role('cur')
    return [('group', Implies(cu != NULL, C(s, cu))), hint(CFU(s, cu, N_(L))), ('nothing found yet', CF(s, s.ob(me, 'commands'), N_(L)) == CF(s, cu, N_(L)))]


def cmd_inner(L):
    c = L.c; s = c.s
    cu, i = L.role('cur'), L.role('i')
    return [('index', And(i >= 0, i <= fm(names(s), s.nd(cu, 'file_list'), s.nd(cu, 'file_list_size'), N_(L))))]


def file_outer(L):
    c = L.c; s = c.s; me = c.self
    cu = L.role('cur')
    A = absS(s, me, N_(L))
    return [('node', Implies(cu != NULL, T(s, cu))), hint(FFU(s, cu, A)), ('nothing found yet', FF(s, findparent(s, me, A), A) == FF(s, cu, A))]


def file_inner(L):
    c = L.c; s = c.s; me = c.self
    cu, i = L.role('cur'), L.role('i')
    A = absS(s, me, N_(L))
    return [('index', And(i >= 0, i <= fmj(names(s), s.nd(cu, 'file_list'), s.nd(cu, 'file_list_size'), P(s, cu), A)))]


contract('ush_file_find_by_name', ['self', 'name'], axioms=NAX + ('names',),
         requires=lambda c: shell(c.s, c.self) + [('name', c.s.cstr(c.a['name']))],
         modifies=lambda c: [('G', 'nf'), ('G', 'lf'), ('G', 'lfn')],
         ghost=lambda c: dict(nf=c.s.g('nf') + 1, lf=c.r, lfn=c.s.S(c.a['name'])),
         ensures=lambda c: [('C11.resolved file', c.r == FIND(c.s, c.self, c.s.S(c.a['name']))),
                            ('valid', Implies(c.r != NULL, fdok(c.r))),
                            ('lookup', And(c.t.g('nf') == c.s.g('nf') + 1, c.t.g('lf') == c.r, c.t.g('lfn') == c.s.S(c.a['name'])))],
         loops=[LoopSpec(cmd_outer, roles=[('cur', 'ptr', 'curr')], dec=lambda L: crkm(L.c.s, L.role('cur'))),
                LoopSpec(cmd_inner, roles=[('i', 'int', 'i'), ('cur', 'outerptr:curr')], dec=lambda L: L.c.s.nd(L.role('cur'), 'file_list_size') - L.role('i')),
                LoopSpec(file_outer, roles=[('cur', 'ptr', 'curr')], dec=lambda L: rkm(L.c.s, L.role('cur'))),
                LoopSpec(file_inner, roles=[('i', 'int', 'i'), ('cur', 'outerptr:curr')], dec=lambda L: L.c.s.nd(L.role('cur'), 'file_list_size') - L.role('i'))])
