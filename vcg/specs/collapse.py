"""Normalisation of paths."""
from specs.cmds import *

sp = Function('sp', Str, I, B)          # a separator: a slash that is not the first character of a component
ncs = Function('ncs', Str, I, I)        # separators before position k
cs = Function('cs', Str, I, I)          # start of component j
ns = Function('ns', Str, I, I)          # first separator at or behind k, or the end
subr = Function('subr', Str, I, I, Str)
dep = Function('dep', Str, I, I)        # components left after the first j
stk = Function('stk', Str, I, I, I)     # which ones
bld = Function('bld', Str, I, Str)      # "/c/c/c" of the first d components left at the end
norm = Function('norm', Str, Str)
Dot, DotDot = Const('DotStr', Str), Const('DotDotStr', Str)
PREV = lambda T, k: And(k > 0, sp(T, k - 1))


def spU(T, k): return Implies(k >= 0, sp(T, k) == And(sat(T, k) == 47, Not(And(k > 0, sp(T, k - 1)))))
def ncsU(T, k): return And(ncs(T, 0) == 0, Implies(k >= 0, ncs(T, k + 1) == ncs(T, k) + If(sp(T, k), IV(1), IV(0))), Implies(And(k >= 0, sp(T, k)), cs(T, ncs(T, k)) == k + 1))
def comp(T, j): return subr(T, cs(T, j), ns(T, cs(T, j)))
def normal(T, j): return And(comp(T, j) != Dot, comp(T, j) != DotDot)


def depU(T, j):
    d = dep(T, j)
    return And(dep(T, 0) == 0, Implies(j >= 0, And(
        dep(T, j + 1) == If(comp(T, j) == DotDot, If(d > 0, d - 1, IV(0)), If(comp(T, j) == Dot, d, d + 1)),
        unf(T, j))))


unf = Function('unf', Str, I, B)        # always true, unfolds stk
axiom('norm', 'stk', [s_, k_, j_, n_], And(unf(s_, k_), Implies(And(k_ >= 0, j_ == k_ + 1), stk(s_, j_, n_) == If(And(normal(s_, k_), n_ == dep(s_, k_)), k_, stk(s_, k_, n_)))),
      [MultiPattern(unf(s_, k_), stk(s_, j_, n_))])


def ncomp(T): return ncs(T, slen(T))
def bldU(T, d): return And(bld(T, 0) == Empty, Implies(d >= 0, bld(T, d + 1) == cat(cat(bld(T, d), Slash), comp(T, stk(T, ncomp(T), d)))))


axiom('norm', 'ns', [s_, n_], Implies(And(0 <= n_, n_ <= slen(s_)), And(n_ <= ns(s_, n_), ns(s_, n_) <= slen(s_), Implies(ns(s_, n_) < slen(s_), sp(s_, ns(s_, n_))))), [ns(s_, n_)])
axiom('norm', 'ns.first', [s_, n_, k_], Implies(And(0 <= n_, n_ <= k_, k_ < slen(s_), sp(s_, k_)), ns(s_, n_) <= k_), [MultiPattern(ns(s_, n_), sp(s_, k_))])
axiom('norm', 'subr.len', [s_, k_, n_], Implies(And(0 <= k_, k_ <= n_, n_ <= slen(s_)), slen(subr(s_, k_, n_)) == n_ - k_), [subr(s_, k_, n_)])
axiom('norm', 'subr.at', [s_, k_, n_, i_], Implies(And(0 <= k_, k_ <= n_, n_ <= slen(s_), 0 <= i_, i_ < n_ - k_), sat(subr(s_, k_, n_), i_) == sat(s_, k_ + i_)), [sat(subr(s_, k_, n_), i_)])
AX['norm'].append(('dots', And(slen(Dot) == 1, sat(Dot, 0) == 46, slen(DotDot) == 2, sat(DotDot, 0) == 46, sat(DotDot, 1) == 46)))
axiom('norm', 'dot', [s_], Implies(And(slen(s_) == 1, sat(s_, 0) == 46), s_ == Dot), [slen(s_)])
axiom('norm', 'dotdot', [s_], Implies(And(slen(s_) == 2, sat(s_, 0) == 46, sat(s_, 1) == 46), s_ == DotDot), [slen(s_)])
axiom('normdef', 'norm', [s_], norm(s_) == If(Or(s_ == Slash, dep(s_, ncomp(s_)) == 0), Slash, bld(s_, dep(s_, ncomp(s_)))), [norm(s_)])


def split_inv(L):
    c = L.c; s0 = c.s
    T_ = s0.S(c.in_path); b = OFF(c.in_path); n = slen(T_)
    p = L.role('p'); ix = L.role('ix'); st = L.role('st'); nodes = L.role('nodes')
    d = OFF(p) - b
    A = L.s.A(c.in_path)
    un = [spU(T_, d - 1), ncsU(T_, d - 1), cntU(T_, d - 2), cnt0(T_)]
    j = Const('jj', I); j2 = Const('jk', I)
    return [('position', And(O(p) == O(c.in_path), d >= 0, d <= n)),
            Clause('state', And(Or(st == 0, st == 1), (st == 1) == PREV(T_, d), Implies(st == 1, cs(T_, ix) == d)), lem=un),
            Clause('index', And(ix >= 0, ix + st == ncs(T_, d), ncs(T_, d) <= If(d == 0, IV(0), 1 + cnt(T_, d - 1)), Implies(d >= 1, 0 <= cnt(T_, d - 1))), lem=un),
            Clause('separators cut', And(ForAll([k_], Implies(And(k_ >= 0, k_ < d), Select(A, b + k_) == If(sp(T_, k_), IV(0), sat(T_, k_))), patterns=[sp(T_, k_)]),
                                         ForAll([k_], Implies(And(k_ >= b, k_ < b + d), Select(A, k_) == If(sp(T_, k_ - b), IV(0), sat(T_, k_ - b))), patterns=[Select(A, k_)])), lem=un),
            ('rest unchanged', ForAll([k_], Implies(Or(k_ < b, k_ >= b + d), Select(A, k_) == Select(s0.A(c.in_path), k_)), patterns=[Select(A, k_)])),
            Clause('components', ForAll([j], Implies(And(0 <= j, j < ix), And(L.s.cell(nodes, j) == mk(O(c.in_path), b + cs(T_, j)), cs(T_, j) >= 1, cs(T_, j) < d, cs(T_, j) <= n)),
                                        patterns=[cs(T_, j), L.s.cell(nodes, j)]), lem=un),
            Clause('one behind the other', ForAll([j, j2], Implies(And(0 <= j, j < j2, j2 < ix), ns(T_, cs(T_, j)) < cs(T_, j2)), patterns=[MultiPattern(cs(T_, j), cs(T_, j2))]), lem=un)]


def fold_inv(L, low=lambda i: IV(0)):
    """nodes[low..] are the components"""
    c = L.c; s0 = c.s
    T_ = s0.S(c.in_path); b = OFF(c.in_path); n = slen(T_)
    i, m, ix = L.role('i'), L.role('m'), L.role('ix'); no = L.role('no'); nodes = L.role('nodes')
    A = L.s.A(c.in_path)
    j = Const('jj', I); d, d2 = Const('dd', I), Const('de', I)
    Sj = S(A, b + cs(T_, j))
    un = [depU(T_, i - 1)]
    cst_ = And(vs(A, b + cs(T_, j)), zend(A, b + cs(T_, j)) == b + ns(T_, cs(T_, j)), ns(T_, cs(T_, j)) <= n)
    return [Clause('all components', And(ix == ncs(T_, n), ix <= levels(T_)), lem=[spU(T_, n - 1), ncsU(T_, n - 1), Hint(cnt(T_, n)), Hint(cnt(T_, n - 1))]),
            Clause('bounds', ForAll([j], Implies(And(0 <= j, j < ix), And(Implies(j >= low(i), L.s.cell(nodes, j) == mk(O(c.in_path), b + cs(T_, j))), cs(T_, j) >= 1, cs(T_, j) <= n)),
                                    patterns=[cs(T_, j), L.s.cell(nodes, j)])),
            Clause('order', ForAll([j, d], Implies(And(0 <= j, j < d, d < ix), ns(T_, cs(T_, j)) < cs(T_, d)), patterns=[MultiPattern(cs(T_, j), cs(T_, d))])),
            Clause('texts', ForAll([j], Implies(And(0 <= j, j < ix), And(cst_, Sj == comp(T_, j))), patterns=[Sj, comp(T_, j)]),
                   goal=ForAll([j], Implies(And(0 <= j, j < ix), And(cst_, Implies(ext(Sj, comp(T_, j)), Sj == comp(T_, j)))), patterns=[Sj])),
            Clause('count', And(i >= 0, i <= ix, m == dep(T_, i), m >= 0, m <= i), lem=un),
            Clause('kept', ForAll([d], Implies(And(0 <= d, d < m), And(0 <= stk(T_, i, d), stk(T_, i, d) < i, L.s.cell(no, d) == mk(O(c.in_path), b + cs(T_, stk(T_, i, d))))), patterns=[stk(T_, i, d), L.s.cell(no, d)]), lem=un),
            Clause('kept in order', ForAll([d, d2], Implies(And(0 <= d, d < d2, d2 < m), stk(T_, i, d) < stk(T_, i, d2)), patterns=[MultiPattern(stk(T_, i, d), stk(T_, i, d2))]), lem=un)]


def fold_inv2(L):
    """the components left replace those looked at"""
    return fold_inv(L, lambda i: i)


def build_inv(L):
    c = L.c; s0 = c.s
    T_ = s0.S(c.in_path)
    i, m = L.role('i'), L.role('m')
    N = ncomp(T_)
    out = c.out_path
    un = [bldU(T_, i - 1), Hint(stk(T_, N, i - 2)), Hint(stk(T_, N, i - 1)), Hint(cs(T_, stk(T_, N, i - 2))), Hint(cs(T_, stk(T_, N, i - 1))),
          Hint(slen(comp(T_, stk(T_, N, i - 1)))), Hint(slen(bld(T_, i - 1)))]
    lim = If(i == 0, IV(0), ns(T_, cs(T_, stk(T_, N, i - 1))))
    return [('range', And(i >= 0, i <= m)),
            Clause('built', And(L.s.cstr(out), L.s.S(out) == bld(T_, i), lim <= slen(T_), slen(bld(T_, i)) <= lim), lem=un),
            Clause('hints', And(Hint(cs(T_, stk(T_, N, i))), Hint(cs(T_, stk(T_, N, i - 1))), Hint(slen(comp(T_, stk(T_, N, i))))), goal=BoolVal(True)),
            ('starts with a slash', Implies(i >= 1, L.s.B(out) == 47))]


contract('ush_utils_get_collapse_path', ['in_path', 'out_path'], axioms=('zend', 'str', 'cat', 'path', 'pathlem', 'norm', 'normdef'),
         requires=lambda c: [('path', And(c.s.cstr(c.in_path), c.s.strlen(c.in_path) >= 1, Not(cst(O(c.in_path))))),
                             ('room', roomfor(c.out_path, c.s.strlen(c.in_path) + 1)), ('no overlap', O(c.in_path) != O(c.out_path))],
         modifies=lambda c: [('B', O(c.in_path), OFF(c.in_path), OFF(c.in_path) + c.s.strlen(c.in_path) + 1),
                             ('B', O(c.out_path), OFF(c.out_path), OFF(c.out_path) + c.s.strlen(c.in_path) + 1)],
         ensures=lambda c: [('C07.normalised', t_is(c, c.out_path, norm(c.s.S(c.in_path)))),
                            ('C08.not longer', c.t.strlen(c.out_path) <= c.s.strlen(c.in_path)),
                            ('C07.absolute', c.t.B(c.out_path) == 47)],
         loops=[LoopSpec(split_inv, roles=[('p', 'ptr', 'in_path'), ('ix', 'int', 'index'), ('st', 'int', 'state'), ('nodes', 'array', 0)],
                         dec=lambda L: slen(L.c.s.S(L.c.in_path)) - (OFF(L.role('p')) - OFF(L.c.in_path))),
                LoopSpec(fold_inv, roles=[('i', 'int', 'i'), ('m', 'int', 'count'), ('ix', 'outer:index'), ('nodes', 'array', 0), ('no', 'array', 1)], dec=lambda L: L.role('ix') - L.role('i')),
                LoopSpec(build_inv, roles=[('i', 'int', 'i'), ('m', 'outer:count')], dec=lambda L: L.role('m') - L.role('i')),
                LoopSpec(fold_inv2, roles=[('i', 'int', 'i'), ('m', 'int', 'count'), ('ix', 'outer:index'), ('nodes', 'array', 0), ('no', 'array', 1)], dec=lambda L: L.role('ix') - L.role('i'))])
