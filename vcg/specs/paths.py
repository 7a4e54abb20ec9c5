"""Path strings: definitions, lemmas about them (each proved), contracts of the path utilities."""
from specs.shell import *

LEMMAS = []          # (name, group, hypotheses, goal, axiom groups usable in the proof)


def lemma(name, group, vars, body, pats, proofs, deps):
    axiom(group, name, vars, body, pats)
    for lab, hyps, goal in proofs: LEMMAS.append(('%s/%s' % (name, lab), group, hyps, goal, deps))


isl = lambda s, k: If(sat(s, k) == 47, IV(1), IV(0))
lsl = Function('lsl', Str, I)           # position of the last slash, -1 without
sub = Function('sub', Str, I, Str)      # first k characters


def pathok(s): return And(slen(s) >= 1, sat(s, 0) == 47, sat(s, 1) != 47)


# ---- definitions (recursive ones are unfolded explicitly)
def cnt0(s): return cnt(s, 0) == 0
def cntU(s, k): return Implies(k >= 0, cnt(s, k + 1) == cnt(s, k) + isl(s, k + 1))


axiom('path', 'levels', [s_], levels(s_) == If(Or(s_ == Slash, slen(s_) == 0), IV(0), 1 + cnt(s_, slen(s_))), [levels(s_)])
axiom('path', 'cnt0', [s_], cnt(s_, 0) == 0, [cnt(s_, 0)])
axiom('path', 'pl', [s_, n_], And(Implies(n_ <= 0, pl(s_, n_) == 1), Implies(n_ >= 1, And(
    Implies(slen(s_) == 0, pl(s_, n_) == 0), Implies(slen(s_) >= 1, And(1 <= pl(s_, n_), pl(s_, n_) <= slen(s_))),
    Or(cnt(s_, pl(s_, n_)) >= n_, pl(s_, n_) == slen(s_))))), [pl(s_, n_)])
axiom('path', 'pl.least', [s_, n_, k_], Implies(And(n_ >= 1, k_ >= 1, k_ <= slen(s_), cnt(s_, k_) >= n_), pl(s_, n_) <= k_), [MultiPattern(pl(s_, n_), cnt(s_, k_))])
axiom('path', 'lev', [n_, s_], And(Implies(n_ <= 0, lev(n_, s_) == Slash), Implies(n_ >= 1, lev(n_, s_) == sub(s_, pl(s_, n_)))), [lev(n_, s_)])
axiom('path', 'sub.len', [s_, n_], Implies(And(0 <= n_, n_ <= slen(s_)), slen(sub(s_, n_)) == n_), [sub(s_, n_)])
axiom('path', 'sub.at', [s_, n_, k_], Implies(And(0 <= k_, k_ < n_, n_ <= slen(s_)), sat(sub(s_, n_), k_) == sat(s_, k_)), [sat(sub(s_, n_), k_)])
axiom('path', 'sub.at2', [s_, n_, k_], Implies(And(0 <= k_, k_ < n_, n_ <= slen(s_)), sat(sub(s_, n_), k_) == sat(s_, k_)), [MultiPattern(sub(s_, n_), sat(s_, k_))])
axiom('path', 'lsl', [s_], And(lsl(s_) >= -1, lsl(s_) < slen(s_), Implies(lsl(s_) >= 0, sat(s_, lsl(s_)) == 47)), [lsl(s_)])
axiom('path', 'lsl.last', [s_, k_], Implies(And(k_ > lsl(s_), k_ >= 0, k_ < slen(s_)), sat(s_, k_) != 47), [MultiPattern(lsl(s_), sat(s_, k_))])
axiom('path', 'up', [s_], up(s_) == If(slen(s_) == 1, Empty, If(lsl(s_) < 0, s_, If(lsl(s_) == 0, sub(s_, 1), sub(s_, lsl(s_))))), [up(s_)])
axiom('pathlem2', 'canon', [s_], canon(s_) == pathok(s_), [canon(s_)])

s1, s2 = Const('S1', Str), Const('S2', Str)
a1, b1 = Ints('A1', 'B1') if False else (Const('A1', I), Const('B1', I))
extS = ForAll([s_, t_], Implies(And(slen(s_) == slen(t_), s_ != t_), And(0 <= dif(s_, t_), dif(s_, t_) < slen(s_), sat(s_, dif(s_, t_)) != sat(t_, dif(s_, t_)))), patterns=[ext(s_, t_)])

# counting is monotone and at most the position
lemma('cnt.mono', 'pathlem', [s_, k_, n_], Implies(And(0 <= k_, k_ <= n_), And(0 <= cnt(s_, k_), cnt(s_, k_) <= cnt(s_, n_), cnt(s_, n_) <= n_)),
      [MultiPattern(cnt(s_, k_), cnt(s_, n_))],
      [('base', [a1 >= 0, Implies(a1 >= 1, BoolVal(True))], Implies(a1 == 0, And(cnt(s1, 0) == 0))),
       ('step', [0 <= a1, 0 <= cnt(s1, a1), cnt(s1, a1) <= a1, cntU(s1, a1)], And(cnt(s1, a1) <= cnt(s1, a1 + 1), 0 <= cnt(s1, a1 + 1), cnt(s1, a1 + 1) <= a1 + 1))],
      ['path'])
# equal prefixes have equal counts
agree = lambda s, t, n: ForAll([k_], Implies(And(1 <= k_, k_ <= n), sat(s, k_) == sat(t, k_)), patterns=[sat(s, k_), sat(t, k_)])
lemma('cnt.sub', 'pathlem', [s_, n_, k_], Implies(And(0 <= k_, k_ < n_, n_ <= slen(s_)), cnt(sub(s_, n_), k_) == cnt(s_, k_)),
      [cnt(sub(s_, n_), k_)],
      [('base', [b1 >= 1, b1 <= slen(s1)], cnt(sub(s1, b1), 0) == cnt(s1, 0)),
       ('step', [0 <= a1, a1 + 1 < b1, b1 <= slen(s1), cnt(sub(s1, b1), a1) == cnt(s1, a1), cntU(s1, a1), cntU(sub(s1, b1), a1)],
        cnt(sub(s1, b1), a1 + 1) == cnt(s1, a1 + 1))],
      ['str', 'path'])
# no slash behind the last one
lemma('cnt.last', 'pathlem', [s_, k_], Implies(And(k_ >= 0, lsl(s_) <= k_, k_ <= slen(s_)), cnt(s_, k_) == If(lsl(s_) >= 0, cnt(s_, lsl(s_)), IV(0))),
      [MultiPattern(lsl(s_), cnt(s_, k_))],
      [('base', [lsl(s1) >= 0], cnt(s1, lsl(s1)) == cnt(s1, lsl(s1))), ('base none', [lsl(s1) == -1], cnt(s1, 0) == 0),
       ('step', [a1 >= 0, lsl(s1) <= a1, a1 + 1 <= slen(s1), cnt(s1, a1) == If(lsl(s1) >= 0, cnt(s1, lsl(s1)), IV(0)), cntU(s1, a1), sat(s1, slen(s1)) == 0],
        cnt(s1, a1 + 1) == If(lsl(s1) >= 0, cnt(s1, lsl(s1)), IV(0)))],
      ['str', 'path'])
# the last level is the whole path
lemma('lev.full', 'pathlem2', [s_], Implies(And(slen(s_) >= 1, s_ != Slash), And(levels(s_) >= 1, pl(s_, levels(s_)) == slen(s_), lev(levels(s_), s_) == s_)),
      [levels(s_)],
      [('proof', [slen(s1) >= 1, s1 != Slash, ext(lev(levels(s1), s1), s1), cnt(s1, 0) == 0],
        And(levels(s1) >= 1, pl(s1, levels(s1)) == slen(s1), lev(levels(s1), s1) == s1))],
      ['str', 'path', 'pathlem'])
L1h = [pathok(s1), slen(s1) >= 1, cntU(s1, lsl(s1) - 1), cntU(up(s1), lsl(s1) - 1), cntU(s1, 0), cnt(s1, 0) == 0]
lemma('up.root', 'pathlem2', [s_], Implies(And(pathok(s_), levels(s_) == 1), And(s_ != Slash, up(s_) == Slash)), [MultiPattern(levels(s_), up(s_))],
      [('proof', L1h + [levels(s1) == 1, sat(sub(s1, 1), 0) == sat(sub(s1, 1), 0), ext(s1, Slash), ext(sub(s1, 1), Slash)], And(s1 != Slash, up(s1) == Slash))],
      ['str', 'path', 'pathlem'])
lemma('up.levels', 'pathlem2', [s_], Implies(And(pathok(s_), levels(s_) >= 2), And(up(s_) != Slash, pathok(up(s_)), slen(up(s_)) >= 2, levels(up(s_)) == levels(s_) - 1)), [MultiPattern(levels(s_), up(s_))],
      [('proof', L1h + [levels(s1) >= 2, levels(up(s1)) == levels(up(s1))], And(up(s1) != Slash, pathok(up(s1)), slen(up(s1)) >= 2, levels(up(s1)) == levels(s1) - 1))],
      ['str', 'path', 'pathlem'])
lemma('up.lev', 'pathlem2', [s_, i_], Implies(And(pathok(s_), i_ >= 1, i_ < levels(s_)), lev(i_, up(s_)) == lev(i_, s_)), [MultiPattern(lev(i_, s_), up(s_)), lev(i_, up(s_))],
      [('proof', L1h + [a1 >= 1, a1 < levels(s1), Hint(cnt(up(s1), pl(s1, a1))), Hint(cnt(s1, pl(up(s1), a1))), Hint(cnt(s1, lsl(s1))), Hint(cnt(sub(s1, lsl(s1)), pl(s1, a1))), ext(lev(a1, up(s1)), lev(a1, s1))], lev(a1, up(s1)) == lev(a1, s1))],
      ['str', 'path', 'pathlem'])

A1 = Const('AA1', AII)
lemma('S.cut', 'cut', [A_, i_, v_, o_], Implies(And(vs(A_, o_), v_ == 0, o_ <= i_, i_ <= zend(A_, o_)), S(Store(A_, i_, v_), o_) == sub(S(A_, o_), i_ - o_)), [S(Store(A_, i_, v_), o_)],
      [('proof', [vs(A1, a1), a1 <= b1, b1 <= zend(A1, a1), ext(S(Store(A1, b1, 0), a1), sub(S(A1, a1), b1 - a1))], S(Store(A1, b1, 0), a1) == sub(S(A1, a1), b1 - a1))],
      ['zend', 'str', 'path'])
lemma('pl.range', 'pathlem2', [s_, n_], Implies(slen(s_) >= 1, And(1 <= pl(s_, n_), pl(s_, n_) <= slen(s_))), [pl(s_, n_)],
      [('proof', [slen(s1) >= 1], And(1 <= pl(s1, a1), pl(s1, a1) <= slen(s1)))], ['str', 'path'])
lemma('slash', 'pathlem2', [s_], And(levels(s_) >= 0, (levels(s_) == 0) == Or(s_ == Slash, slen(s_) == 0)), [levels(s_)],
      [('proof', [Hint(cnt(s1, slen(s1))), Hint(slen(s1)), cnt(s1, 0) == 0], And(levels(s1) >= 0, (levels(s1) == 0) == Or(s1 == Slash, slen(s1) == 0)))], ['str', 'path', 'pathlem'])
lemma('up.slash', 'pathlem2', [s_], Implies(slen(s_) == 1, up(s_) == Empty), [up(s_)], [('proof', [slen(s1) == 1], up(s1) == Empty)], ['str', 'path'])
lemma('up.empty', 'pathlem2', [s_], Implies(And(pathok(s_), slen(s_) > 1), up(s_) != Empty), [up(s_)],
      [('proof', [pathok(s1), slen(s1) > 1, slen(Empty) == 0, Hint(slen(up(s1)))], up(s1) != Empty)], ['str', 'path'])


# ------------------------------------------------------------------ path utilities
def roomfor(p, n): return And(O(p) != 0, OFF(p) >= 0, OFF(p) + n <= bsize(O(p)), Not(cst(O(p))))


def t_is(c, p, S_):
    """p holds the text S_"""
    return And(c.t.cstr(p), c.t.S(p) == S_)


def dist(v, e): return OFF(v) - OFF(e)


def lc_inv(L):
    c = L.c; s0 = c.s
    S0 = s0.S(c.path)
    p, e = L.role('p'), L.role_e('p')
    d = OFF(p) - OFF(c.path)
    n = L.role('n')
    return [('position', And(O(p) == O(c.path), d >= 0, d <= slen(S0))),
            Clause('count', And(n == 1 + cnt(S0, d), 0 <= cnt(S0, d), cnt(S0, d) <= d), lem=[cntU(S0, d - 1), cnt0(S0), sat(S0, d) == s0.B(c.path, d)])]


def lc_inv2(L):
    """the character at p is not counted yet"""
    c = L.c; s0 = c.s
    S0 = s0.S(c.path)
    d = OFF(L.role('p')) - OFF(c.path); n = L.role('n')
    return [('position', And(O(L.role('p')) == O(c.path), d >= 1, d <= slen(S0))),
            Clause('count', And(n == 1 + cnt(S0, d - 1), 0 <= cnt(S0, d - 1), cnt(S0, d - 1) <= d), lem=[cntU(S0, d - 2), cnt0(S0), sat(S0, d - 1) == s0.B(c.path, d - 1)]),
            Clause('next', And(cntU(S0, d - 1), sat(S0, d) == s0.B(c.path, d)), lem=[cntU(S0, d - 1)])]


def lc_inv3(L):
    """the end is looked at behind the step"""
    S0 = L.c.s.S(L.c.path)
    d = OFF(L.role('p')) - OFF(L.c.path)
    return lc_inv(L) + [('before the end', d < slen(S0)), Clause('next', cntU(S0, d), lem=[cntU(S0, d)])]


contract('ush_utils_get_path_levels_count', ['path'], axioms=('zend', 'str', 'path'),
         requires=lambda c: [('text', c.s.cstr(c.path))],
         ensures=lambda c: [Clause('C07.levels', c.r == levels(c.s.S(c.path))), ('bounded', c.r <= slen(c.s.S(c.path)) + 1)],
         loops=[LoopSpec(v, roles=[('p', 'ptr', 'path'), ('n', 'int', 'count')], dec=lambda L: slen(L.c.s.S(L.c.path)) - (OFF(L.role('p')) - OFF(L.c.path))) for v in (lc_inv, lc_inv2, lc_inv3)])


def gl_inv(L):
    c = L.c; s0 = c.s
    S0 = s0.S(c.in_path)
    p, q, i = L.role('p'), L.role('q'), L.role('i')
    d = OFF(p) - OFF(c.in_path)
    A = L.s.A(c.out_path)
    return [('position', And(O(p) == O(c.in_path), d >= 0, d <= slen(S0), O(q) == O(c.out_path), OFF(q) == OFF(c.out_path) + d)),
            ('within the level', d <= pl(S0, c.level)),
            Clause('level', And(i == 1 + cnt(S0, d), 0 <= cnt(S0, d), cnt(S0, d) <= d), lem=[cntU(S0, d - 1), cnt0(S0), sat(S0, d) == s0.B(c.in_path, d)]),
            ('copied', ForAll([k_], Implies(And(k_ >= OFF(c.out_path), k_ < OFF(c.out_path) + d), Select(A, k_) == sat(S0, k_ - OFF(c.out_path))), patterns=[Select(A, k_)])),
            ('rest', ForAll([k_], Implies(Or(k_ < OFF(c.out_path), k_ >= OFF(c.out_path) + d), Select(A, k_) == Select(s0.A(c.out_path), k_)), patterns=[Select(A, k_)])),
            ]


def gl_inv2(L):
    """the level is looked at behind the step"""
    U = cntU(L.c.s.S(L.c.in_path), OFF(L.role('p')) - OFF(L.c.in_path))
    return gl_inv(L) + [('level not reached', L.role('i') <= L.c.level), Clause('next', U, lem=[U])]


contract('ush_utils_get_path_level', ['level', 'in_path', 'out_path'], axioms=('zend', 'str', 'path'),
         requires=lambda c: [('text', c.s.cstr(c.in_path)), ('room', roomfor(c.out_path, If(c.level == 0, IV(2), pl(c.s.S(c.in_path), c.level) + 1))),
                             ('no overlap', O(c.in_path) != O(c.out_path))],
         modifies=lambda c: [('B', O(c.out_path), OFF(c.out_path), OFF(c.out_path) + If(c.level == 0, IV(2), pl(c.s.S(c.in_path), c.level) + 1))],
         ensures=lambda c: [Clause('C09.level', t_is(c, c.out_path, lev(c.level, c.s.S(c.in_path))),
                                   lem=[ext(c.t.S(c.out_path), lev(c.level, c.s.S(c.in_path))), sat(c.s.S(c.in_path), pl(c.s.S(c.in_path), c.level)) == 0 if False else BoolVal(True)])],
         loops=[LoopSpec(v, roles=[('p', 'ptr', 'in_path'), ('q', 'ptr', 'out_path'), ('i', 'int', 'i')],
                         dec=lambda L: slen(L.c.s.S(L.c.in_path)) - (OFF(L.role('p')) - OFF(L.c.in_path))) for v in (gl_inv, gl_inv2)])


def pu_inv(L):
    c = L.c; S0 = c.s.S(c.path)
    n = L.role('n')
    return [('position', And(n >= 0, n <= slen(S0), n > lsl(S0))),
            ('unchanged', L.s.A(c.path) == c.s.A(c.path))]


contract('ush_utils_path_upper', ['path'], axioms=('zend', 'str', 'path', 'bridge'),
         requires=lambda c: [('text', c.s.cstr(c.path)), ('writable', Not(cst(O(c.path))))],
         modifies=lambda c: [('B', O(c.path), OFF(c.path), OFF(c.path) + c.s.strlen(c.path) + 1)],
         ensures=lambda c: [Clause('C07.parent path', t_is(c, c.path, up(c.s.S(c.path))), lem=[ext(c.t.S(c.path), up(c.s.S(c.path)))]),
                            ('shorter', slen(up(c.s.S(c.path))) <= slen(c.s.S(c.path)))],
         loops=[LoopSpec(pu_inv, roles=[('n', 'int', 'len')], dec=lambda L: L.role('n'))])


contract('ush_utils_join_path', ['in_path', 'name', 'out_path'], axioms=('zend', 'str', 'cat'),
         requires=lambda c: [('path', c.s.cstr(c.in_path)), ('name', c.s.cstr(c.a['name'])),
                             ('room', roomfor(c.out_path, slen(joinS(c.s.S(c.in_path), c.s.S(c.a['name']))) + 1)),
                             ('no overlap', And(O(c.in_path) != O(c.out_path), O(c.a['name']) != O(c.out_path)))],
         modifies=lambda c: [('B', O(c.out_path), OFF(c.out_path), OFF(c.out_path) + slen(joinS(c.s.S(c.in_path), c.s.S(c.a['name']))) + 1)],
         ensures=lambda c: [Clause('C11.joined', t_is(c, c.out_path, joinS(c.s.S(c.in_path), c.s.S(c.a['name']))),
                                   lem=[ext(c.t.S(c.out_path), joinS(c.s.S(c.in_path), c.s.S(c.a['name'])))])])

def sw_inv(L):
    c = L.c; p, q = L.role('p'), L.role('q')
    SP, SI = c.s.S(c.prefix), c.s.S(c.input)
    d = OFF(q) - OFF(c.prefix)
    return [('position', And(O(p) == O(c.input), O(q) == O(c.prefix), OFF(p) == OFF(c.input) + d, d >= 0, d <= slen(SP), d <= slen(SI))),
            ('equal so far', ForAll([k_], Implies(And(0 <= k_, k_ < d), sat(SP, k_) == sat(SI, k_)), patterns=[sat(SP, k_)])),
            ('here', And(Implies(d < slen(SP), sat(SP, d) == Select(c.s.A(c.prefix), OFF(q))), Implies(d < slen(SI), sat(SI, d) == Select(c.s.A(c.input), OFF(p)))))]


contract('ush_utils_startswith', ['input', 'prefix'], axioms=('zend', 'str', 'prefix'),
         requires=lambda c: [('text', c.s.cstr(c.input)), ('prefix', c.s.cstr(c.prefix))],
         ensures=lambda c: [('C17.prefix', c.r == prefixof(c.s.S(c.prefix), c.s.S(c.input)))],
         loops=[LoopSpec(sw_inv, roles=[('p', 'ptr', 'input'), ('q', 'ptr', 'prefix')], dec=lambda L: slen(L.c.s.S(L.c.prefix)) - (OFF(L.role('q')) - OFF(L.c.prefix)))])

contract('ush_utils_is_printable', ['ch'], ensures=lambda c: [('C14.printable', c.r == And(c.ch >= 0x20, c.ch <= 0x7e))])


def last_arg(c, A, b, e, r):
    """r is the position behind the last space of [b,e), b without one"""
    return And(r >= b, r <= e, Or(r == b, Select(A, r - 1) == 32), ForAll([k_], Implies(And(r <= k_, k_ < e), Select(A, k_) != 32), patterns=[Select(A, k_)]))


def la_inv(L):
    c = L.c
    n = L.role('n'); A = c.s.A(c.input); b = OFF(c.input); e = c.s.zend(c.input)
    return [('position', And(n >= 0, b + n < e)), ('no space behind', ForAll([k_], Implies(And(b + n < k_, k_ < e), Select(A, k_) != 32), patterns=[Select(A, k_)]))]


def la_inv2(L):
    """n characters are left to look at"""
    c = L.c
    n = L.role('n'); A = c.s.A(c.input); b = OFF(c.input); e = c.s.zend(c.input)
    return [('position', And(n >= 0, b + n <= e)), ('no space behind', ForAll([k_], Implies(And(b + n <= k_, k_ < e), Select(A, k_) != 32), patterns=[Select(A, k_)]))]


def la_fwd(L):
    c = L.c; A = c.s.A(c.input)
    i, r = L.role('i'), L.role('last')
    return [('range', And(i >= 0, i <= c.s.strlen(c.input), O(r) == O(c.input), OFF(r) >= OFF(c.input), OFF(r) <= OFF(c.input) + i, Or(OFF(r) == OFF(c.input), Select(A, OFF(r) - 1) == 32))),
            ('scanned', ForAll([k_], Implies(And(OFF(r) <= k_, k_ < OFF(c.input) + i), Select(A, k_) != 32), patterns=[Select(A, k_)]))]


contract('ush_utils_get_last_arg', ['input'], axioms=('zend',),
         requires=lambda c: [('text', c.s.cstr(c.input))],
         ensures=lambda c: [('C17.last word', And(O(c.r) == O(c.input), last_arg(c, c.s.A(c.input), OFF(c.input), c.s.zend(c.input), OFF(c.r))))],
         loops=[LoopSpec(la_inv, roles=[('n', 'int', 'len')], dec=lambda L: L.role('n')),
                LoopSpec(la_inv2, roles=[('n', 'int', 'len')], dec=lambda L: L.role('n')),
                LoopSpec(la_fwd, roles=[('i', 'int', 'i'), ('last', 'ptr', 'out')], dec=lambda L: L.c.s.strlen(L.c.input) - L.role('i'))])
