"""Sorts, heaps and the logical vocabulary (uninterpreted spec functions + axioms)."""
import z3
from z3 import (Int, IntVal, Bool, BoolVal, And, Or, Not, Implies, If, ForAll, Exists, Select, Store, Const,
                Function, IntSort, BoolSort, ArraySort, MultiPattern, Ints, simplify)
import os as _os, sys as _sys
_FA, _QID = ForAll, bool(_os.environ.get('VCG_QID'))


def _noite(e):
    return e.decl().kind() != z3.Z3_OP_ITE and all(map(_noite, e.children())) if z3.is_app(e) else True


def ForAll(vs_, body, patterns=(), **kw):
    if _QID:       # names of quantifiers, for profiling
        f = _sys._getframe(1)
        q = '%s_%d' % (_os.path.basename(f.f_code.co_filename)[:-3], f.f_lineno)
        if q.startswith('smt_'): q = 'ax_' + str(f.f_locals.get('name', f.f_lineno))
        kw['qid'] = q
    try:
        return _FA(vs_, body, patterns=patterns, **kw)
    except z3.Z3Exception:       # a conditional (of a path not yet split) cannot be in a pattern
        return _FA(vs_, body, patterns=[p for p in patterns if not isinstance(p, z3.PatternRef) and _noite(p)], **kw)


z3.set_param('smt.mbqi', False)
z3.set_param('auto_config', False)

_P = z3.Datatype('Ptr')
_P.declare('mk', ('obj', IntSort()), ('off', IntSort()))
Ptr = _P.create()
mk, pobj, poff = Ptr.mk, Ptr.obj, Ptr.off
NULL = mk(IntVal(0), IntVal(0))
I = IntSort()
B = BoolSort()
AII = ArraySort(I, I)          # inner byte arrays / int cells
AIP = ArraySort(I, Ptr)        # inner pointer cells
M8S = ArraySort(I, AII)
PCS = ArraySort(I, AIP)
Str = z3.DeclareSort('Str')

W64 = 1 << 64
W32 = 1 << 32

bsize = Function('bsize', I, I)      # number of byte cells of an object
psize = Function('psize', I, I)      # number of pointer cells of an object
isize = Function('isize', I, I)      # number of 64-bit integer cells
cst = Function('cst', I, B)          # read-only object (string constants, names, paths, texts)
okT = {}                             # valid struct pointer predicates


def ok(struct):
    if struct not in okT:
        okT[struct] = Function('ok.' + struct, Ptr, B)
    return okT[struct]


def O(p):
    """object of pointer, simplified if constructor application"""
    if z3.is_app(p) and p.decl().eq(mk):
        return p.arg(0)
    return pobj(p)


def OFF(p):
    if z3.is_app(p) and p.decl().eq(mk):
        return p.arg(1)
    return poff(p)


def padd(p, k):
    o = OFF(p)
    if isinstance(k, int):
        if k == 0: return mk(O(p), o)
        k = IntVal(k)
    return mk(O(p), simplify(o + k))


cmem = Function('cmem', I, AII)      # rigid content of read-only objects
CONST_IDS = set()                    # ids of objects known to be read-only


def inner(M, o):
    """M[o] peeling syntactic stores"""
    if M.sort().eq(M8S) and z3.is_int_value(o) and o.as_long() in CONST_IDS:
        return cmem(o)
    while z3.is_app(M) and M.decl().kind() == z3.Z3_OP_STORE:
        idx = M.arg(1)
        if idx.eq(o):
            return M.arg(2)
        if z3.is_int_value(idx) and z3.is_int_value(o) and idx.as_long() != o.as_long():
            M = M.arg(0); continue
        break
    return Select(M, o)


def sel(A, i):
    while z3.is_app(A) and A.decl().kind() == z3.Z3_OP_STORE:
        idx = A.arg(1)
        if idx.eq(i):
            return A.arg(2)
        if z3.is_int_value(idx) and z3.is_int_value(i) and idx.as_long() != i.as_long():
            A = A.arg(0); continue
        break
    return Select(A, i)


# ------------------------------------------------------------------ strings
zend = Function('zend', AII, I, I)          # least zero position >= o (if any)
S = Function('S', AII, I, Str)              # abstract string starting at o
slen = Function('slen', Str, I)
sat = Function('sat', Str, I, I)
Empty = Const('Empty', Str)
Slash = Const('SlashStr', Str)
ext = Function('ext', Str, Str, B)          # extensionality hint (always true)
dif = Function('dif', Str, Str, I)          # witness of difference


def vs(A, o):
    """a NUL exists at or after o in A"""
    return And(zend(A, o) >= o, Select(A, zend(A, o)) == 0)


A_, B_ = Const('A', AII), Const('B', AII)
o_, k_, i_, v_, j_, n_ = Ints('o k i v j n')
s_, t_, u_ = Const('s', Str), Const('t', Str), Const('u', Str)
p_, q_, r_ = Const('p', Ptr), Const('q', Ptr), Const('r', Ptr)

AX = {}


def axiom(group, name, vars, body, pats):
    AX.setdefault(group, []).append((name, ForAll(vars, body, patterns=pats)))


axiom('zend', 'zend.least', [A_, o_, k_],
      Implies(And(k_ >= o_, Select(A_, k_) == 0),
              And(zend(A_, o_) >= o_, zend(A_, o_) <= k_, Select(A_, zend(A_, o_)) == 0)),
      [MultiPattern(zend(A_, o_), Select(A_, k_))])
axiom('zend', 'zend.store', [A_, i_, v_, o_],
      Implies(And(vs(A_, o_), Or(i_ < o_, i_ > zend(A_, o_))),
              zend(Store(A_, i_, v_), o_) == zend(A_, o_)),
      [zend(Store(A_, i_, v_), o_)])
axiom('zend', 'zend.store0', [A_, i_, v_, o_],
      Implies(And(v_ == 0, vs(A_, o_), i_ >= o_, i_ <= zend(A_, o_)),
              zend(Store(A_, i_, v_), o_) == i_),
      [zend(Store(A_, i_, v_), o_)])
axiom('zend', 'zend.suffix', [A_, o_, k_],
      Implies(And(vs(A_, o_), o_ <= k_, k_ <= zend(A_, o_)), And(zend(A_, k_) == zend(A_, o_))),
      [MultiPattern(zend(A_, o_), zend(A_, k_))])

axiom('str', 'S.len', [A_, o_], Implies(vs(A_, o_), slen(S(A_, o_)) == zend(A_, o_) - o_), [S(A_, o_)])
axiom('str', 'S.at', [A_, o_, k_],
      Implies(And(vs(A_, o_), 0 <= k_, k_ <= slen(S(A_, o_))), sat(S(A_, o_), k_) == Select(A_, o_ + k_)),
      [sat(S(A_, o_), k_)])
axiom('bridge', 'S.at2', [A_, o_, k_],
      Implies(And(vs(A_, o_), o_ <= k_, k_ <= zend(A_, o_)), sat(S(A_, o_), k_ - o_) == Select(A_, k_)),
      [MultiPattern(S(A_, o_), Select(A_, k_))])
Hint = Function('Hint', I, B)        # always true, mentions a term
axiom('str', 'S.store', [A_, i_, v_, o_],
      Implies(And(vs(A_, o_), Or(i_ < o_, i_ > zend(A_, o_))), S(Store(A_, i_, v_), o_) == S(A_, o_)),
      [S(Store(A_, i_, v_), o_)])
axiom('str', 'slen.nonneg', [s_], slen(s_) >= 0, [slen(s_)])
axiom('str', 'sat.end', [s_], sat(s_, slen(s_)) == 0, [slen(s_)])
axiom('str', 'sat.range', [s_, k_], Implies(And(0 <= k_, k_ < slen(s_)), sat(s_, k_) != 0),
      [sat(s_, k_)])
axiom('str', 'empty', [s_], Implies(slen(s_) == 0, s_ == Empty), [slen(s_)])
axiom('str', 'slash', [s_], Implies(And(slen(s_) == 1, sat(s_, 0) == 47), s_ == Slash), [slen(s_)])
AX['str'].append(('consts', And(slen(Empty) == 0, slen(Slash) == 1, sat(Slash, 0) == 47, sat(Slash, 1) == 0)))
axiom('str', 'ext', [s_, t_],
      And(ext(s_, t_),
          Implies(And(slen(s_) == slen(t_), s_ != t_),
                  And(0 <= dif(s_, t_), dif(s_, t_) < slen(s_), sat(s_, dif(s_, t_)) != sat(t_, dif(s_, t_))))),
      [ext(s_, t_)])

# bit operations on small naturals (exact where used)
ior = Function('ior', I, I, I)
axiom('bits', 'ior.nibble', [i_, j_],
      And(Implies(And(i_ % 16 == 0, 0 <= j_, j_ < 16, i_ >= 0), ior(i_, j_) == i_ + j_),
          Implies(And(j_ % 16 == 0, 0 <= i_, i_ < 16, j_ >= 0), ior(i_, j_) == i_ + j_),
          Implies(i_ == 0, ior(i_, j_) == j_), Implies(j_ == 0, ior(i_, j_) == i_),
          Implies(And(0 <= i_, i_ < 256, 0 <= j_, j_ < 256), And(0 <= ior(i_, j_), ior(i_, j_) < 256))),
      [ior(i_, j_)])
iand = Function('iand', I, I, I)
axiom('bits', 'iand', [i_, j_],
      And(Implies(And(0 <= i_, 0 <= j_), And(0 <= iand(i_, j_), iand(i_, j_) <= i_, iand(i_, j_) <= j_)),
          Implies(And(0 <= i_, j_ == 15), iand(i_, j_) == i_ % 16),
          Implies(And(0 <= i_, i_ < 256, j_ == 240), iand(i_, j_) == i_ - i_ % 16),
          Implies(And(0 <= i_, j_ == 255), iand(i_, j_) == i_ % 256)),
      [iand(i_, j_)])

_ctr = [0]


def fresh(name, sort):
    _ctr[0] += 1
    return Const('%s!%d' % (name, _ctr[0]), sort)


def consts_of(e, cache={}):
    """names of uninterpreted constants in e"""
    out = set(); seen = set(); st = [e]
    while st:
        x = st.pop()
        h = x.get_id()
        if h in seen: continue
        seen.add(h)
        if z3.is_quantifier(x):
            st.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                st.extend(x.children())
    return out


def has_quant(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False
