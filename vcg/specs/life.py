"""Initialisation and deinitialisation of an instance."""
from specs.builtin import *
import specs.base as _b

SUBF = Function('sub.ush_object.buildin_commands', Ptr, Ptr)


def embedded(s, me):
    """the node object inside the instance"""
    return nodeok(SUBF(me))


def table():
    return _b.W.gptr('g_ush_buildin_commands')


def entries():
    """the table of built-in commands: a list of dictionaries of its constant initialisers"""
    m = _b.W.m
    ty, init, const, _ = m.globals['g_ush_buildin_commands']
    if not const or not init or init[0] != 'arr': return None
    out = []
    for ety, ev in init[1]:
        d = {}
        for fi, nm in enumerate(m.fields['ush_file_descriptor']):
            v = ev[1][fi][1] if ev[0] == 'struct' else ('null',)
            d[nm] = None if v[0] in ('null', 'zero') else v[1]
        out.append(d)
    return out


def text(g):
    if g is None: return None
    b = _b.W.gbytes(g)
    return b[:b.index(0)].decode('latin-1') if b is not None and 0 in b and _b.W.is_opt_const(g) else None


def table_ok():
    """checks on the constant table, decided by looking at it"""
    t = entries()
    out = [('C21.table is constant', t is not None)]
    if t is None: return out
    fn = lambda n, k: (BUILTIN[n] + k) if BUILTIN[n] + k in _b.W.fid else None
    have = [n for n in BUILTIN if fn(n, '_callback')]
    names_ = [text(d['name']) for d in t]
    out += [('C21.table has %s once' % n, names_.count(n) == 1) for n in have]
    out += [('C21.table has nothing else', len(t) == len(have))]
    for d in t:
        n = text(d['name'])
        out += [('C21.%s has texts' % n, n is not None and all(d[k] is None or text(d[k]) is not None for k in ('description', 'help'))),
                ('C21.%s has its callbacks' % n, n in BUILTIN and d['exec'] == fn(n, '_callback') and d['process'] == fn(n, '_service') and d['get_data'] is None and d['set_data'] is None)]
    return out


def zero(t, n, fs=NDF): return And(*[t.nd(n, f) == (IV(0) if f == 'file_list_size' else NULL) for f in fs])


NOTHING = z3.K(Ptr, BoolVal(False))


def init_post(c):
    s, t, me = c.s, c.t, c.self
    em = SUBF(me)
    n = _b.W.m.globals['g_ush_buildin_commands'][0].n
    return [('C21.descriptor', t.ob(me, 'desc') == c.a['desc']),
            ('C21.nothing is mounted', And(t.ob(me, 'root') == NULL, t.ob(me, 'current_node') == NULL, ForAll([n1], Not(T(t, n1)), patterns=[T(t, n1)]))),
            ('C21.exactly the built-in commands', And(t.ob(me, 'commands') == em, t.nd(em, 'next') == NULL, t.nd(em, 'file_list') == table(), t.nd(em, 'file_list_size') == n,
                                                     ForAll([n1], C(t, n1) == (n1 == em), patterns=[C(t, n1)]))),
            ('C21.banner', queued_text(t, me, BANNER, E('RESET_PROMPT')))] + \
           [(n_, BoolVal(bool(b))) for n_, b in table_ok()] + [('C21.' + n_, f) for n_, f in pre(t, me)] + [('C21.' + n_, f) for n_, f in local_inv(t, me)]


contract('ush_init', ['self', 'desc'], axioms=NAX,
         requires=lambda c: [('self', And(ok('ush_object')(c.self), per(c.self), embedded(c.s, c.self))), ('descriptor', desc_ok(c.s, c.a['desc'])),
                             ('nothing registered', And(ForAll([n1], Not(T(c.s, n1)), patterns=[T(c.s, n1)]), ForAll([n1], Not(C(c.s, n1)), patterns=[C(c.s, n1)]))),
                             ('counters', And(c.s.g('rkc') >= 0, c.s.g('ckc') >= 0))],
         facts=lambda c: [flok(table(), IV(_b.W.m.globals['g_ush_buildin_commands'][0].n))],
         modifies=lambda c: mod_ob(c.self, 'desc', 'root', 'commands', 'current_node', *WFRAME) + [('F', ND, x, SUBF(c.self)) for x in ('file_list', 'file_list_size', 'path', 'next')] + [('G', g) for g in CMD_G],
         ensures=init_post)

# ------------------------------------------------------------------ deinit
GHOST_SORTS.update({'g.d' + f: ArraySort(Ptr, Ptr) for f in ('parent', 'children', 'next', 'path')})
GHOST_SORTS['g.droot'] = Ptr
DF = ('parent', 'children', 'next', 'path')


def snap(s, me): return dict([('d' + f, s.F(ND, f)) for f in DF] + [('droot', s.ob(me, 'root'))])


def dtree(s):
    """the tree as it was when its deinitialisation began"""
    tin, at, rk = [s.g(x) for x in ('tin', 'at', 'rk')]
    par, chi, nxt, pa = [s.g('d' + x) for x in DF]
    ro = s.g('droot')
    T = lambda n: Select(tin, n)
    p, c, nx, r = [lambda n, h=h: Select(h, n) for h in (par, chi, nxt, rk)]
    Pn = lambda n: cS(Select(pa, n))
    return [
        ('dtree.node', ForAll([n1], Implies(T(n1), And(ro != NULL, nodeok(n1), ccstr(Select(pa, n1)), Select(at, Pn(n1)) == n1, canon(Pn(n1)), r(n1) >= 0)), patterns=[T(n1)])),
        ('dtree.root', Implies(ro != NULL, And(T(ro), p(ro) == NULL, nx(ro) == NULL, Pn(ro) == Slash))),
        ('dtree.parent', ForAll([n1], Implies(T(n1), And((p(n1) == NULL) == (n1 == ro),
                                                        Implies(n1 != ro, And(T(p(n1)), r(p(n1)) < r(n1), Pn(p(n1)) == up(Pn(n1)))))), patterns=[p(n1)])),
        ('dtree.next', ForAll([n1], Implies(And(T(n1), nx(n1) != NULL), And(T(nx(n1)), p(nx(n1)) == p(n1), r(nx(n1)) < r(n1), n1 != ro)), patterns=[nx(n1)])),
        ('dtree.children', ForAll([n1], Implies(And(T(n1), c(n1) != NULL), And(T(c(n1)), p(c(n1)) == n1)), patterns=[c(n1)])),
        ('dtree.head', ForAll([n1, n2], Implies(And(T(n1), T(n2), p(n2) == n1), And(c(n1) != NULL, r(n2) <= r(c(n1)))), patterns=[MultiPattern(c(n1), p(n2))])),
        ('dtree.gap', ForAll([n1, n2], Implies(And(T(n1), T(n2), p(n1) != NULL, p(n2) == p(n1), r(n2) < r(n1)), And(nx(n1) != NULL, r(n2) <= r(nx(n1)))), patterns=[MultiPattern(nx(n1), p(n2))])),
        ('dtree.rank', ForAll([n1, n2], Implies(And(T(n1), T(n2), r(n1) == r(n2)), n1 == n2), patterns=[MultiPattern(r(n1), r(n2))])),
        ('dtree.chain', ForAll([n1, i_], Implies(And(T(n1), i_ >= 1, i_ <= levels(Pn(n1))),
                                                And(T(Select(at, lev(i_, Pn(n1)))), Pn(Select(at, lev(i_, Pn(n1)))) == lev(i_, Pn(n1)),
                                                    p(Select(at, lev(i_, Pn(n1)))) == If(i_ == 1, ro, Select(at, lev(i_ - 1, Pn(n1)))))),
                               patterns=[lev(i_, Pn(n1))])),
    ]


def dP(s, n): return cS(Select(s.g('dpath'), n))
def dpar(s, n): return Select(s.g('dparent'), n)


def anc(s, n, m):
    """the node at the level of n on the way to m"""
    L = levels(dP(s, n))
    return If(L == 0, s.g('droot'), Select(s.g('at'), lev(L, dP(s, m))))


def below(s, n, m):
    """m is n, a sibling behind n, or below one of these"""
    a = anc(s, n, m); rk = s.g('rk')
    return And(n != NULL, T(s, m), levels(dP(s, m)) >= levels(dP(s, n)), dpar(s, a) == dpar(s, n), Select(rk, a) <= Select(rk, n))


def intact(s, n):
    """the nodes below n still have their links"""
    return ForAll([m_], Implies(below(s, n, m_), And(*[s.nd(m_, f) == Select(s.g('d' + f), m_) for f in DF])), patterns=[T(s, m_)])


def dn_inv(L):
    c = L.c; s = c.s
    cu = L.role('cur'); nd = c.node; rk = s.g('rk')
    ch, nx, lc = Select(s.g('dchildren'), cu), Select(s.g('dnext'), cu), levels(dP(s, cu))
    return [('node', Implies(cu != NULL, And(T(s, cu), dpar(s, cu) == dpar(s, nd), levels(dP(s, cu)) == levels(dP(s, nd)), Select(s.g('rk'), cu) <= Select(s.g('rk'), nd)))),
            ('children', Implies(And(cu != NULL, ch != NULL), And(T(s, ch), dpar(s, ch) == cu, levels(dP(s, ch)) == lc + 1))),
            ('next', Implies(And(cu != NULL, nx != NULL), And(T(s, nx), dpar(s, nx) == dpar(s, cu), levels(dP(s, nx)) == lc, Select(rk, nx) < Select(rk, cu)))),
            ('below the children', ForAll([m_], Implies(And(cu != NULL, below(s, ch, m_)), And(anc(s, cu, m_) == cu, levels(dP(s, m_)) > lc)), patterns=[T(s, m_)])),
            ('same level', ForAll([m_], Implies(And(cu != NULL, T(s, m_), levels(dP(s, m_)) == lc, anc(s, cu, m_) == cu, HintS(lev(lc, dP(s, m_)))), m_ == cu), patterns=[T(s, m_)])),
            ('split below', ForAll([m_], Implies(And(cu != NULL, T(s, m_), levels(dP(s, m_)) > lc, anc(s, cu, m_) == cu, HintS(lev(lc + 1, dP(s, m_)))), below(s, ch, m_)), patterns=[T(s, m_)])),
            ('split next', ForAll([m_], Implies(And(cu != NULL, below(s, cu, m_), anc(s, cu, m_) != cu), below(s, nx, m_)), patterns=[T(s, m_)])),
            ('part below', ForAll([m_], Implies(And(cu != NULL, below(s, ch, m_)), below(s, nd, m_)), patterns=[T(s, m_)])),
            ('itself', Implies(And(cu != NULL, HintS(lev(lc, dP(s, cu)))), And(anc(s, cu, cu) == cu, below(s, nd, cu)))),
            ('part', ForAll([m_], Implies(And(cu != NULL, below(s, cu, m_)), below(s, nd, m_)), patterns=[T(s, m_)])),
            ('rest is intact', intact(L.s, cu)),
            ('C21.cleared so far', ForAll([m_], Implies(And(below(s, nd, m_), Not(below(s, cu, m_))), zero(L.s, m_)), patterns=[T(s, m_)]))] + \
           [('C20.nothing else: ' + f, ForAll([m_], Implies(Not(below(s, nd, m_)), L.s.nd(m_, f) == s.nd(m_, f)), patterns=[L.s.nd(m_, f)])) for f in NDF]


lemma('levels.bound', 'lvb', [s_], Implies(slen(s_) >= 0, levels(s_) <= slen(s_) + 1), [levels(s_)],
      [('proof', [slen(s1) >= 0, Hint(cnt(s1, slen(s1))), cnt(s1, 0) == 0], levels(s1) <= slen(s1) + 1)], ['str', 'path', 'pathlem'])

contract('ush_node_deinit_recursive', ['self', 'node'], axioms=TAX + ('lvb',), dec=lambda c: If(c.node == NULL, IV(0), 2 ** 62 - levels(dP(c.s, c.node))),
         requires=lambda c: [('self', c.self != NULL), ('node', Implies(c.node != NULL, T(c.s, c.node)))] + dtree(c.s) + [('links', intact(c.s, c.node))],
         modifies=lambda c: [('Fall', ND, f, lambda n, c=c: below(c.s, c.node, n)) for f in NDF],
         ensures=lambda c: [('C21.nodes are cleared', ForAll([m_], Implies(below(c.s, c.node, m_), zero(c.t, m_)), patterns=[T(c.s, m_)]))],
         loops=[LoopSpec(dn_inv, roles=[('cur', 'ptr', 'curr')], dec=lambda L: If(L.role('cur') == NULL, IV(0), Select(L.c.s.g('rk'), L.role('cur')) + 1))])

_old = CONTRACTS['ush_node_deinit_recursive']
_old.entry = lambda c: snap(c.s, c.self) if c.eng.fname != 'ush_node_deinit_recursive' else {}


def deinit_post(c):
    s, t, me = c.s, c.t, c.self
    em = SUBF(me)
    zob = And(*[t.ob(me, f) == (IV(0) if t.ob(me, f).sort() == I else NULL) for f in obf(c)])
    return [('C21.instance is cleared', And(zob, zero(t, em))),
            ('C21.nodes are cleared', ForAll([m_], Implies(And(T(s, m_), HintS(lev(levels(P(s, m_)), P(s, m_)))), zero(t, m_)), patterns=[T(s, m_)]))]


contract('ush_deinit', ['self'], axioms=TAX,
         requires=lambda c: pre(c.s, c.self) + [('embedded node', And(embedded(c.s, c.self), C(c.s, SUBF(c.self))))],
         modifies=lambda c: mod_ob(c.self, *obf(c)) + [('Fall', ND, f, lambda n, c=c: Or(T(c.s, n), n == SUBF(c.self))) for f in NDF] + [('G', 'd' + f) for f in DF] + [('G', 'droot')],
         ensures=deinit_post)
