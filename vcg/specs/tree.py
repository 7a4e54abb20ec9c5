"""The mounted directory tree."""
from specs.paths import *

TAX = ('zend', 'str', 'pathlem2', 'fd')
HintS = Function('HintS', Str, B)
AX['str'].append(('HintS', ForAll([s_], HintS(s_), patterns=[HintS(s_)])))


def root(s, me): return s.ob(me, 'root')
def findnode(s, me, S_): return If(levels(S_) == 0, root(s, me), lookup(s, S_))
def findparent(s, me, S_): return If(up(S_) == Empty, NULL, findnode(s, me, up(S_)))
def fits(s, me, p): return And(s.cstr(p), s.strlen(p) < pml(s, me))


def T(s, n): return Select(s.g('tin'), n)


def rkm(s, n): return If(n == NULL, IV(0), Select(s.g('rk'), n) + 1)


def gbp_outer(L):
    c = L.c; s = c.s; me = c.self
    S0 = s.S(c.path); i = L.role('i'); cur = L.role('cur')
    par = If(i == 1, root(s, me), Select(s.g('at'), lev(i - 1, S0)))
    return [('level', And(i >= 1, i <= levels(S0))),
            ('matched so far', And(T(s, par), Implies(i >= 2, P(s, par) == lev(i - 1, S0)))),
            ('children', cur == s.nd(par, 'children'))]


def gbp_inner(L):
    c = L.c; s = c.s; me = c.self
    S0 = s.S(c.path); cur = L.role('cur'); i = L.role('i')
    par = If(i == 1, root(s, me), Select(s.g('at'), lev(i - 1, S0)))
    t = lookup(s, lev(i, S0))
    return [('sibling', Or(cur == NULL, And(T(s, cur), s.nd(cur, 'parent') == par))),
            ('not passed', Implies(And(t != NULL, s.nd(t, 'parent') == par), And(cur != NULL, Select(s.g('rk'), t) <= Select(s.g('rk'), cur))))]


contract('ush_node_get_by_path', ['self', 'path'], axioms=TAX,
         requires=lambda c: pre(c.s, c.self) + [('path', Implies(levels(c.s.S(c.path)) > 0, fits(c.s, c.self, c.path))), ('text', c.s.cstr(c.path))],
         ensures=lambda c: [('C09.lookup', c.r == findnode(c.s, c.self, c.s.S(c.path))),
                            ('mounted', Implies(c.r != NULL, T(c.s, c.r)))],
         loops=[LoopSpec(gbp_outer, roles=[('i', 'int', 'i'), ('cur', 'ptr', 'curr')], dec=lambda L: levels(L.c.s.S(L.c.path)) + 1 - L.role('i')),
                LoopSpec(gbp_inner, roles=[('cur', 'ptr', 'curr'), ('i', 'outer:i')], dec=lambda L: rkm(L.c.s, L.role('cur')))])

contract('ush_node_get_parent_by_path', ['self', 'path'], axioms=TAX,
         requires=lambda c: pre(c.s, c.self) + [('path', fits(c.s, c.self, c.path))],
         ensures=lambda c: [('C09.parent lookup', c.r == findparent(c.s, c.self, c.s.S(c.path))),
                            ('mounted', Implies(c.r != NULL, T(c.s, c.r)))])

mount_fl = lambda L: [('index', And(L.role('i') >= 0, L.role('i') <= L.c.a['file_list_size']))]


def tree_same(c, *extra):
    return And(*[c.t.g(g) == c.s.g(g) for g in TREE_G])


def mount_ghost(c):
    s, t = c.s, c.t
    S_ = s.S(c.path); okk = c.r == E('OK')
    return dict(tin=If(okk, Store(s.g('tin'), c.node, True), s.g('tin')), at=If(okk, Store(s.g('at'), S_, c.node), s.g('at')),
                rk=If(okk, Store(s.g('rk'), c.node, s.g('rkc')), s.g('rk')), rkc=If(okk, s.g('rkc') + 1, s.g('rkc')))


def mount_post(c):
    s, t, me = c.s, c.t, c.self
    S_ = s.S(c.path)
    ex, pa = findnode(s, me, S_), findparent(s, me, S_)
    okk = c.r == E('OK')
    fr = [x for x in NDF if x not in ('children',)]
    return [
        ('C09.outcome of a mount', c.r == If(ex != NULL, E('ERROR_NODE_ALREADY_MOUNTED'), If(Or(pa != NULL, S_ == Slash), E('OK'), E('ERROR_NODE_WITHOUT_PARENT')))),
        ('C09.mounted node', Implies(okk, And(findnode(t, me, S_) == c.node, t.nd(c.node, 'file_list') == c.file_list, t.nd(c.node, 'file_list_size') == c.a['file_list_size'],
                                              t.nd(c.node, 'path') == c.path, t.nd(c.node, 'parent') == pa, t.nd(c.node, 'children') == NULL))),
        ('C09.other paths keep their node', ForAll([s_], Implies(s_ != S_, lookup(t, s_) == lookup(s, s_)), patterns=[Select(t.g('at'), s_)])),
        ('C09.failed mount changes nothing', Implies(Not(okk), And(*[t.nd(c.node, x) == s.nd(c.node, x) for x in NDF] + [same(c, 'root', 'current_node'), t.nd(pa, 'children') == s.nd(pa, 'children')] + [tree_same(c)]))),
        ('C10.current directory', t.ob(me, 'current_node') == If(And(okk, S_ == Slash), c.node, s.ob(me, 'current_node'))),
        ('C21.root', t.ob(me, 'root') == If(And(okk, S_ == Slash), c.node, s.ob(me, 'root'))),
    ] + [Clause('C09.' + n, f, cases=(lambda m, i: [m != c.node, And(m == c.node, i >= levels(S_)), And(m == c.node, i < levels(S_), i > 1), And(m == c.node, i < levels(S_), i <= 1)])
                if n == 'tree.chain' else None) for n, f in tree(t, me)] + [('C19.' + n, f) for n, f in cmds(t, me)] + [('C10.current directory is mounted', current(t, me))]


contract('ush_node_mount', ['self', 'path', 'node', 'file_list', 'file_list_size'], axioms=TAX,
         requires=lambda c: pre(c.s, c.self) + [
             ('path', And(ccstr(c.path), canon(c.s.S(c.path)), fits(c.s, c.self, c.path))),
             ('node', And(nodeok(c.node), Not(Select(c.s.g('cin'), c.node)), Implies(findnode(c.s, c.self, c.s.S(c.path)) == NULL, And(Not(T(c.s, c.node)), c.s.nd(c.node, 'children') == NULL)))),
             ('files', flok(c.file_list, c.a['file_list_size'])),
             ('file paths fit', ForAll([k_], Implies(And(OFF(c.file_list) <= k_, k_ < OFF(c.file_list) + c.a['file_list_size']),
                                                     slen(joinS(c.s.S(c.path), cS(c.s.fd(mk(O(c.file_list), k_), 'name')))) < pml(c.s, c.self)), patterns=[c.s.fd(mk(O(c.file_list), k_), 'name')]))],
         modifies=lambda c: [('F', ND, x, c.node) for x in NDF if x != 'children'] + [('F', ND, 'children', findparent(c.s, c.self, c.s.S(c.path)))] +
         mod_ob(c.self, 'root', 'current_node') + [('G', g) for g in TREE_G],
         ghost=mount_ghost, ensures=mount_post,
         exit_lemmas=lambda c: [('a new root is alone', ForAll([n1], Implies(And(c.r == E('OK'), c.s.S(c.path) == Slash, T(c.t, n1)),
                                                                                And(n1 == c.node, levels(P(c.t, n1)) == 0)), patterns=[T(c.t, n1)])),
                                 ('a new root has no levels', ForAll([n1, i_], Implies(And(c.r == E('OK'), c.s.S(c.path) == Slash, i_ >= 1, i_ <= levels(P(c.t, n1))), Not(T(c.t, n1))), patterns=[lev(i_, P(c.t, n1))]))],
         loops=[LoopSpec(mount_fl, roles=[('i', 'int', 'i')], dec=lambda L: L.c.a['file_list_size'] - L.role('i'))])


def unmount_loop(L):
    c = L.c; s = c.s; me = c.self
    S_ = s.S(c.path); node, pa = findnode(s, me, S_), findparent(s, me, S_)
    cur, prev = L.role('cur'), L.role('prev')
    rk = s.g('rk')
    return [('sibling', And(cur != NULL, T(s, cur), s.nd(cur, 'parent') == pa, Select(rk, node) <= Select(rk, cur))),
            ('previous', If(prev == NULL, cur == s.nd(pa, 'children'), And(T(s, prev), s.nd(prev, 'parent') == pa, s.nd(prev, 'next') == cur, Select(rk, cur) < Select(rk, prev))))]


def unmount_loop2(L):
    """the node is behind cur"""
    c = L.c; s = c.s; me = c.self
    S_ = s.S(c.path); node, pa = findnode(s, me, S_), findparent(s, me, S_)
    cur = L.role('cur'); rk = s.g('rk')
    return [('sibling', And(cur != NULL, T(s, cur), s.nd(cur, 'parent') == pa, Select(rk, node) < Select(rk, cur)))]


def unmount_post(c):
    s, t, me = c.s, c.t, c.self
    S_ = s.S(c.path)
    nd, pa = findnode(s, me, S_), findparent(s, me, S_)
    okk = c.r == E('OK')
    return [
        ('C09.outcome of an unmount', c.r == If(nd == NULL, E('ERROR_NODE_NOT_FOUND'), If(s.nd(nd, 'children') != NULL, E('ERROR_NODE_WITH_CHILDS'), E('OK')))),
        ('C09.unmounted path is free', Implies(okk, findnode(t, me, S_) == NULL)),
        ('C09.other paths keep their node', ForAll([s_], Implies(s_ != S_, lookup(t, s_) == lookup(s, s_)), patterns=[Select(t.g('at'), s_)])),
        ('C09.failed unmount changes nothing', Implies(Not(okk), And(*[t.F(ND, x) == s.F(ND, x) for x in NDF] + [same(c, 'root', 'current_node'), tree_same(c)]))),
        ('C10.current directory moves up', t.ob(me, 'current_node') == If(And(okk, s.ob(me, 'current_node') == nd, pa != NULL), pa, s.ob(me, 'current_node'))),
    ] + [('C09.' + n, f) for n, f in tree(t, me)] + [('C19.' + n, f) for n, f in cmds(t, me)] + [('C10.current directory is mounted', current(t, me))]


def unmount_lemma(c):
    s, me = c.s, c.self
    nd = findnode(s, me, s.S(c.path))
    x = Select(s.g('at'), lev(i_, P(s, n1)))
    return [('no mounted node is below', Implies(And(nd != NULL, s.nd(nd, 'children') == NULL),
                                                 ForAll([n1, i_], Implies(And(T(s, n1), i_ >= 1, i_ < levels(P(s, n1)), HintS(lev(i_ + 1, P(s, n1)))), x != nd), patterns=[lev(i_, P(s, n1))]))),
            ('a root without children is alone', Implies(And(nd != NULL, nd == root(s, me), s.nd(nd, 'children') == NULL),
                                                         ForAll([n1], Implies(And(T(s, n1), levels(P(s, n1)) >= 0, HintS(lev(1, P(s, n1)))), n1 == nd), patterns=[T(s, n1)])))]


contract('ush_node_unmount', ['self', 'path'], axioms=TAX,
         requires=lambda c: pre(c.s, c.self) + [('path', And(canon(c.s.S(c.path)), fits(c.s, c.self, c.path)))],
         modifies=lambda c: [('F', ND, 'children', findparent(c.s, c.self, c.s.S(c.path))), ('Fall', ND, 'next', lambda n, c=c: Select(c.s.g('tin'), n))] +
         mod_ob(c.self, 'root', 'current_node') + [('G', 'tin')],
         ghost=lambda c: dict(tin=If(c.r == E('OK'), Store(c.s.g('tin'), findnode(c.s, c.self, c.s.S(c.path)), False), c.s.g('tin'))),
         ensures=unmount_post, exit_lemmas=unmount_lemma,
         loops=[LoopSpec(unmount_loop, roles=[('cur', 'ptr', 'curr'), ('prev', 'ptr', 'prev')], dec=lambda L: rkm(L.c.s, L.role('cur'))),
                LoopSpec(unmount_loop2, roles=[('cur', 'ptr', 'curr')], dec=lambda L: rkm(L.c.s, L.role('cur')))])
