"""The registry of command groups."""
from specs.tree import *


def C(s, n): return Select(s.g('cin'), n)


def cmd_same(c): return And(*[c.t.g(g) == c.s.g(g) for g in CMD_G])


def addable(s, me, n):
    return And(nodeok(n), Not(C(s, n)), Not(T(s, n)))


def order_kept(c):
    """other registered groups keep their relative order"""
    return ForAll([n1, n2], Implies(And(C(c.s, n1), C(c.s, n2)), (Select(c.t.g('crk'), n1) < Select(c.t.g('crk'), n2)) == (Select(c.s.g('crk'), n1) < Select(c.s.g('crk'), n2))),
                  patterns=[MultiPattern(Select(c.t.g('crk'), n1), Select(c.t.g('crk'), n2))])


contract('ush_commands_add', ['self', 'node', 'file_list', 'file_list_size'],
         axioms=('zend', 'fd'),
         requires=lambda c: pre(c.s, c.self) + [('node', addable(c.s, c.self, c.node)), ('files', And(flok(c.file_list, c.a['file_list_size']), c.a['file_list_size'] > 0))],
         modifies=lambda c: [('F', ND, x, c.node) for x in ('file_list', 'file_list_size', 'path', 'next')] + mod_ob(c.self, 'commands') + [('G', g) for g in CMD_G],
         ghost=lambda c: dict(cin=Store(c.s.g('cin'), c.node, True), crk=Store(c.s.g('crk'), c.node, c.s.g('ckc')), ckc=c.s.g('ckc') + 1),
         ensures=lambda c: [
             ('C19.added group is the newest', And(c.r == E('OK'), c.t.ob(c.self, 'commands') == c.node, c.t.nd(c.node, 'next') == c.s.ob(c.self, 'commands'))),
             ('C19.added group has the files given', And(c.t.nd(c.node, 'file_list') == c.file_list, c.t.nd(c.node, 'file_list_size') == c.a['file_list_size'])),
             ('C19.others stay registered', ForAll([n1], Implies(n1 != c.node, C(c.t, n1) == C(c.s, n1)), patterns=[C(c.t, n1)])),
             ('C19.order of the others', order_kept(c)),
         ] + [('C19.' + n, f) for n, f in cmds(c.t, c.self)] + [('C09.' + n, f) for n, f in tree(c.t, c.self)] + [('C10.current', current(c.t, c.self))],
         loops=[LoopSpec(mount_fl, roles=[('i', 'int', 'i')], dec=lambda L: L.c.a['file_list_size'] - L.role('i'))])


def remove_loop(L):
    c = L.c; s = c.s; me = c.self
    cur, prev = L.role('cur'), L.role('prev')
    rk = s.g('crk')
    return [('group', And(Implies(cur != NULL, C(s, cur)), Implies(C(s, c.node), And(cur != NULL, Select(rk, c.node) <= Select(rk, cur))))),
            ('previous', If(prev == NULL, cur == s.ob(me, 'commands'), And(C(s, prev), s.nd(prev, 'next') == cur)))]


def crkm(s, n): return If(n == NULL, IV(0), Select(s.g('crk'), n) + 1)


contract('ush_commands_remove', ['self', 'node'], axioms=('zend', 'fd'),
         requires=lambda c: pre(c.s, c.self) + [('node', c.node != NULL)],
         modifies=lambda c: [('Fall', ND, 'next', lambda n, c=c: And(Select(c.s.g('cin'), n), n != c.node))] + mod_ob(c.self, 'commands') + [('G', 'cin')],
         ghost=lambda c: dict(cin=If(c.r == E('OK'), Store(c.s.g('cin'), c.node, False), c.s.g('cin'))),
         ensures=lambda c: [
             ('C19.outcome of a removal', c.r == If(C(c.s, c.node), E('OK'), E('ERROR_NODE_NOT_FOUND'))),
             ('C19.removal of an unknown group changes nothing', Implies(Not(C(c.s, c.node)), And(same(c, 'commands'), c.t.F(ND, 'next') == c.s.F(ND, 'next'), c.t.g('cin') == c.s.g('cin')))),
             ('C19.removed group is gone', Not(C(c.t, c.node))),
             ('C19.others stay registered', ForAll([n1], Implies(n1 != c.node, C(c.t, n1) == C(c.s, n1)), patterns=[C(c.t, n1)])),
         ] + [('C19.' + n, f) for n, f in cmds(c.t, c.self)] + [('C09.' + n, f) for n, f in tree(c.t, c.self)] + [('C10.current', current(c.t, c.self))],
         loops=[LoopSpec(remove_loop, roles=[('cur', 'ptr', 'curr'), ('prev', 'ptr', 'prev')], dec=lambda L: crkm(L.c.s, L.role('cur')))])
