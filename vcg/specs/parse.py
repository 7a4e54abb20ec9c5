"""Splitting a finished line into arguments."""
from specs.shell import *

PARSEMOD = ('in_pos', 'out_pos', 'args_count', 'escape_flag', 'state')
TOKMOD = [('G', x) for x in TOK]

contract('ush_parse_start', ['self'],
         requires=lambda c: [('base', base(c.s, c.self)), ('line end', J_nl(c.s, c.self)), ('queued output', J_out(c.s, c.self))],
         modifies=lambda c: mod_ob(c.self, *PARSEMOD) + TOKMOD + [('G', 'tl')],
         ghost=lambda c: dict(tl=c.s.A(ibuf(c.s, c.self)), tkm=SEARCH, tke=BoolVal(False), tkn=IV(0), tkon=IV(0), tknz=BoolVal(True)),
         ensures=lambda c: [('C03.from the start of the line', And(c.t.ob(c.self, 'in_pos') == 0, c.t.g('tl') == c.s.A(ibuf(c.s, c.self)), c.t.g('tkn') == 0, c.t.g('tkm') == SEARCH,
                                                                 c.t.g('tkon') == 0, Not(c.t.g('tke')), c.t.g('tknz')))] + J_parse(c.t, c.self))


def std_pre(c):
    s, me = c.s, c.self
    return [('base', base(s, me)), ('parsing', s.ob(me, 'state') == tok_state(s.g('tkm')))] + J_tok(s, me, 1)


def std_mod(c):
    s, me = c.s, c.self
    ib, op = ibuf(s, me), s.ob(me, 'out_pos')
    lo = OFF(ib) + op
    return mod_ob(me, 'out_pos', 'args_count', 'escape_flag', 'state') + [('B', O(ib), lo, lo + If(s.g('tke'), IV(2), IV(1)))] + TOKMOD


contract('ush_parse_char_standard', ['self', 'ch'], axioms=('zend',),
         requires=std_pre, modifies=std_mod,
         ghost=lambda c: tok_step(tokg(c.s), c.ch),
         ensures=lambda c: [('C03.rules ' + k, c.t.g(k) == v) for k, v in tok_step(tokg(c.s), c.ch).items()] +
         [('C03.parser state', c.t.ob(c.self, 'state') == tok_state(c.t.g('tkm')))] + [('C03.' + n, f) for n, f in J_tok(c.t, c.self)])


def get_args_inv(L):
    c = L.c; s = L.s; me = c.self
    s0 = c.s
    ib = ibuf(s0, me)
    i = L.role('i'); p = L.role('p')
    n, of, oe, nz = [s0.g(x) for x in ('tkn', 'tkof', 'tkoe', 'tknz')]
    b = OFF(ib)
    lim = If(i < n, b + Select(of, i), b + s0.g('tkon'))
    return [('count', And(i >= 0, i <= n)),
            ('position', And(O(p) == O(ib), OFF(p) >= b, OFF(p) <= lim, Implies(nz, OFF(p) == lim))),
            ('collected', args_at(s0, me, s.A, s.cell, c.argv, i))]


def args_at(s, me, A, cell, argv, n):
    """argv[0..n) are the first n arguments"""
    ib = ibuf(s, me)
    b = OFF(ib)
    of, oe, nz = [s.g(x) for x in ('tkof', 'tkoe', 'tknz')]
    a = Const('ai', I)
    x = cell(argv, a)
    return ForAll([a], Implies(And(0 <= a, a < n), And(
        O(x) == O(ib), OFF(x) >= b, OFF(x) <= b + Select(of, a), Implies(nz, OFF(x) == b + Select(of, a)),
        vs(A(ib), OFF(x)), zend(A(ib), OFF(x)) < b + Select(oe, a), Implies(nz, zend(A(ib), OFF(x)) == b + Select(oe, a) - 1))),
        patterns=[Select(of, a), cellpat(cell, argv, a)])


def cellpat(cell, argv, a):
    return cell(argv, a)


contract('ush_parse_get_args', ['self', 'argv'], axioms=('zend',),
         requires=lambda c: [('base', base(c.s, c.self))] + J_args(c.s, c.self) +
         [('room', Implies(c.argv != NULL, And(O(c.argv) != 0, OFF(c.argv) >= 0, OFF(c.argv) + c.s.ob(c.self, 'args_count') <= psize(O(c.argv)))))],
         modifies=lambda c: [('C', O(c.argv), OFF(c.argv), OFF(c.argv) + If(c.argv != NULL, c.s.ob(c.self, 'args_count'), IV(0)))],
         ensures=lambda c: [('C03.argument count', c.r == c.s.g('tkn')),
                            ('C03.arguments', Implies(c.argv != NULL, args_at(c.s, c.self, c.t.A, c.t.cell, c.argv, c.s.g('tkn'))))],
         loops=[LoopSpec(get_args_inv, roles=[('i', 'int', 'i'), ('p', 'ptr', 'ptr')], dec=lambda L: L.c.s.g('tkn') - L.role('i'))])
