"""Contracts of the output, input and prompt functions."""
from specs.base import *


def nextok(c): return c.write_next_state if 'write_next_state' in c.a else c.nxt


WFRAME = ('write_pos', 'write_size', 'write_buf', 'state', 'write_next_state')


def region_ok(s, p, n):
    return And(ptr_ok(p), OFF(p) >= 0, n >= 0, OFF(p) + n <= bsize(O(p)), bsize(O(p)) < 2 ** 62)


contract('ush_write_pointer_bin', ['self', 'data', 'n', 'nxt'],
         requires=lambda c: [('self', And(ok('ush_object')(c.self), per(c.self))), ('C20.data outlives the call', ptr_ok(c.data)), ('next', valid_state(c.nxt))],
         modifies=lambda c: mod_ob(c.self, *WFRAME),
         ensures=lambda c: [('C05.region', queued_region(c.t, c.self, c.data, c.n, c.nxt))])

contract('ush_write_pointer', ['self', 'text', 'nxt'],
         requires=lambda c: [('self', And(ok('ush_object')(c.self), per(c.self))), ('C20.text outlives the call', ptr_ok(c.text)), ('text', c.s.cstr(c.text)), ('next', valid_state(c.nxt))],
         modifies=lambda c: mod_ob(c.self, *WFRAME),
         ensures=lambda c: [('C05.text', queued_cstr(c.t, c.self, c.text, c.nxt))])


def write_char_post(c):
    s, t, me = c.s, c.t, c.self
    pos, n, buf = s.ob(me, 'write_pos'), s.ob(me, 'write_size'), s.ob(me, 'write_buf')
    acc = t.g('nw') == s.g('nw') + 1
    return [
        ('C05.drained moves on', Implies(pos >= n, And(t.ob(me, 'state') == s.ob(me, 'write_next_state'), t.ob(me, 'write_pos') == pos,
                                                      t.g('nw') == s.g('nw'), t.g('wtr') == s.g('wtr'), t.g('nc') == s.g('nc')))),
        ('C05.pending stays', Implies(pos < n, And(t.ob(me, 'state') == s.ob(me, 'state'), t.g('nc') == s.g('nc') + 1))),
        ('C05.accepted byte is the next one', Implies(And(pos < n, t.ob(me, 'write_pos') != pos),
                                                    And(t.ob(me, 'write_pos') == pos + 1, acc,
                                                        t.g('wtr') == Store(s.g('wtr'), s.g('nw'), s.B(buf, pos))))),
        ('C05.refused byte changes nothing', Implies(And(pos < n, t.ob(me, 'write_pos') == pos),
                                                    And(t.g('nw') == s.g('nw'), t.g('wtr') == s.g('wtr')))),
    ]


contract('ush_write_char', ['self'],
         requires=lambda c: [('base', base(c.s, c.self)),
                             ('region', region_ok(c.s, c.s.ob(c.self, 'write_buf'), c.s.ob(c.self, 'write_size')))],
         modifies=lambda c: mod_ob(c.self, 'state', 'write_pos') + [('G', 'nc'), ('G', 'nw'), ('G', 'wtr')],
         ensures=write_char_post)


# ------------------------------------------------------------------ generic helpers
def same(c, *fs):
    return And(*[c.t.ob(c.self, f) == c.s.ob(c.self, f) for f in fs])


def same_bytes(c, p):
    return c.t.A(p) == c.s.A(p)


contract('ush_write_service', ['self'],
         requires=lambda c: [('base', base(c.s, c.self)),
                             ('region', Implies(c.s.ob(c.self, 'state') == E('WRITE_CHAR'),
                                                region_ok(c.s, c.s.ob(c.self, 'write_buf'), c.s.ob(c.self, 'write_size'))))],
         modifies=lambda c: mod_ob(c.self, 'state', 'write_pos') + [('G', 'nc'), ('G', 'nw'), ('G', 'wtr')],
         ensures=lambda c: [('C06.serves exactly its state', c.r == (c.s.ob(c.self, 'state') == E('WRITE_CHAR'))),
                            ('C06.other states untouched', Implies(Not(c.r), And(same(c, 'state', 'write_pos'), c.t.g('nc') == c.s.g('nc'), c.t.g('nw') == c.s.g('nw'), c.t.g('wtr') == c.s.g('wtr')))),
                            ('C06.at most one interface call', And(c.t.g('nc') >= c.s.g('nc'), c.t.g('nc') <= c.s.g('nc') + 1))] +
                           [(n, Implies(c.r, f)) for n, f in write_char_post(c)])

# ------------------------------------------------------------------ reset and prompt
BANNER = b'uShell 0.1.0\r\n'

contract('ush_reset_start', ['self'],
         requires=lambda c: [('self', And(ok('ush_object')(c.self), per(c.self)))],
         modifies=lambda c: mod_ob(c.self, 'state'),
         ensures=lambda c: [('state', c.t.ob(c.self, 'state') == E('RESET'))])

contract('ush_reset', ['self'],
         requires=lambda c: [('self', And(ok('ush_object')(c.self), per(c.self)))],
         modifies=lambda c: mod_ob(c.self, 'current_node', *WFRAME),
         ensures=lambda c: [('C21.root is current', c.t.ob(c.self, 'current_node') == c.s.ob(c.self, 'root')),
                            ('C21.banner', queued_text(c.t, c.self, BANNER, E('RESET_PROMPT'))),
                            ('region', region_ok(c.t, c.t.ob(c.self, 'write_buf'), c.t.ob(c.self, 'write_size')))])

contract('ush_prompt_start', ['self', 'nxt'],
         requires=lambda c: [('self', And(ok('ush_object')(c.self), per(c.self)))],
         modifies=lambda c: mod_ob(c.self, 'state', 'prompt_next_state'),
         ensures=lambda c: [('C22.prompt starts', And(c.t.ob(c.self, 'state') == E('PROMPT_PREFIX'), c.t.ob(c.self, 'prompt_next_state') == c.nxt))])


def st0(c): return c.s.ob(c.self, 'state')


contract('ush_reset_service', ['self'],
         requires=lambda c: [('self', And(ok('ush_object')(c.self), per(c.self)))],
         modifies=lambda c: mod_ob(c.self, 'prompt_next_state', *WFRAME),
         ensures=lambda c: [
             ('C06.serves exactly its states', c.r == isin(st0(c), 'RESET', 'RESET_PROMPT')),
             ('C06.other states untouched', Implies(Not(c.r), same(c, 'prompt_next_state', *WFRAME))),
             ('C22.new line before prompt', Implies(st0(c) == E('RESET'), And(queued_text(c.t, c.self, b'\r\n', E('RESET_PROMPT')), ptr_ok(c.t.ob(c.self, 'write_buf')), same(c, 'prompt_next_state')))),
             ('region', Implies(st0(c) == E('RESET'), region_ok(c.t, c.t.ob(c.self, 'write_buf'), c.t.ob(c.self, 'write_size')))),
             ('C22.prompt then reading', Implies(st0(c) == E('RESET_PROMPT'), And(c.t.ob(c.self, 'state') == E('PROMPT_PREFIX'),
                                                                                 c.t.ob(c.self, 'prompt_next_state') == E('READ_PREPARE'),
                                                                                 same(c, 'write_pos', 'write_size', 'write_buf', 'write_next_state'))))])


# ---- last path component
def lastpos_spec(A, o, z, r):
    """r is the start of the last component of the text A[o..z)"""
    return And(r >= o, r <= z,
               If(z == o + 1, r == o,
                  And(Or(r == o, Select(A, r - 1) == 47),
                      ForAll([k_], Implies(And(r <= k_, k_ < z), Select(A, k_) != 47), patterns=[Select(A, k_)]))))


def path_last_inv(L):
    c = L.c
    n = c.s.strlen(c.p)
    i = L.role('i')
    return [('range', And(i >= 0, i <= n)),
            ('scanned', ForAll([k_], Implies(And(k_ >= OFF(c.p) + i, k_ < OFF(c.p) + n), Select(c.s.A(c.p), k_) != 47), patterns=[Select(c.s.A(c.p), k_)])),
            ]


def path_last_fwd(L):
    """scan from the start, the result so far is kept"""
    c = L.c; A = c.s.A(c.p)
    i, r = L.role('i'), L.role('last')
    return [('range', And(i >= 0, i <= c.s.strlen(c.p), O(r) == O(c.p), OFF(r) >= OFF(c.p), OFF(r) <= OFF(c.p) + i, Or(OFF(r) == OFF(c.p), Select(A, OFF(r) - 1) == 47))),
            ('scanned', ForAll([k_], Implies(And(OFF(r) <= k_, k_ < OFF(c.p) + i), Select(A, k_) != 47), patterns=[Select(A, k_)]))]


contract('ush_utils_path_last', ['p'],
         requires=lambda c: [('path', And(ptr_ok(c.p), c.s.cstr(c.p), bsize(O(c.p)) < 2 ** 62))],
         ensures=lambda c: [('in the same string', And(O(c.r) == O(c.p), OFF(c.r) >= OFF(c.p), OFF(c.r) <= c.s.zend(c.p))),
                            ('C22.last component', lastpos_spec(c.s.A(c.p), OFF(c.p), c.s.zend(c.p), OFF(c.r)))],
         loops=[LoopSpec(path_last_inv, roles=[('i', 'int', 'i')], dec=lambda L: L.role('i')),
                LoopSpec(path_last_fwd, roles=[('i', 'int', 'i'), ('last', 'ptr', 'out')], dec=lambda L: L.c.s.strlen(L.c.p) - L.role('i'))])


def cur_path_ok(s, self):
    n = s.ob(self, 'current_node')
    return And(ok('ush_node_object')(n), ccstr(s.nd(n, 'path')))


PREFIX = b'\x1b[35m['
SUFFIX = b']$ \x1b[0m'


def prompt_post(c):
    s, t, me = c.s, c.t, c.self
    st = st0(c)
    cp = s.nd(s.ob(me, 'current_node'), 'path')
    w = t.ob(me, 'write_buf')
    return [
        ('C06.serves exactly its states', c.r == isin(st, *PROMPTS)),
        ('C06.other states untouched', Implies(Not(c.r), same(c, *WFRAME))),
        ('C22.prefix', Implies(st == E('PROMPT_PREFIX'), queued_text(t, me, PREFIX, E('PROMPT_HOST')))),
        ('C22.host', Implies(st == E('PROMPT_HOST'), queued_cstr(t, me, s.ds(s.ob(me, 'desc'), 'hostname'), E('PROMPT_SPACE')))),
        ('C22.space', Implies(st == E('PROMPT_SPACE'), queued_text(t, me, b' ', E('PROMPT_PATH')))),
        ('C22.path', Implies(st == E('PROMPT_PATH'), And(O(w) == O(cp), lastpos_spec(cmem(O(cp)), OFF(cp), zend(cmem(O(cp)), OFF(cp)), OFF(w)),
                                                       queued_region(t, me, w, zend(cmem(O(cp)), OFF(cp)) - OFF(w), E('PROMPT_SUFFIX'))))),
        ('C22.suffix', Implies(st == E('PROMPT_SUFFIX'), queued_text(t, me, SUFFIX, s.ob(me, 'prompt_next_state')))),
        ('region', Implies(c.r, region_ok(t, w, t.ob(me, 'write_size')))),
    ]


contract('ush_prompt_service', ['self'],
         requires=lambda c: [('base', base(c.s, c.self)), ('path', Implies(st0(c) == E('PROMPT_PATH'), cur_path_ok(c.s, c.self))),
                             ('next', Implies(isin(st0(c), *PROMPTS), valid_state(c.s.ob(c.self, 'prompt_next_state'))))],
         modifies=lambda c: mod_ob(c.self, *WFRAME),
         ensures=prompt_post)

def J_out(s, me):
    """text queued from the output buffer is NUL terminated inside it (what ush_printf continues)"""
    ob, n = obuf(s, me), s.ob(me, 'write_size')
    return Implies(s.ob(me, 'write_buf') == ob, And(vs(s.A(ob), OFF(ob)), Or(And(s.strlen(ob) == n, n < osz(s, me)), And(n == osz(s, me), s.strlen(ob) == n - 1)), s.ob(me, 'write_pos') <= n))


# ------------------------------------------------------------------ reading
GHOST_SORTS['g.nl'] = I      # position of the line end that started parsing


def J_read(s, me):
    return And(s.ob(me, 'in_pos') >= 0, s.ob(me, 'in_pos') < isz(s, me), s.B(ibuf(s, me), s.ob(me, 'in_pos')) == 0,
               s.ob(me, 'ansi_escape_state') >= 0, s.ob(me, 'ansi_escape_state') <= 2)


def J_nl(s, me, lo=0):
    nl = s.g('nl')
    b = s.B(ibuf(s, me), nl)
    return And(nl >= lo, nl < isz(s, me), Or(b == 10, b == 13))


contract('ush_read_start', ['self'],
         requires=lambda c: [('base', base(c.s, c.self))],
         modifies=lambda c: mod_ob(c.self, 'in_pos', 'state', 'ansi_escape_state') + [('B', O(ibuf(c.s, c.self)), OFF(ibuf(c.s, c.self)), OFF(ibuf(c.s, c.self)) + 1)],
         ensures=lambda c: [('C22.empty line', And(c.t.ob(c.self, 'in_pos') == 0, c.t.B(ibuf(c.s, c.self)) == 0, c.t.ob(c.self, 'ansi_escape_state') == 0)),
                            ('C22.reading', c.t.ob(c.self, 'state') == E('READ_CHAR'))])


def echo_post(c, ch, t=None):
    t = t or c.t
    me = c.self
    nxt = If(Or(ch == 13, ch == 10), E('PARSE_PREPARE'), E('READ_CHAR'))
    w = t.ob(me, 'write_buf')
    n = t.ob(me, 'write_size')
    txt = If(ch == 13, And(n == 2, t.B(w) == 13, t.B(w, 1) == 10),
             If(Or(ch == 8, ch == 127), And(n == 3, t.B(w) == 8, t.B(w, 1) == 32, t.B(w, 2) == 8),
                If(ch == 0, n == 0, And(n == 1, t.B(w) == ch))))
    return And(t.ob(me, 'state') == E('WRITE_CHAR'), t.ob(me, 'write_next_state') == nxt, t.ob(me, 'write_pos') == 0,
               w == obuf(c.s, me), txt, vs(t.A(w), OFF(w)), t.strlen(w) == n)


def obuf_mod(c): return [('B', O(obuf(c.s, c.self)), OFF(obuf(c.s, c.self)), OFF(obuf(c.s, c.self)) + osz(c.s, c.self))]
def ibuf_mod(c): return [('B', O(ibuf(c.s, c.self)), OFF(ibuf(c.s, c.self)), OFF(ibuf(c.s, c.self)) + isz(c.s, c.self))]


contract('ush_read_echo_service', ['self', 'ch'],
         requires=lambda c: [('base', base(c.s, c.self))],
         modifies=lambda c: mod_ob(c.self, *WFRAME) + [('B', O(obuf(c.s, c.self)), OFF(obuf(c.s, c.self)), OFF(obuf(c.s, c.self)) + 4)],
         ensures=lambda c: [('C02.echo', echo_post(c, c.ch))])


def append_post(c, ch):
    s, t, me = c.s, c.t, c.self
    ib = ibuf(s, me)
    p1 = s.ob(me, 'in_pos') + 1
    p2 = If(p1 >= isz(s, me), IV(0), p1)
    return And(t.ob(me, 'in_pos') == p2, t.A(ib) == Store(Store(s.A(ib), OFF(ib) + s.ob(me, 'in_pos'), ch), OFF(ib) + p2, IV(0)))


def esc_post(c, ch, echo):
    s, t, me = c.s, c.t, c.self
    ib = ibuf(s, me)
    a = s.ob(me, 'ansi_escape_state')
    keep = And(same(c, 'in_pos'), same_bytes(c, ib), t.g('nl') == s.g('nl'))
    return [('C02.append', Implies(a == 0, And(echo, append_post(c, ch), t.ob(me, 'ansi_escape_state') == 0, t.g('nl') == s.ob(me, 'in_pos')))),
            ('C02.escape start', Implies(a == 1, And(Not(echo), keep, t.ob(me, 'ansi_escape_state') == If(Or(ch == 0x5b, ch == 0x4f), IV(2), IV(0))))),
            ('C02.escape end', Implies(a == 2, And(Not(echo), keep, t.ob(me, 'ansi_escape_state') == 0)))]


contract('ush_read_char_by_escape_state', ['self', 'ch'],
         requires=lambda c: [('base', base(c.s, c.self)), ('line', J_read(c.s, c.self))],
         modifies=lambda c: mod_ob(c.self, 'in_pos', 'ansi_escape_state') + ibuf_mod(c) + [('G', 'nl')],
         ghost=lambda c: {'nl': If(c.s.ob(c.self, 'ansi_escape_state') == 0, c.s.ob(c.self, 'in_pos'), c.s.g('nl'))},
         ensures=lambda c: esc_post(c, c.ch, c.r) + [('C01.line stays terminated', J_read(c.t, c.self)),
                                                     ('C01.line end inside the buffer', Implies(And(c.r, Or(c.ch == 10, c.ch == 13)), J_nl(c.t, c.self)))])


def read_char_post(c):
    s, t, me = c.s, c.t, c.self
    ib, ob = ibuf(s, me), obuf(s, me)
    ch = Select(t.g('rtr'), s.g('nr'))
    keep = And(same(c, 'in_pos'), same_bytes(c, ib))
    quiet = And(same(c, *WFRAME), same_bytes(c, ob))
    plain = And(c.r, ch != 3, ch != 8, ch != 127, ch != 9, ch != 27)
    echo = t.ob(me, 'state') == E('WRITE_CHAR')
    p = s.ob(me, 'in_pos')
    return [
        ('C06.result reports a byte', c.r == (t.g('nr') == s.g('nr') + 1)),
        ('C06.one interface call', t.g('nc') == s.g('nc') + 1),
        ('C06.no byte no change', Implies(Not(c.r), And(keep, quiet, same(c, 'ansi_escape_state'), t.g('nr') == s.g('nr'), t.g('rtr') == s.g('rtr')))),
        ('C02.ctrl-c', Implies(And(c.r, ch == 3), And(keep, queued_text(t, me, b'^C', E('RESET'))))),
        ('C22.abandoned line ends at the prompt', Implies(And(c.r, ch == 3), And(echo, t.ob(me, 'write_next_state') == E('RESET')))),
        ('C22.finished line is split', Implies(And(plain, s.ob(me, 'ansi_escape_state') == 0, Or(ch == 10, ch == 13)), And(echo, t.ob(me, 'write_next_state') == E('PARSE_PREPARE')))),
        ('C22.completion starts', Implies(And(c.r, ch == 9), t.ob(me, 'state') == E('AUTOCOMP_PREPARE'))),
        ('C22.line goes on', Implies(Or(Not(c.r), ch == 8, ch == 127, ch == 27, And(plain, Or(s.ob(me, 'ansi_escape_state') != 0, And(ch != 10, ch != 13)))),
                                     Or(t.ob(me, 'state') == E('READ_CHAR'), And(echo, t.ob(me, 'write_next_state') == E('READ_CHAR'))))),
        ('C02.erase', Implies(And(c.r, Or(ch == 8, ch == 127), p > 0),
                              And(t.ob(me, 'in_pos') == p - 1, t.A(ib) == Store(s.A(ib), OFF(ib) + p - 1, IV(0)),
                                  same(c, 'ansi_escape_state'), echo_post(c, ch)))),
        ('C02.erase on empty line', Implies(And(c.r, Or(ch == 8, ch == 127), p == 0), And(keep, quiet, same(c, 'ansi_escape_state')))),
        ('C02.tab', Implies(And(c.r, ch == 9), And(keep, t.ob(me, 'state') == E('AUTOCOMP_PREPARE'), same(c, 'write_buf', 'write_size', 'write_pos', 'write_next_state', 'ansi_escape_state'), same_bytes(c, ob)))),
        ('C02.escape', Implies(And(c.r, ch == 27), And(keep, quiet, t.ob(me, 'ansi_escape_state') == 1))),
        ('C02.inserted byte is echoed', Implies(And(plain, s.ob(me, 'ansi_escape_state') == 0), And(echo_post(c, ch), t.g('nl') == p))),
        ('C02.not inserted is not echoed', Implies(And(plain, s.ob(me, 'ansi_escape_state') != 0), quiet)),
    ] + [(n, Implies(plain, f)) for n, f in esc_post(c, ch, echo)] + [
        ('C01.line stays terminated', J_read(t, me)),
        ('C01.line end inside the buffer', Implies(And(echo, t.ob(me, 'write_next_state') == E('PARSE_PREPARE')), J_nl(t, me))),
        ('region', Implies(echo, region_ok(t, t.ob(me, 'write_buf'), t.ob(me, 'write_size')))),
        ('queued output', Implies(J_out(s, me), J_out(t, me))),
        ('next state', Implies(valid_state(s.ob(me, 'write_next_state')), valid_state(t.ob(me, 'write_next_state')))),
        ('states', And(isin(t.ob(me, 'state'), 'WRITE_CHAR', 'READ_CHAR', 'AUTOCOMP_PREPARE'),
                       Implies(echo, isin(t.ob(me, 'write_next_state'), 'RESET', 'READ_CHAR', 'PARSE_PREPARE')))),
    ]


READMOD = ('in_pos', 'ansi_escape_state') + WFRAME

contract('ush_read_char', ['self'],
         requires=lambda c: [('base', base(c.s, c.self)), ('line', J_read(c.s, c.self)), ('state', st0(c) == E('READ_CHAR'))],
         modifies=lambda c: mod_ob(c.self, *READMOD) + ibuf_mod(c) + obuf_mod(c) + [('G', x) for x in ('nl', 'nc', 'nr', 'rtr')],
         ensures=read_char_post)


def read_service_post(c):
    s, t, me = c.s, c.t, c.self
    st = st0(c)
    rd = E('READ_CHAR')

    class C2:   # result of ush_read_char as stored through the pointer
        pass
    c2 = engine.Ctx(c.w, c.fn, c.a, c.s, c.t, c.t.B(c.a['read']) != 0)
    return [('C06.serves exactly its states', c.r == isin(st, 'READ_PREPARE', 'READ_CHAR')),
            ('C06.other states untouched', Implies(Not(c.r), And(same(c, *READMOD), same_bytes(c, ibuf(s, me)), same_bytes(c, obuf(s, me)),
                                                              c.t.B(c.a['read']) == c.s.B(c.a['read']), *[t.g(x) == s.g(x) for x in ('nl', 'nc', 'nr', 'rtr')]))),
            ('flag', Implies(c.s.B(c.a['read']) <= 1, c.t.B(c.a['read']) <= 1)),
            ('C06.idle flag kept', Implies(st == E('READ_PREPARE'), And(c.t.B(c.a['read']) == c.s.B(c.a['read']), t.g('nc') == s.g('nc'), t.g('nr') == s.g('nr')))),
            ('start writes nothing', Implies(st == E('READ_PREPARE'), And(same(c, 'write_pos', 'write_size', 'write_buf', 'write_next_state'), same_bytes(c, obuf(s, me))))),
            ('C22.line starts empty', Implies(st == E('READ_PREPARE'), And(t.ob(me, 'in_pos') == 0, t.B(ibuf(s, me)) == 0, t.ob(me, 'ansi_escape_state') == 0, t.ob(me, 'state') == rd))),
            ] + [(n, Implies(st == rd, f)) for n, f in read_char_post(c2)]


contract('ush_read_service', ['self', 'read'],
         requires=lambda c: [('base', base(c.s, c.self)), ('line', Implies(st0(c) == E('READ_CHAR'), J_read(c.s, c.self))),
                             ('flag', And(O(c.a['read']) != 0, OFF(c.a['read']) >= 0, OFF(c.a['read']) < bsize(O(c.a['read'])), Not(cst(O(c.a['read']))),
                                          O(c.a['read']) != O(ibuf(c.s, c.self)), O(c.a['read']) != O(obuf(c.s, c.self))))],
         modifies=lambda c: mod_ob(c.self, *READMOD) + ibuf_mod(c) + obuf_mod(c) + [('G', x) for x in ('nl', 'nc', 'nr', 'rtr')] +
         [('B', O(c.a['read']), OFF(c.a['read']), OFF(c.a['read']) + 1)],
         ensures=read_service_post)
