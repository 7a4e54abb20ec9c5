"""Dispatch of a finished line, and one step of the shell."""
from specs.inv import *
from specs.parse import TOKMOD

HOOKG = ('nh', 'hnf', 'hne', 'hargc', 'hf')
QAX = ('zend', 'fd')


def all_mod(c):
    return cb_mod(c) + [('G', g) for g in HOOKG]


def same_all(c, *but):
    """nothing of the shell object changes except the named fields"""
    return And(*[c.t.ob(c.self, f) == c.s.ob(c.self, f) for f in obf(c) if f not in but])


def same_g(c, *gs): return And(*[c.t.g(g) == c.s.g(g) for g in gs])


def same_world(c): return And(same_g(c, *(TREE_G + CMD_G)), *[c.t.F(ND, f) == c.s.F(ND, f) for f in NDF])


CALLG = ('ne', 'nh', 'ng', 'ns', 'np')


def argtext(s, k, T_):
    """T_ is argument k of the line (cut at a NUL that was typed inside it)"""
    o, of, oe, nz = [s.g(x) for x in ('tko', 'tkof', 'tkoe', 'tknz')]
    a = Select(of, k)
    return And(slen(T_) < Select(oe, k) - a, Implies(nz, slen(T_) == Select(oe, k) - 1 - a), ForAll([j_], Implies(And(0 <= j_, j_ < slen(T_)), sat(T_, j_) == Select(o, a + j_)), patterns=[sat(T_, j_)]))


def dispatch(c, s2):
    """what happens to the split line"""
    s, t, me = c.s, c.t, c.self
    n = s2.g('tkn')
    hook = s.ds(s.ob(me, 'desc'), 'exec')
    lf = If(t.g('ne') == s.g('ne'), t.g('lf'), t.g('xlf'))
    st = lambda k: queued_text(t, me, STEXT['ERROR_' + k], E('RESET'))
    return [
        ('C04.no arguments call nothing', Implies(n == 0, And(same_g(c, *CALLG), same_g(c, 'nf'), same_world(c), t.ob(me, 'state') == E('RESET_PROMPT'), same(c, 'write_pos', 'write_size', 'write_buf', 'write_next_state', 'current_node', 'root', 'commands')))),
        ('C04.hook comes first', Implies(n >= 1, If(hook != NULL, And(t.g('nh') == s.g('nh') + 1, t.g('hnf') == s.g('nf'), t.g('hne') == s.g('ne'), t.g('hargc') == n, t.g('hf') == NULL), same_g(c, 'nh')))),
        ('C04.first argument is resolved', Implies(n >= 1, And(Implies(t.g('ne') == s.g('ne'), argtext(s2, IV(0), t.g('lfn'))), Implies(t.g('ne') != s.g('ne'), argtext(s2, IV(0), t.g('xlfn')))))),
        ('C04.nothing found', Implies(And(n >= 1, lf == NULL), And(t.g('ne') == s.g('ne'), st('COMMAND_SYNTAX_ERROR')))),
        ('C04.not executable', Implies(And(n >= 1, lf != NULL, s.fd(lf, 'exec') == NULL), And(t.g('ne') == s.g('ne'), st('FILE_NOT_EXECUTABLE')))),
        ('C04.executed once', Implies(And(n >= 1, lf != NULL, s.fd(lf, 'exec') != NULL), And(t.g('ne') == s.g('ne') + 1, t.g('xf') == lf, t.g('xargc') == n))),
        ('C22.returns to the prompt', after(t, me)),
        ('C22.error message then new line', Implies(And(n >= 1, Or(lf == NULL, s.fd(lf, 'exec') == NULL)), eff(t, me) == E('RESET'))),
    ]


def finish_s2(c): return c.s.with_ghost(tok_end(tokg(c.s)))


contract('ush_parse_finish', ['self'], axioms=('zend', 'str', 'fd', 'bridge'),
         requires=lambda c: Inv(c.s, c.self) + [('line end', c.s.ob(c.self, 'state') == E('RESET_PROMPT'))] + J_args(c.s, c.self),
         entry=lambda c: tok_end(tokg(c.s)),
         modifies=lambda c: all_mod(c),
         ensures=lambda c: dispatch(c, c.s) + [Clause('C06.' + n, f) for n, f in Inv(c.t, c.self)])


def line_char(c): return c.s.B(ibuf(c.s, c.self), c.s.ob(c.self, 'in_pos'))


def parse_char_post(c):
    s, t, me = c.s, c.t, c.self
    ch = line_char(c)
    end = Or(ch == 10, ch == 13)
    s2 = finish_s2(c)
    return [('C03.rules ' + k, Implies(Not(end), t.g(k) == v)) for k, v in tok_step(tokg(s), ch).items()] + \
        [('C03.next character', Implies(Not(end), t.ob(me, 'in_pos') == s.ob(me, 'in_pos') + 1)),
         ('C03.line is kept', Implies(Not(end), And(t.g('tl') == s.g('tl'), t.g('nl') == s.g('nl')))),
         ('C03.parsing goes on', Implies(Not(end), isin(t.ob(me, 'state'), *PARSES))),
         ('C04.splitting calls nothing', Implies(Not(end), And(same_g(c, *CALLG), same_g(c, 'nf'), same_world(c))))] + \
        [('C03.end ' + k, Implies(end, t.g(k) == v)) for k, v in tok_end(tokg(s)).items()] + \
        [(n, Implies(end, f)) for n, f in dispatch(c, s2)]


contract('ush_parse_char', ['self'], axioms=('zend', 'str', 'fd'),
         requires=lambda c: Inv(c.s, c.self) + [('parsing', isin(c.s.ob(c.self, 'state'), *PARSES))],
         modifies=lambda c: all_mod(c) + TOKMOD,
         ensures=lambda c: parse_char_post(c) + [('C06.' + n, f) for n, f in Inv(c.t, c.self)])


def untouched(c):
    """a service that is not in charge changes nothing"""
    return And(same_all(c), same_world(c), same_bytes(c, ibuf(c.s, c.self)), same_bytes(c, obuf(c.s, c.self)), same_g(c, *[g for g in CBG]))


def parse_service_post(c):
    s, t, me = c.s, c.t, c.self
    st = st0(c)
    return [('C06.serves exactly its states', c.r == isin(st, 'PARSE_PREPARE', *PARSES)),
            ('C06.other states untouched', Implies(Not(c.r), And(untouched(c), tok_same(s, t), same_g(c, *HOOKG)))),
            ('C03.splitting starts at the line start', Implies(st == E('PARSE_PREPARE'), And(isin(t.ob(me, 'state'), *PARSES), t.ob(me, 'in_pos') == 0, t.g('tl') == s.A(ibuf(s, me)), t.g('nl') == s.g('nl'), t.g('tkn') == 0))),
            ('C22.splitting or prompt', Implies(isin(st, *PARSES), Or(isin(t.ob(me, 'state'), *PARSES), after(t, me)))),
            ('C04.one call per line', And(t.g('ne') >= s.g('ne'), t.g('ne') <= s.g('ne') + 1, t.g('nh') >= s.g('nh'), t.g('nh') <= s.g('nh') + 1))]


contract('ush_parse_service', ['self'], axioms=QAX,
         requires=lambda c: Inv(c.s, c.self),
         modifies=lambda c: all_mod(c) + TOKMOD + [('G', 'tl')],
         ensures=lambda c: parse_service_post(c) + [('C06.' + n, f) for n, f in Inv(c.t, c.self)])

contract('ush_process_start', ['self', 'file'],
         requires=lambda c: [('self', selfok(c)), ('C20.file outlives the call', ptr_ok(c.file))],
         modifies=lambda c: mod_ob(c.self, 'process_file', 'state'),
         ensures=lambda c: [('C22.processing', And(c.t.ob(c.self, 'process_file') == c.file, c.t.ob(c.self, 'state') == E('PROCESS_START')))])


def process_service_post(c):
    s, t, me = c.s, c.t, c.self
    st = st0(c); pr = s.fd(s.ob(me, 'process_file'), 'process')
    return [('C06.serves exactly its states', c.r == isin(st, *PROCS)),
            ('C06.other states untouched', Implies(Not(c.r), untouched(c))),
            ('C22.no process ends the command', Implies(And(c.r, pr == NULL), And(t.ob(me, 'state') == E('RESET'), same_all(c, 'state'), same_world(c), same_g(c, *CBG)))),
            ('C22.one step of the command', Implies(And(c.r, pr != NULL), And(t.g('np') == s.g('np') + 1, t.g('lpf') == s.ob(me, 'process_file')))),
            ('C22.command or prompt', Implies(c.r, after(t, me)))]


contract('ush_process_service', ['self'], axioms=QAX,
         requires=lambda c: Inv(c.s, c.self),
         modifies=lambda c: cb_mod(c),
         ensures=lambda c: process_service_post(c) + [('C06.' + n, f) for n, f in Inv(c.t, c.self)])

# ------------------------------------------------------------------ one step
ACST = ('AUTOCOMP_PREPARE', 'AUTOCOMP_PROMPT_PREPARE', 'AUTOCOMP_PROMPT', 'AUTOCOMP_RECALL') + ACPOS


def service_mod(c):
    return all_mod(c) + TOKMOD + [('G', g) for g in ('tl', 'nl', 'nc', 'nr', 'rtr', 'nw', 'wtr')]


def flow(c):
    """the order of the states: what is entered after what"""
    s, t, me = c.s, c.t, c.self
    st = st0(c); e = eff(t, me)
    pn = lambda x: t.ob(me, 'prompt_next_state')
    step = [
        ('reset', st == E('RESET'), e == E('RESET_PROMPT')),
        ('prompt starts', st == E('RESET_PROMPT'), And(e == E('PROMPT_PREFIX'), pn(0) == E('READ_PREPARE'))),
        ('prompt prefix', st == E('PROMPT_PREFIX'), e == E('PROMPT_HOST')), ('prompt host', st == E('PROMPT_HOST'), e == E('PROMPT_SPACE')),
        ('prompt space', st == E('PROMPT_SPACE'), e == E('PROMPT_PATH')), ('prompt path', st == E('PROMPT_PATH'), e == E('PROMPT_SUFFIX')),
        ('prompt ends', st == E('PROMPT_SUFFIX'), e == s.ob(me, 'prompt_next_state')),
        ('prompt target kept', isin(st, *PROMPTS), t.ob(me, 'prompt_next_state') == s.ob(me, 'prompt_next_state')),
        ('read starts', st == E('READ_PREPARE'), e == E('READ_CHAR')),
        ('reading', st == E('READ_CHAR'), isin(e, 'READ_CHAR', 'PARSE_PREPARE', 'RESET', 'AUTOCOMP_PREPARE')),
        ('abandoned line ends at the prompt', And(st == E('READ_CHAR'), t.g('nr') == s.g('nr') + 1, Select(t.g('rtr'), s.g('nr')) == 3), e == E('RESET')),
        ('splitting starts', st == E('PARSE_PREPARE'), e == E('PARSE_SEARCH_ARG')),
        ('splitting', isin(st, *PARSES), Or(isin(e, *PARSES), after(t, me))),
        ('writing', st == E('WRITE_CHAR'), And(e == eff(s, me), Implies(t.ob(me, 'state') != E('WRITE_CHAR'), s.ob(me, 'write_pos') >= s.ob(me, 'write_size')))),
        ('command', isin(st, *PROCS), after(t, me)),
    ]
    return [('C22.' + n, Implies(cnd, f)) for n, cnd, f in step]


def service_post(c):
    s, t, me = c.s, c.t, c.self
    st = st0(c)
    quiet = And(t.g('nr') == s.g('nr'))
    return [
        ('C06.at most one interface call', And(t.g('nc') >= s.g('nc'), t.g('nc') <= s.g('nc') + 1)),
        ('C06.idle exactly when nothing was read', c.r == Not(Or(st == E('READ_PREPARE'), And(st == E('READ_CHAR'), t.g('nr') == s.g('nr'))))),
        ('C06.idle changes nothing', Implies(And(st == E('READ_CHAR'), t.g('nr') == s.g('nr')), And(untouched(c), t.g('nw') == s.g('nw'), t.g('wtr') == s.g('wtr')))),
    ] + flow(c)


contract('ush_service', ['self'], axioms=QAX,
         requires=lambda c: Inv(c.s, c.self),
         modifies=service_mod,
         ensures=lambda c: service_post(c) + [('C06.' + n, f) for n, f in Inv(c.t, c.self)])
