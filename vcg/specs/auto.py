"""TAB completion."""
from specs.service import *

ACF = ('autocomp_prev_state', 'autocomp_input', 'autocomp_candidate_name', 'autocomp_name', 'autocomp_count', 'autocomp_prev_count', 'autocomp_suffix_len')
WALKF = ('process_node', 'process_index', 'process_index_item', 'process_stage')
AAX = ('zend', 'str', 'prefix', 'fd', 'bridge')


def ac_mod(c): return mod_ob(c.self, 'in_pos', 'state', 'prompt_next_state', 'write_pos', 'write_size', 'write_buf', 'write_next_state', *WALKF, *ACF) + ibuf_mod(c)


def line_same(c): return And(same(c, 'in_pos'), same_bytes(c, ibuf(c.s, c.self)))


def word(s, me): return s.ob(me, 'autocomp_input')
def W_(s, me): return s.S(word(s, me))


def pos(s, me): return [s.ob(me, f) for f in ('process_stage', 'process_node', 'process_index_item', 'process_index')]


def at_pos(t, me, stage, node, item, idx):
    a, b, d, e = pos(t, me)
    return And(a == stage, b == node, d == item, e == idx)


def walk_start(t, me): return And(at_pos(t, me, 0, t.ob(me, 'commands'), 0, 0), t.ob(me, 'autocomp_count') == 0)


def dir_of(s, me):
    """the directory whose children are offered for the word"""
    p = findparent(s, me, absS(s, me, W_(s, me)))
    return If(Or(s.B(word(s, me)) == 0, p == NULL), cur(s, me), p)


def prepare_post(c):
    s, t, me = c.s, c.t, c.self
    ib = ibuf(s, me)
    return [('C17.word is the text behind the last space', And(same_bytes(c, ib), t.ob(me, 'in_pos') == s.strlen(ib), O(word(t, me)) == O(ib),
                                                             last_arg(c, s.A(ib), OFF(ib), s.zend(ib), OFF(word(t, me))))),
            ('C17.search starts', And(t.ob(me, 'state') == E('AUTOCOMP_CANDIDATES_START')))]


def start_post(c):
    t, me = c.t, c.self
    return [('C17.from the first command on', And(walk_start(t, me), t.ob(me, 'state') == E('AUTOCOMP_CANDIDATES_COUNT'), t.ob(me, 'autocomp_suffix_len') == 0)),
            ('C17.line is kept', And(line_same(c), same(c, 'autocomp_input')))]


def walk_post(c):
    """one step of the search through commands, files of the current directory and child directories"""
    s, t, me = c.s, c.t, c.self
    st = st0(c)
    stage, node, item, idx = pos(s, me)
    cn = s.ob(me, 'autocomp_count')
    files = stage <= 1
    size = s.nd(node, 'file_list_size')
    end = node == NULL
    nofile = And(Not(end), files, item >= size)
    cand = And(Not(end), Not(nofile))
    fn = s.fd(fat(s.nd(node, 'file_list'), item), 'name')       # name of a file
    dp = s.nd(node, 'path')                                     # path of a directory
    stay = And(t.ob(me, 'state') == st, same(c, 'autocomp_count', 'autocomp_candidate_name', *WFRAME))
    an = t.ob(me, 'autocomp_name')
    match = If(files, prefixof(W_(s, me), cS(fn)), prefixof(W_(s, me), cS(an)))
    name = If(files, fn, an)
    nxt = If(files, at_pos(t, me, stage, node, item + 1, 0), And(t.ob(me, 'process_stage') == stage, t.ob(me, 'process_node') == s.nd(node, 'next'), t.ob(me, 'process_index') == 0))
    printing = st == E('AUTOCOMP_CANDIDATES_PRINT')
    show = lambda f: If(printing, f, And(t.ob(me, 'state') == st, same(c, *WFRAME)))
    return [
        ('C17.line is kept', And(line_same(c), same(c, 'autocomp_input', 'autocomp_prev_count', 'autocomp_suffix_len'))),
        ('C17.files after commands', Implies(And(end, stage == 0), And(at_pos(t, me, 1, cur(s, me), 0, 0), stay))),
        ('C17.directories after files', Implies(And(end, stage == 1), And(at_pos(t, me, 2, s.nd(dir_of(s, me), 'children'), 0, 0), stay))),
        ('C17.search ends', Implies(And(end, stage == 2), And(t.ob(me, 'state') == E('AUTOCOMP_CANDIDATES_FINISH'), t.ob(me, 'autocomp_prev_state') == st, same(c, 'autocomp_count', 'autocomp_candidate_name')))),
        ('C17.next command group', Implies(And(nofile, stage == 0), And(t.ob(me, 'process_stage') == 0, t.ob(me, 'process_node') == s.nd(node, 'next'), t.ob(me, 'process_index_item') == 0, stay))),
        ('C17.only the current directory', Implies(And(nofile, stage == 1), And(t.ob(me, 'process_stage') == 1, t.ob(me, 'process_node') == NULL, t.ob(me, 'process_index_item') == 0, stay))),
        ('C17.directory name', Implies(And(cand, stage == 2), And(O(an) == O(dp), lastpos_spec(cmem(O(dp)), OFF(dp), zend(cmem(O(dp)), OFF(dp)), OFF(an))))),
        ('C17.other names are skipped', Implies(And(cand, Not(match)), And(nxt, stay))),
        ('C17.match is counted', Implies(And(cand, match, idx == 0), t.ob(me, 'autocomp_count') == If(cn == 2 ** 64 - 1, IV(0), cn + 1))),
        ('C17.match position', Implies(And(cand, match, idx == 0), at_pos(t, me, stage, node, item, 1))),
        ('C17.match is remembered', Implies(And(cand, match, idx == 0), t.ob(me, 'autocomp_candidate_name') == name)),
        ('C17.match is listed', Implies(And(cand, match, idx == 0), show(queued_region(t, me, name, clen(name), st)))),
        ('C17.new line behind', Implies(And(cand, match, idx == 1), And(at_pos(t, me, stage, node, item, 2), same(c, 'autocomp_count', 'autocomp_candidate_name'), show(queued_text(t, me, b'\r\n', st))))),
        ('C17.next name', Implies(And(cand, match, idx == 2), And(nxt, stay))),
    ]


def recall_end(c, st):
    """nothing more can be added"""
    t, me = c.t, c.self
    return And(line_same(c), t.ob(me, 'state') == st, same(c, 'autocomp_input'))


def try_next(c):
    """the line with one more character of the last match is counted again"""
    s, t, me = c.s, c.t, c.self
    ib = ibuf(s, me); ip = s.ob(me, 'in_pos'); cnm = s.ob(me, 'autocomp_candidate_name')
    n = slen(W_(s, me)); N = cS(cnm)
    room = ip + 1 < isz(s, me)
    A2 = Store(Store(s.A(ib), OFF(ib) + ip, sat(N, n)), OFF(ib) + ip + 1, IV(0))
    more = And(room, n < slen(N))
    return [('no more', Implies(Not(more), recall_end(c, E('AUTOCOMP_RECALL_SUFFIX')))),
            ('tried', Implies(more, And(t.A(ib) == A2, t.ob(me, 'in_pos') == ip + 1, t.ob(me, 'autocomp_suffix_len') == sl0(c) + 1, same(c, 'autocomp_input'), t.ob(me, 'state') == E('AUTOCOMP_CANDIDATES_OPTIMISE'),
                                       walk_start(t, me), t.ob(me, 'autocomp_prev_count') == s.ob(me, 'autocomp_count'))))]


def sl0(c):
    s, me = c.s, c.self
    return If(s.ob(me, 'autocomp_prev_state') == E('AUTOCOMP_CANDIDATES_COUNT'), IV(0), s.ob(me, 'autocomp_suffix_len'))


def finish_post(c):
    s, t, me = c.s, c.t, c.self
    ib = ibuf(s, me); ip = s.ob(me, 'in_pos'); ai = word(s, me); cnm = s.ob(me, 'autocomp_candidate_name')
    ps = s.ob(me, 'autocomp_prev_state'); cn = s.ob(me, 'autocomp_count')
    counted = ps == E('AUTOCOMP_CANDIDATES_COUNT'); opt = ps == E('AUTOCOMP_CANDIDATES_OPTIMISE')
    n = slen(W_(s, me)); N = cS(cnm)
    pre_ = OFF(ai) - OFF(ib)
    fit = pre_ + slen(N) < isz(s, me)
    less = cn < s.ob(me, 'autocomp_prev_count')
    k = Const('kk', I)
    return [
        ('C17.listing done', Implies(ps == E('AUTOCOMP_CANDIDATES_PRINT'), And(line_same(c), t.ob(me, 'state') == E('AUTOCOMP_PROMPT')))),
        ('C17.no match', Implies(And(counted, cn == 0), And(line_same(c), t.ob(me, 'state') == E('READ_CHAR')))),
        ('C17.one match does not fit', Implies(And(counted, cn == 1, Not(fit)), And(line_same(c), t.ob(me, 'state') == E('READ_CHAR')))),
        ('C17.one match length', Implies(And(counted, cn == 1, fit), And(t.ob(me, 'in_pos') == pre_ + slen(N), vs(t.A(ib), OFF(ib)), t.strlen(ib) == pre_ + slen(N)))),
        Clause('C17.one match name', Implies(And(counted, cn == 1, fit), t.S(ai) == N), lem=[ext(t.S(ai), N)]),
        ('C17.one match keeps the line before', Implies(And(counted, cn == 1, fit), ForAll([k], Implies(k < OFF(ai), Select(t.A(ib), k) == Select(s.A(ib), k)), patterns=[Select(t.A(ib), k)]))),
        ('C17.one match shows the rest', Implies(And(counted, cn == 1, fit), queued_region(t, me, mk(O(ai), OFF(ai) + n), slen(N) - n, E('READ_CHAR')))),
    ] + [('C17.several matches ' + nm, Implies(And(counted, cn >= 2), f)) for nm, f in try_next(c)] + [
        ('C17.not common is taken back', Implies(And(opt, less), And(t.A(ib) == Store(s.A(ib), OFF(ib) + ip - 1, IV(0)), t.ob(me, 'in_pos') == ip - 1, same(c, 'autocomp_input'),
                                                                    t.ob(me, 'autocomp_suffix_len') == s.ob(me, 'autocomp_suffix_len') - 1, t.ob(me, 'state') == E('AUTOCOMP_RECALL_SUFFIX')))),
    ] + [('C17.still common ' + nm, Implies(And(opt, Not(less)), f)) for nm, f in try_next(c)]


def recall_post(c):
    s, t, me = c.s, c.t, c.self
    ai = word(s, me); sl = s.ob(me, 'autocomp_suffix_len'); n = s.strlen(ai)
    return [('C17.line is kept', line_same(c)),
            ('C17.added text is shown', Implies(sl > 0, queued_region(t, me, mk(O(ai), OFF(ai) + n - sl), sl, E('READ_CHAR')))),
            ('C17.nothing added lists the matches', Implies(sl == 0, And(walk_start(t, me), same(c, 'autocomp_input'), queued_text(t, me, b'\r\n', E('AUTOCOMP_CANDIDATES_PRINT')))))]


def ac_contract(nm, states, post, mods=ac_mod, axioms=AAX):
    contract(nm, ['self'], axioms=axioms,
             requires=lambda c: Inv(c.s, c.self) + [('state', isin(st0(c), *states))],
             modifies=mods,
             ensures=lambda c: post(c) + [('C06.' + n, f) for n, f in Inv(c.t, c.self)])


ac_contract('ush_autocomp_state_prepare', ('AUTOCOMP_PREPARE',), prepare_post)
ac_contract('ush_autocomp_state_candidates_start', ('AUTOCOMP_CANDIDATES_START',), start_post)
ac_contract('ush_autocomp_state_candidates_process', ACWALK, walk_post)
ac_contract('ush_autocomp_state_candidates_finish', ('AUTOCOMP_CANDIDATES_FINISH',), finish_post)
ac_contract('ush_autocomp_state_recall_suffix', ('AUTOCOMP_RECALL_SUFFIX',), recall_post)


def ac_flow(c):
    s, t, me = c.s, c.t, c.self
    st = st0(c); e = eff(t, me)
    return [('C22.line is shown again', Implies(st == E('AUTOCOMP_RECALL'), And(line_same(c), queued_region(t, me, ibuf(s, me), s.strlen(ibuf(s, me)), E('READ_CHAR'))))),
            ('C22.prompt after the listing', Implies(st == E('AUTOCOMP_PROMPT'), And(line_same(c), e == E('PROMPT_PREFIX'), t.ob(me, 'prompt_next_state') == E('AUTOCOMP_RECALL')))),
            ('C22.completion goes on or back to reading', Implies(And(c.r, st != E('AUTOCOMP_PROMPT')), isin(e, 'READ_CHAR', *ACST)))]


AC_STEPS = [('AUTOCOMP_PREPARE',), ('AUTOCOMP_CANDIDATES_START',), ACWALK, ('AUTOCOMP_CANDIDATES_FINISH',), ('AUTOCOMP_RECALL_SUFFIX',)]


def ac_steps(c):
    st = st0(c)
    out = []
    for states, post in zip(AC_STEPS, (prepare_post, start_post, walk_post, finish_post, recall_post)):
        for cl in post(c):
            n, f = (cl.name, cl.f) if isinstance(cl, Clause) else cl
            out.append((n + ' in ' + states[0], Implies(isin(st, *states), f)))
    return out


contract('ush_autocomp_service', ['self'], axioms=AAX,
         requires=lambda c: Inv(c.s, c.self), modifies=ac_mod,
         ensures=lambda c: [('C06.serves exactly its states', c.r == isin(st0(c), *ACST)), ('C06.other states untouched', Implies(Not(c.r), untouched(c)))] + ac_flow(c) + ac_steps(c) +
         [('C06.' + n, f) for n, f in Inv(c.t, c.self)])
