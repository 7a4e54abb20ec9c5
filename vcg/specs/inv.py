"""The invariant of a shell between two calls of ush_service, and the contracts
assumed for the callbacks of the user."""
from specs.print import *
from specs.parse import *
import specs.base as _b

FD = 'ush_file_descriptor'
BUILTIN = {n: 'ush_buildin_cmd_%s' % n for n in ('help', 'ls', 'cd', 'pwd', 'cat', 'xxd', 'echo')}
SERVED = ('help', 'ls', 'cat', 'xxd')
ACPOS = ('AUTOCOMP_CANDIDATES_START', 'AUTOCOMP_CANDIDATES_COUNT', 'AUTOCOMP_CANDIDATES_OPTIMISE', 'AUTOCOMP_CANDIDATES_PRINT',
         'AUTOCOMP_CANDIDATES_FINISH', 'AUTOCOMP_RECALL_SUFFIX')
ACREAD = ('READ_CHAR', 'AUTOCOMP_PREPARE', 'AUTOCOMP_PROMPT_PREPARE', 'AUTOCOMP_PROMPT', 'AUTOCOMP_RECALL') + ACPOS


def fptr(n): return _b.W.fptr(n)


GHOST_SORTS.update({'g.xlfn': Str, 'g.lso': I})


def exec_of(n): return fptr(BUILTIN[n] + '_callback')
def proc_of(n): return fptr(BUILTIN[n] + '_service')


def pairing(eng):
    """the built-in callbacks belong together (checked on the table of built-in commands)"""
    x = Select(eng.mem0.get('F.%s.exec' % FD), f_); pr = Select(eng.mem0.get('F.%s.process' % FD), f_)
    return [('fd.builtin.' + n, ForAll([f_], Implies(And(ok(FD)(f_), x == exec_of(n)), pr == proc_of(n)), patterns=[ok(FD)(f_)])) for n in SERVED
            if BUILTIN[n] + '_callback' in _b.W.fid and BUILTIN[n] + '_service' in _b.W.fid]


FD_EXTRA.append(pairing)


def eff(s, me): return If(s.ob(me, 'state') == E('WRITE_CHAR'), s.ob(me, 'write_next_state'), s.ob(me, 'state'))


def descr(s, n, k): return s.fd(fat(s.nd(n, 'file_list'), k), 'description')


def J_acpos(s, me):
    """the line being completed"""
    ib = ibuf(s, me); ai = s.ob(me, 'autocomp_input'); ip = s.ob(me, 'in_pos')
    return And(vs(s.A(ib), OFF(ib)), s.strlen(ib) == ip, O(ai) == O(ib), OFF(ai) >= OFF(ib), OFF(ai) <= OFF(ib) + ip)


def acname(s, me):
    """a candidate name is a read-only text that starts with the completed word"""
    n = s.ob(me, 'autocomp_candidate_name')
    return And(ccstr(n), prefixof(s.S(s.ob(me, 'autocomp_input')), cS(n)))


def J_walk(s, me):
    pn = s.ob(me, 'process_node'); st = s.ob(me, 'process_stage')
    return And(st >= 0, st <= 2, Implies(pn != NULL, If(st == 0, Select(s.g('cin'), pn), Select(s.g('tin'), pn))),
               s.ob(me, 'process_index') >= 0, s.ob(me, 'process_index') <= 2,
               s.ob(me, 'autocomp_count') >= 0)


def J_ls(s, me, st):
    pn, ch, ix, it = [s.ob(me, x) for x in ('process_node', 'process_child_node', 'process_index', 'process_index_item')]
    tin = s.g('tin')
    return And(Implies(isin(st, *PROCS), Select(tin, pn)),
               Implies(st == E('PROCESS_SERVICE'), And(ix >= 0, ix <= 3, Implies(ch != NULL, And(Select(tin, ch), s.nd(ch, 'parent') == pn)))),
               Implies(st == E('PROCESS_FINISH'), And(ix >= 0, ix <= 3, it >= 0, Implies(And(ix == 2, it < s.nd(pn, 'file_list_size')), descr(s, pn, it) != NULL))))


def J_help(s, me, st):
    pn, ix, it = [s.ob(me, x) for x in ('process_node', 'process_index', 'process_index_item')]
    return Implies(isin(st, *PROCS), And(st == E('PROCESS_START'), Implies(pn != NULL, Select(s.g('cin'), pn)), ix >= 0, ix <= 2, it >= 0,
                                         Implies(And(pn != NULL, ix == 1, it < s.nd(pn, 'file_list_size')), descr(s, pn, it) != NULL)))


def J_xxd(s, me, st):
    d, n, ix, it = [s.ob(me, x) for x in ('process_data', 'process_data_size', 'process_index', 'process_index_item')]
    return And(Implies(isin(st, 'PROCESS_START', 'PROCESS_SERVICE'), And(region_ok(s, d, n), O(d) != O(obuf(s, me)))),
               Implies(st == E('PROCESS_SERVICE'), And(ix >= 0, ix <= 3, it % 8 == 0, If(ix == 3, And(it >= 8, it < n + 8 + If(n == 0, IV(1), IV(0))), And(it >= 0, Or(it == 0, it < n))))))


def J_cat(s, me, st):
    return [('cat.' + n, Implies(isin(st, 'PROCESS_START', 'PROCESS_SERVICE'), f)) for n, f in J_args(s, me)] + \
           [('cat.item', Implies(st == E('PROCESS_SERVICE'), s.ob(me, 'process_index_item') >= 1))]


def local_inv(s, me):
    """everything that is not about mounts and commands"""
    st = s.ob(me, 'state'); wn = s.ob(me, 'write_next_state'); e = eff(s, me)
    pnx = s.ob(me, 'prompt_next_state')
    pf = s.ob(me, 'process_file'); pr = s.fd(pf, 'process')
    has = lambda n: BUILTIN[n] + '_service' in _b.W.fid
    out = [('inv.state', And(valid_state(st), valid_state(wn), e != E('WRITE_CHAR'))),
           ('inv.region', Implies(st == E('WRITE_CHAR'), region_ok(s, s.ob(me, 'write_buf'), s.ob(me, 'write_size')))),
           ('inv.queued output', J_out(s, me)),
           ('inv.prompt', Implies(isin(e, *PROMPTS), isin(pnx, 'READ_PREPARE', 'AUTOCOMP_RECALL'))),
           ('inv.line', Implies(Or(isin(e, *ACREAD), And(isin(e, *PROMPTS), pnx == E('AUTOCOMP_RECALL'))), J_read(s, me))),
           ('inv.line end', Implies(e == E('PARSE_PREPARE'), J_nl(s, me))),
           ]
    out += [('inv.' + n, Implies(isin(e, *PARSES), f)) for n, f in J_parse(s, me) if n not in ('queued output',)]
    out += [('inv.process file', Implies(isin(e, *PROCS), And(fdok(pf))))]
    for n, J in (('ls', J_ls), ('help', J_help), ('xxd', J_xxd)):
        if has(n): out.append(('inv.' + n, Implies(And(isin(e, *PROCS), pr == proc_of(n)), J(s, me, e))))
    if has('cat'): out += [('inv.' + n, Implies(pr == proc_of('cat'), f)) for n, f in J_cat(s, me, e)]
    ac = lambda x: 'F.ush_object.' + x in engine.FIELD_SORT
    if ac('autocomp_input'):
        sl = s.ob(me, 'autocomp_suffix_len'); ai = s.ob(me, 'autocomp_input'); ps = s.ob(me, 'autocomp_prev_state'); cn = s.ob(me, 'autocomp_count')
        walk = isin(e, *ACWALK); fin = e == E('AUTOCOMP_CANDIDATES_FINISH')
        opt = Or(e == E('AUTOCOMP_CANDIDATES_OPTIMISE'), And(fin, ps == E('AUTOCOMP_CANDIDATES_OPTIMISE')))
        out += [('inv.word', Implies(isin(e, *ACPOS), J_acpos(s, me))),
                ('inv.walk', Implies(walk, J_walk(s, me))),
                ('inv.walked', Implies(fin, And(isin(ps, *ACWALK), cn >= 0))),
                ('inv.candidate', Implies(And(Or(walk, fin), cn >= 1), acname(s, me))),
                ('inv.several', Implies(opt, And(s.ob(me, 'autocomp_prev_count') >= 2, sl >= 1, s.strlen(ai) >= 1))),
                ('inv.suffix', Implies(Or(walk, fin, e == E('AUTOCOMP_RECALL_SUFFIX')), And(sl >= 0, sl <= s.strlen(ai))))]
    return out


def Inv(s, me): return shell(s, me) + local_inv(s, me)


def inv_post(c, pre_=''):
    """the invariant holds again"""
    return [('C06.' + n, f) for n, f in local_inv(c.t, c.self)]


# ------------------------------------------------------------------ callbacks of the user (assumed)
def allself(c, *but): return mod_ob(c.self, *[f for f in obf(c) if f != 'desc' and f not in but])


CBG = ('nf', 'lf', 'lfn', 'ne', 'xf', 'xargc', 'xnf', 'xlf', 'xlfn', 'ng', 'lgf', 'lgd', 'lgn', 'ns', 'lsf', 'lsn', 'lsd', 'lso', 'np', 'lpf', 'pfr', 'pft') + TREE_G + CMD_G


def cb_mod(c): return allself(c) + [('UFall', ND, f) for f in NDF] + [('G', g) for g in CBG] + [('U',)]


def args_ok(s, me, argc, argv):
    n = s.g('tkn')
    return [('C03.argument count', argc == n), ('C03.arguments', args_at(s, me, s.A, s.cell, argv, n)),
            ('C04.argv ends with NULL', And(s.cell(argv, n) == NULL)), ('argv room', And(O(argv) != 0, OFF(argv) == 0, psize(O(argv)) > n, n >= 1))]


def idle(s, me): return isin(eff(s, me), 'RESET', 'RESET_PROMPT')
def after(s, me): return isin(eff(s, me), 'RESET', 'RESET_PROMPT', *PROCS)


def exec_pre(c):
    s, me = c.s, c.self
    return Inv(s, me) + J_args(s, me) + args_ok(s, me, c.argc, c.argv) + [('C22.prompt follows', idle(s, me))]


def exec_params(extra=()): return ['self', 'file', 'argc', 'argv'] + list(extra)


contract('*ush_file_descriptor.exec', exec_params(['fdp', 'fn']), trusted=True,
         requires=lambda c: exec_pre(c) + [('file', And(fdok(c.file), c.s.fd(c.file, 'exec') == c.a['fn'], c.file == c.fdp))],
         modifies=cb_mod,
         ghost=lambda c: dict(ne=c.s.g('ne') + 1, xf=c.file, xargc=c.argc, xnf=c.s.g('nf'), xlf=c.s.g('lf'), xlfn=c.s.g('lfn')),
         ensures=lambda c: Inv(c.t, c.self) + [after(c.t, c.self)])

contract('*ush_descriptor.exec', exec_params(['dp', 'fn']), trusted=True,
         requires=lambda c: exec_pre(c) + [('no file', c.file == NULL)],
         modifies=lambda c: allself(c, 'args_count') + [('UFall', ND, f) for f in NDF] + [('G', g) for g in CBG if g not in ('ne', 'xf', 'xargc', 'xnf', 'xlf', 'xlfn')] +
         [('G', g) for g in ('nh', 'hnf', 'hne', 'hargc', 'hf')] + [('U', lambda o: o == O(ibuf(c.s, c.self)))],
         ghost=lambda c: dict(nh=c.s.g('nh') + 1, hnf=c.s.g('nf'), hne=c.s.g('ne'), hargc=c.argc, hf=c.file),
         ensures=lambda c: Inv(c.t, c.self) + [idle(c.t, c.self)])

contract('*ush_file_descriptor.get_data', ['self', 'file', 'data', 'fdp', 'fn'], trusted=True,
         requires=lambda c: shell(c.s, c.self) + [('file', And(fdok(c.file), c.s.fd(c.file, 'get_data') == c.a['fn'], c.file == c.fdp))],
         modifies=lambda c: [('LV', c.data), ('U', lambda o: Or(o == O(ibuf(c.s, c.self)), o == O(obuf(c.s, c.self))))] + [('G', g) for g in ('ng', 'lgf', 'lgd', 'lgn')],
         ghost=lambda c: dict(ng=c.s.g('ng') + 1, lgf=c.file, lgd=c.t.lv(c.data), lgn=c.r),
         ensures=lambda c: [region_ok(c.t, c.t.lv(c.data), c.r), O(c.t.lv(c.data)) != O(obuf(c.s, c.self)), O(c.t.lv(c.data)) != O(ibuf(c.s, c.self))])

contract('*ush_file_descriptor.set_data', ['self', 'file', 'data', 'size', 'fdp', 'fn'], trusted=True,
         requires=lambda c: Inv(c.s, c.self) + [('C22.prompt follows', idle(c.s, c.self)), ('file', And(fdok(c.file), c.s.fd(c.file, 'set_data') == c.a['fn'], c.file == c.fdp)),
                                                ('data', region_ok(c.s, c.data, c.size))],
         modifies=cb_mod,
         ghost=lambda c: dict(ns=c.s.g('ns') + 1, lsf=c.file, lsn=c.size, lsd=c.s.A(c.data), lso=OFF(c.data)),
         ensures=lambda c: Inv(c.t, c.self) + [after(c.t, c.self)])

contract('*ush_file_descriptor.process', ['self', 'file', 'fdp', 'fn'], trusted=True,
         requires=lambda c: Inv(c.s, c.self) + [('file', And(fdok(c.file), c.s.fd(c.file, 'process') == c.a['fn'], c.file == c.fdp, c.s.ob(c.self, 'process_file') == c.file)),
                                                ('processing', isin(c.s.ob(c.self, 'state'), *PROCS))],
         modifies=cb_mod,
         ghost=lambda c: dict(np=c.s.g('np') + 1, lpf=c.file),
         ensures=lambda c: Inv(c.t, c.self) + [after(c.t, c.self)])
