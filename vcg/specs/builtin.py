"""The built-in commands. A command runs as one call of its callback and, for some, one call of its
service per step; each step queues the next piece of the output."""
from specs.auto import *

BAX = NAX + ('names', 'bridge')


def own(name, c): return And(fdok(c.file), c.s.fd(c.file, 'exec') == exec_of(name))
def arg(s, c, k): return s.cell(c.argv, k)
def argS(c, k): return c.s.S(arg(c.s, c, k))
def status(c, k): return queued_text(c.t, c.self, STEXT['ERROR_' + k], E('RESET'))
def errline(c, *cnd): return [('C22.error message then new line', Implies(Or(*cnd), eff(c.t, c.self) == E('RESET')))]
def nocall(c): return same_g(c, 'ng', 'ns', 'np', 'ne', 'nh')
def started(c): return And(c.t.ob(c.self, 'state') == E('PROCESS_START'), c.t.ob(c.self, 'process_file') == c.file)


def callback(name, post, mods=(), gh=(), user=False, axioms=BAX, loops=()):
    contract(BUILTIN[name] + '_callback', ['self', 'file', 'argc', 'argv'], axioms=axioms,
             requires=lambda c: exec_pre(c) + [('file', own(name, c))],
             modifies=(cb_mod if user else (lambda c: mod_ob(c.self, *(WFRAME + tuple(mods))) + [('G', g) for g in gh])),
             ensures=lambda c: post(c) + [('C22.command or prompt', after(c.t, c.self))] + [('C06.' + n, f) for n, f in Inv(c.t, c.self)],
             loops=list(loops))


def service(name, post, mods=(), gh=(), bufs=(), axioms=BAX, loops=()):
    contract(BUILTIN[name] + '_service', ['self', 'file'], axioms=axioms,
             requires=lambda c: Inv(c.s, c.self) + [('file', And(fdok(c.file), c.s.ob(c.self, 'process_file') == c.file, c.s.fd(c.file, 'process') == proc_of(name))),
                                                    ('processing', isin(st0(c), *PROCS))],
             modifies=lambda c: mod_ob(c.self, *(WFRAME + tuple(mods))) + [('G', g) for g in gh] + [x for b in bufs for x in b(c)],
             ensures=lambda c: post(c) + [('C22.command or prompt', after(c.t, c.self))] + [('C06.' + n, f) for n, f in Inv(c.t, c.self)],
             loops=list(loops))


# ------------------------------------------------------------------ cd, pwd
def cd_post(c):
    s, t, me = c.s, c.t, c.self
    d = target(s, me, argS(c, IV(1)))
    two = c.argc == 2
    keep = same(c, 'current_node')
    return [('C10.wrong arguments', Implies(Not(two), And(keep, status(c, 'COMMAND_WRONG_ARGUMENTS')))),
            ('C10.directory not found', Implies(And(two, d == NULL), And(keep, status(c, 'NODE_NOT_FOUND')))),
            ('C10.directory changed', Implies(And(two, d != NULL), And(t.ob(me, 'current_node') == d, same(c, *WFRAME)))),
            ('C10.still mounted', current(t, me))] + errline(c, Not(two), d == NULL)


callback('cd', cd_post, mods=('current_node',))


def pwd_post(c):
    s, t, me = c.s, c.t, c.self
    p = s.nd(cur(s, me), 'path')
    return [('C10.wrong arguments', Implies(c.argc != 1, status(c, 'COMMAND_WRONG_ARGUMENTS'))),
            ('C10.current path', Implies(c.argc == 1, queued_region(t, me, p, clen(p), E('RESET'))))] + errline(c, c.argc != 1)


callback('pwd', pwd_post)


# ------------------------------------------------------------------ cat
def readable(s, f): return And(f != NULL, s.fd(f, 'get_data') != NULL)


def cat_good(c, lo, hi):
    s, me = c.s, c.self
    k = Const('ck', I)
    F = FIND(s, me, s.S(s.cell(c.argv, k)))
    return ForAll([k], Implies(And(k >= lo, k < hi), readable(s, F)), patterns=[s.cell(c.argv, k)])


def cat_inv(L):
    c = L.c; s = c.s
    i = L.role('i')
    return [('index', And(i >= 1, i <= c.argc)), ('lookups', L.s.g('nf') == s.g('nf') + i - 1), ('readable so far', cat_good(c, 1, i)),
            ('last lookup', Implies(i >= 2, And(L.s.g('lfn') == argS(c, i - 1), L.s.g('lf') == FIND(s, c.self, argS(c, i - 1)))))]


def cat_post(c):
    s, t, me = c.s, c.t, c.self
    n = t.g('nf') - s.g('nf')             # arguments looked at
    st = t.ob(me, 'state')
    return [('C12.no file', Implies(c.argc < 2, And(status(c, 'COMMAND_WRONG_ARGUMENTS'), same_g(c, 'nf')))),
            ('C12.checked in order', Implies(c.argc >= 2, And(n >= 1, n <= c.argc - 1, t.g('lfn') == argS(c, n), t.g('lf') == FIND(s, me, argS(c, n))))),
            ('C12.all before are readable', Implies(c.argc >= 2, cat_good(c, 1, n))),
            ('C12.first file not found', Implies(And(c.argc >= 2, t.g('lf') == NULL), status(c, 'FILE_NOT_FOUND'))),
            ('C12.first file not readable', Implies(And(c.argc >= 2, t.g('lf') != NULL, s.fd(t.g('lf'), 'get_data') == NULL), status(c, 'FILE_NOT_READABLE'))),
            ('C12.printing only when all are readable', Implies(And(c.argc >= 2, readable(s, t.g('lf'))), And(n == c.argc - 1, started(c)))),
            ('C12.the check prints no content', nocall(c))] + errline(c, Not(isin(t.ob(me, 'state'), *PROCS)))


callback('cat', cat_post, mods=('process_file',), gh=('nf', 'lf', 'lfn'), loops=[LoopSpec(cat_inv, roles=[('i', 'int', 'i')], dec=lambda L: L.c.argc - L.role('i'))])


def cat_step(c):
    s, t, me = c.s, c.t, c.self
    st = st0(c); it = s.ob(me, 'process_index_item'); n = s.g('tkn')
    run = st == E('PROCESS_SERVICE')
    more = And(run, it < n)
    lf = t.g('lf')
    return [('C12.from the first file on', Implies(st == E('PROCESS_START'), And(t.ob(me, 'process_index_item') == 1, t.ob(me, 'state') == E('PROCESS_SERVICE'), nocall(c)))),
            ('C12.ends after the last file', Implies(And(run, it >= n), And(t.ob(me, 'state') == E('PROCESS_FINISH'), nocall(c)))),
            ('C12.next file is looked up', Implies(more, And(t.g('nf') == s.g('nf') + 1, Implies(s.g('tknz'), argtext(s, it, t.g('lfn')))))),
            ('C12.file disappeared', Implies(And(more, Not(readable(s, lf))), And(t.ob(me, 'state') == E('PROCESS_FINISH'), nocall(c)))),
            ('C12.data is read once', Implies(And(more, readable(s, lf)), And(t.g('ng') == s.g('ng') + 1, t.g('lgf') == lf, same_g(c, 'ns', 'np', 'ne', 'nh')))),
            ('C12.data is printed', Implies(And(more, readable(s, lf)), queued_region(t, me, t.g('lgd'), t.g('lgn'), E('PROCESS_SERVICE')))),
            ('C12.each file once', Implies(And(more, readable(s, lf)), t.ob(me, 'process_index_item') == it + 1)),
            ('C22.prompt after the last file', Implies(st == E('PROCESS_FINISH'), And(t.ob(me, 'state') == E('RESET_PROMPT'), nocall(c)))),
            ('C12.result', c.r)]


def user_data(c): return [('U', lambda o: Or(o == O(ibuf(c.s, c.self)), o == O(obuf(c.s, c.self))))]


service('cat', cat_step, mods=('process_index_item',), gh=('nf', 'lf', 'lfn', 'ng', 'lgf', 'lgd', 'lgn'), bufs=(user_data,))

# ------------------------------------------------------------------ pieces of a listing
GREEN, YELLOW, RST = b'\x1b[32m', b'\x1b[33m', b'\x1b[0m'
ALIGN = 16


def out_queued(c, total, nxt):
    """the output buffer is queued, holding min(total, room) bytes of text"""
    t, me = c.t, c.self
    cap = osz(c.s, me) - 1
    ob = obuf(c.s, me)
    n = If(total <= cap, total, cap)
    return And(queued_region(t, me, ob, n, nxt), Select(t.A(ob), OFF(ob) + n) == 0)


def out_bytes(c, at, b):
    t, me = c.t, c.self
    ob = obuf(c.s, me); cap = osz(c.s, me) - 1
    return And(*[Implies(at + i < cap, Select(t.A(ob), OFF(ob) + at + i) == x) for i, x in enumerate(b)])


def out_name(c, p, pad):
    """name at p, padded with blanks to pad characters"""
    t, me = c.t, c.self
    ob = obuf(c.s, me); cap = osz(c.s, me) - 1
    n = clen(p); w = If(n < pad, IV(pad), n) if pad else n
    b = OFF(ob)
    return ForAll([k_], Implies(And(k_ >= b, k_ < b + w, k_ < b + cap), Select(t.A(ob), k_) == If(k_ < b + n, Select(cmem(O(p)), OFF(p) + k_ - b), IV(32))), patterns=[Select(t.A(ob), k_)])


def name_described(c, p, nxt):
    n = clen(p); w = If(n < ALIGN, IV(ALIGN), n)
    tail = b' ' + YELLOW + b'- '
    return [('length', out_queued(c, w + len(tail), nxt)), ('text', out_name(c, p, ALIGN)), *[('separator %d' % i, out_bytes(c, w + i, tail[i:i + 1])) for i in range(len(tail))]]


def name_plain(c, p, nxt):
    return [('length', out_queued(c, clen(p), nxt)), ('text', out_name(c, p, 0))]


def imp(tag, cnd, cl): return [('%s %s' % (tag, n), Implies(cnd, f)) for n, f in cl]


# ------------------------------------------------------------------ help
def help_post(c):
    s, t, me = c.s, c.t, c.self
    lf = t.g('lf')
    two = c.argc == 2
    return [('C16.list starts with the newest group', Implies(c.argc == 1, And(started(c), t.ob(me, 'process_node') == s.ob(me, 'commands'), t.ob(me, 'process_index') == 0, t.ob(me, 'process_index_item') == 0))),
            ('C16.one file', Implies(two, And(t.g('nf') == s.g('nf') + 1, t.g('lfn') == argS(c, IV(1)), lf == FIND(s, me, argS(c, IV(1)))))),
            ('C16.file not found', Implies(And(two, lf == NULL), status(c, 'FILE_NOT_FOUND'))),
            ('C16.no help', Implies(And(two, lf != NULL, s.fd(lf, 'help') == NULL), status(c, 'FILE_NO_HELP'))),
            ('C16.help text', Implies(And(two, lf != NULL, s.fd(lf, 'help') != NULL), queued_region(t, me, s.fd(lf, 'help'), clen(s.fd(lf, 'help')), E('RESET_PROMPT')))),
            ('C16.wrong arguments', Implies(And(c.argc != 1, c.argc != 2), status(c, 'COMMAND_WRONG_ARGUMENTS')))] + errline(c, And(two, lf == NULL), And(two, s.fd(lf, 'help') == NULL), And(c.argc != 1, Not(two)))


callback('help', help_post, mods=('process_node', 'process_index', 'process_index_item', 'process_file'), gh=('nf', 'lf', 'lfn'))


def list_pos(t, me, node, idx, item): return And(t.ob(me, 'process_node') == node, t.ob(me, 'process_index') == idx, t.ob(me, 'process_index_item') == item)


def help_step(c):
    s, t, me = c.s, c.t, c.self
    node, ix, it = [s.ob(me, x) for x in ('process_node', 'process_index', 'process_index_item')]
    f = fat(s.nd(node, 'file_list'), it)
    d = s.fd(f, 'description'); nm = s.fd(f, 'name')
    end = node == NULL
    grp = And(Not(end), it >= s.nd(node, 'file_list_size'))
    item = And(Not(end), Not(grp))
    nx = E('PROCESS_START')
    return [('C16.ends after the last group', Implies(end, And(t.ob(me, 'state') == E('RESET_PROMPT'), same(c, 'write_pos', 'write_size', 'write_buf', 'write_next_state')))),
            ('C16.next group', Implies(grp, And(list_pos(t, me, s.nd(node, 'next'), 0, 0), same(c, *WFRAME)))),
            ('C16.position', Implies(item, list_pos(t, me, node, If(ix == 0, If(d != NULL, IV(1), IV(2)), If(ix == 1, IV(2), IV(0))), If(ix == 2, it + 1, it))))] + \
        imp('C16.name with description', And(item, ix == 0, d != NULL), name_described(c, nm, nx)) + \
        imp('C16.name', And(item, ix == 0, d == NULL), name_plain(c, nm, nx)) + \
        [('C16.description', Implies(And(item, ix == 1), queued_region(t, me, d, clen(d), nx))),
         ('C16.end of the line', Implies(And(item, ix == 2), If(d != NULL, queued_text(t, me, RST + b'\r\n', nx), queued_text(t, me, b'\r\n', nx)))),
         ('C16.result', c.r)]


service('help', help_step, mods=('process_node', 'process_index', 'process_index_item'), bufs=(obuf_mod,))


# ------------------------------------------------------------------ ls
def ls_post(c):
    s, t, me = c.s, c.t, c.self
    a = absS(s, me, argS(c, IV(1)))
    d = If(a == Empty, NULL, findnode(s, me, a))
    return [('C15.current directory', Implies(c.argc == 1, And(started(c), t.ob(me, 'process_node') == cur(s, me)))),
            ('C15.directory not found', Implies(And(c.argc == 2, d == NULL), status(c, 'NODE_NOT_FOUND'))),
            ('C15.directory', Implies(And(c.argc == 2, d != NULL), And(started(c), t.ob(me, 'process_node') == d))),
            ('C15.wrong arguments', Implies(And(c.argc != 1, c.argc != 2), status(c, 'COMMAND_WRONG_ARGUMENTS')))] + errline(c, Not(isin(t.ob(me, 'state'), *PROCS)))


callback('ls', ls_post, mods=('process_node', 'process_file'))


def ls_step(c):
    s, t, me = c.s, c.t, c.self
    st = st0(c)
    node, ch, ix, it = [s.ob(me, x) for x in ('process_node', 'process_child_node', 'process_index', 'process_index_item')]
    p = lambda x: t.ob(me, x)
    DOT, DOTS = [b'd---- ' + GREEN + x + RST + b'\r\n' for x in (b'.', b'..')]
    svc, fin = E('PROCESS_SERVICE'), E('PROCESS_FINISH')
    dirs = And(st == svc, ch != NULL)
    f = fat(s.nd(node, 'file_list'), it)
    d, nm = s.fd(f, 'description'), s.fd(f, 'name')
    item = And(st == fin, it < s.nd(node, 'file_list_size'))
    cp = s.nd(ch, 'path'); w = t.ob(me, 'write_buf')
    fl = lambda k, x: If(s.fd(f, k) != NULL, IV(ord(x)), IV(ord('-')))
    ob = obuf(s, me)
    flags = [IV(ord('-')), fl('get_data', 'r'), fl('set_data', 'w'), fl('exec', 'x'), fl('help', 'h'), IV(32)]
    return [('C15.this and parent directory', Implies(st == E('PROCESS_START'), And(If(s.nd(node, 'parent') != NULL, queued_text(t, me, DOT + DOTS, svc), queued_text(t, me, DOT, svc)),
                                                                                  p('process_child_node') == s.nd(node, 'children'), p('process_index') == 0))),
            ('C15.files after directories', Implies(And(st == svc, ch == NULL), And(p('state') == fin, p('process_index') == 0, p('process_index_item') == 0))),
            ('C15.directory mark', Implies(And(dirs, ix == 0), queued_text(t, me, b'd---- ' + GREEN, svc))),
            ('C15.directory name', Implies(And(dirs, ix == 1), And(O(w) == O(cp), lastpos_spec(cmem(O(cp)), OFF(cp), zend(cmem(O(cp)), OFF(cp)), OFF(w)),
                                                                  queued_region(t, me, w, zend(cmem(O(cp)), OFF(cp)) - OFF(w), svc)))),
            ('C15.directory line end', Implies(And(dirs, ix == 2), queued_text(t, me, b'/' + RST + b'\r\n', svc))),
            ('C15.next directory', Implies(dirs, And(p('process_child_node') == If(ix == 3, s.nd(ch, 'next'), ch), p('process_index') == If(ix == 3, IV(0), ix + 1), Implies(ix == 3, same(c, *WFRAME))))),
            ('C15.same directory', p('process_node') == node),
            ('C15.ends after the last file', Implies(And(st == fin, Not(item)), p('state') == E('RESET_PROMPT'))),
            *[('C15.flag %d' % i, Implies(And(item, ix == 0, osz(s, me) > 6), Select(t.A(ob), OFF(ob) + i) == x)) for i, x in enumerate(flags)],
            ('C15.flags', Implies(And(item, ix == 0, osz(s, me) > 6), out_queued(c, IV(6), fin))),
            ('C15.flags in a small buffer', Implies(And(item, ix == 0), queued_cstr(t, me, ob, fin))),
            ('C15.position', Implies(item, And(p('process_index') == If(ix == 0, IV(1), If(ix == 1, If(d != NULL, IV(2), IV(3)), If(ix == 2, IV(3), IV(0)))), p('process_index_item') == If(ix == 3, it + 1, it))))] + \
        imp('C15.name with description', And(item, ix == 1, d != NULL), name_described(c, nm, fin)) + \
        imp('C15.name', And(item, ix == 1, d == NULL), name_plain(c, nm, fin)) + \
        [('C15.description', Implies(And(item, ix == 2), queued_region(t, me, d, clen(d), fin))),
         ('C15.end of the line', Implies(And(item, ix == 3), If(d != NULL, queued_text(t, me, RST + b'\r\n', fin), queued_text(t, me, b'\r\n', fin)))),
         ('C15.result', c.r)]


service('ls', ls_step, mods=('process_child_node', 'process_index', 'process_index_item'), bufs=(obuf_mod,))


# ------------------------------------------------------------------ echo
def quiet_world(c): return And(same_world(c), same(c, 'current_node', 'root', 'commands'), nocall(c))


def decoded(A, o, T_, n):
    return ForAll([k_], Implies(And(k_ >= o, k_ < o + n), Select(A, k_) == dout(T_, k_ - o)), patterns=[Select(A, k_)])


def echo_cmd_post(c):
    s, t, me = c.s, c.t, c.self
    x = arg(s, c, IV(1)); T_ = s.S(x); A = t.A(x)
    lf = t.g('lf')
    four = c.argc == 4
    gt = argS(c, IV(2))
    isgt = And(slen(gt) == 1, s.B(arg(s, c, IV(2))) == 62)
    file = And(four, isgt)
    n = declen(T_)
    return [('C13.no argument', Implies(c.argc == 1, And(t.ob(me, 'state') == E('RESET'), same(c, 'write_pos', 'write_size', 'write_buf', 'write_next_state')))),
            ('C13.argument is printed', Implies(c.argc == 2, queued_cstr(t, me, x, E('RESET')))),
            ('C13.printed bytes', Implies(c.argc == 2, And(decoded(A, OFF(x), T_, n), Select(A, OFF(x) + n) == 0, n >= 0, n <= slen(T_)))),
            ('C13.second operand', Implies(And(four, Not(isgt)), And(status(c, 'COMMAND_WRONG_ARGUMENTS'), same_g(c, 'nf')))),
            ('C13.file is looked up', Implies(file, And(Implies(t.g('ns') == s.g('ns'), And(t.g('nf') == s.g('nf') + 1, t.g('lfn') == argS(c, IV(3)), lf == FIND(s, me, argS(c, IV(3)))))))),
            ('C13.file not found', Implies(And(file, FIND(s, me, argS(c, IV(3))) == NULL), status(c, 'FILE_NOT_FOUND'))),
            ('C13.file not writable', Implies(And(file, FIND(s, me, argS(c, IV(3))) != NULL, s.fd(FIND(s, me, argS(c, IV(3))), 'set_data') == NULL), status(c, 'FILE_NOT_WRITABLE'))),
            ] + [('C13.stored once', Implies(And(file, FIND(s, me, argS(c, IV(3))) != NULL, s.fd(FIND(s, me, argS(c, IV(3))), 'set_data') != NULL),
                                             And(t.g('ns') == s.g('ns') + 1, t.g('lsf') == FIND(s, me, argS(c, IV(3)))))),
                 ('C13.stored size', Implies(t.g('ns') != s.g('ns'), t.g('lsn') == n)),
                 ('C13.stored bytes', Implies(t.g('ns') != s.g('ns'), decoded(t.g('lsd'), t.g('lso'), T_, n))),
                 ('C13.stored only into a file', Implies(t.g('ns') != s.g('ns'), And(file, t.g('ns') == s.g('ns') + 1))),
                 ('C13.wrong arguments', Implies(And(c.argc != 1, c.argc != 2, c.argc != 4), status(c, 'COMMAND_WRONG_ARGUMENTS'))),
                 ('C13.nothing else happens', Implies(t.g('ns') == s.g('ns'), quiet_world(c)))] + errline(c, t.g('ns') == s.g('ns'))


callback('echo', echo_cmd_post, user=True)


# ------------------------------------------------------------------ xxd
COLS = 8


def xxd_post(c):
    s, t, me = c.s, c.t, c.self
    lf = t.g('lf')
    two = c.argc == 2
    F = FIND(s, me, argS(c, IV(1)))
    return [('C14.wrong arguments', Implies(Not(two), And(status(c, 'COMMAND_WRONG_ARGUMENTS'), nocall(c)))),
            ('C14.file is looked up', Implies(two, And(t.g('nf') == s.g('nf') + 1, lf == F, t.g('lfn') == argS(c, IV(1))))),
            ('C14.file not found', Implies(And(two, F == NULL), And(status(c, 'FILE_NOT_FOUND'), nocall(c)))),
            ('C14.file not readable', Implies(And(two, F != NULL, s.fd(F, 'get_data') == NULL), And(status(c, 'FILE_NOT_READABLE'), nocall(c)))),
            ('C14.data is read once', Implies(And(two, readable(s, F)), And(t.g('ng') == s.g('ng') + 1, t.g('lgf') == F, started(c), t.ob(me, 'process_data') == t.g('lgd'), t.ob(me, 'process_data_size') == t.g('lgn'))))] + errline(c, Not(isin(t.ob(me, 'state'), *PROCS)))


contract(BUILTIN['xxd'] + '_callback', ['self', 'file', 'argc', 'argv'], axioms=BAX,
         requires=lambda c: exec_pre(c) + [('file', own('xxd', c))],
         modifies=lambda c: mod_ob(c.self, *(WFRAME + ('process_data', 'process_data_size', 'process_file'))) + [('G', g) for g in ('nf', 'lf', 'lfn', 'ng', 'lgf', 'lgd', 'lgn')] + user_data(c),
         ensures=lambda c: xxd_post(c) + [('C22.command or prompt', after(c.t, c.self))] + [('C06.' + n, f) for n, f in Inv(c.t, c.self)])


def hexbytes(A, o, base_, i, d, n, s):
    """three characters of column i"""
    x = s.B(d, base_ + i)
    have = base_ + i < n
    return And(Select(A, o + 3 * i) == If(have, hexd(x / 16), IV(32)), Select(A, o + 3 * i + 1) == If(have, hexd(x % 16), IV(32)), Select(A, o + 3 * i + 2) == 32)


def charbyte(A, o, base_, i, d, n, s):
    x = s.B(d, base_ + i)
    return Select(A, o + i) == If(base_ + i < n, If(And(x >= 0x20, x <= 0x7e), x, IV(46)), IV(32))


def xxd_loop(width, cells, moving):
    def inv(L):
        c = L.c; s0 = c.s; me = c.self
        ob = obuf(s0, me); A = L.s.A(ob); i = L.role('i')
        it0 = s0.ob(me, 'process_index_item'); d = s0.ob(me, 'process_data'); n = s0.ob(me, 'process_data_size')
        big = osz(s0, me) > width * COLS
        out = [('column', And(i >= 0, i <= COLS)), ('text', And(vs(A, OFF(ob)), L.s.strlen(ob) < osz(s0, me))),
               ('width', Implies(big, L.s.strlen(ob) == width * i)),
               ('item', L.s.ob(me, 'process_index_item') == (it0 + i if moving else it0)),
               ('state', And(*[L.s.ob(me, f) == s0.ob(me, f) for f in ('state', 'process_data', 'process_data_size', 'desc', 'process_index')]))]
        for k in range(COLS): out.append(('column %d' % k, Implies(And(big, i > k), cells(A, OFF(ob), it0, k, d, n, s0))))
        return out
    return LoopSpec(inv, roles=[('i', 'int', 'i')], dec=lambda L: COLS - L.role('i'))


def xxd_step(c):
    s, t, me = c.s, c.t, c.self
    st = st0(c)
    ix, it, d, n = [s.ob(me, x) for x in ('process_index', 'process_index_item', 'process_data', 'process_data_size')]
    ob = obuf(s, me); A = t.A(ob); o = OFF(ob)
    run = st == E('PROCESS_SERVICE'); svc = E('PROCESS_SERVICE')
    p = lambda f: t.ob(me, f)
    big = osz(s, me) >= 3 * COLS + 2
    last = it >= n
    out = [('C14.from offset 0', Implies(st == E('PROCESS_START'), And(p('process_index') == 0, p('process_index_item') == 0, p('state') == svc))),
           ('C14.part', Implies(run, p('process_index') == If(And(ix == 3, last), IV(3), If(ix == 3, IV(0), ix + 1)))),
           ('C14.offset advances', Implies(run, p('process_index_item') == If(ix == 2, it + COLS, it))),
           ('C14.offset length', Implies(And(run, ix == 0, it < 2 ** 32, osz(s, me) > 10), out_queued(c, IV(10), svc)))]
    for k in range(8): out.append(('C14.offset digit %d' % k, Implies(And(run, ix == 0, it < 2 ** 32, osz(s, me) > 10), Select(A, o + k) == hexd((it / (16 ** (7 - k))) % 16))))
    out += [('C14.offset end', Implies(And(run, ix == 0, it < 2 ** 32, osz(s, me) > 10), And(Select(A, o + 8) == 58, Select(A, o + 9) == 32))),
            ('C14.parts in a small buffer', Implies(And(run, ix <= 2), And(queued_cstr(t, me, ob, svc)))),
            ('C14.bytes length', Implies(And(run, ix == 1, big), And(out_queued(c, IV(3 * COLS + 1), svc), Select(A, o + 3 * COLS) == 32))),
            ('C14.characters length', Implies(And(run, ix == 2, big), out_queued(c, IV(COLS), svc)))]
    for k in range(COLS):
        out.append(('C14.byte %d' % k, Implies(And(run, ix == 1, big), hexbytes(A, o, it, k, d, n, s))))
        out.append(('C14.character %d' % k, Implies(And(run, ix == 2, big), charbyte(A, o, it, k, d, n, s))))
    out += [('C14.end of the row', Implies(And(run, ix == 3), queued_text(t, me, b'\r\n', If(last, E('PROCESS_FINISH'), svc)))),
            ('C22.prompt after the last row', Implies(st == E('PROCESS_FINISH'), p('state') == E('RESET_PROMPT'))),
            ('C14.data is kept', same(c, 'process_data', 'process_data_size')),
            ('C14.result', c.r)]
    return out


service('xxd', xxd_step, mods=('process_index', 'process_index_item'), bufs=(obuf_mod,), loops=[xxd_loop(3, hexbytes, False), xxd_loop(1, charbyte, True), xxd_loop(1, charbyte, False)])
