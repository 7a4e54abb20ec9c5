"""Status texts, hexadecimal escapes, print functions."""
from specs.names import *

STEXT = {'OK': b'ok'}
for k, v in dict(NODE_NOT_FOUND='directory not found', NODE_WITH_CHILDS='nested directories exist', NODE_WITHOUT_PARENT='cannot find parent node',
                 NODE_ALREADY_MOUNTED='directory already mounted', COMMAND_SYNTAX_ERROR='syntax error', COMMAND_WRONG_ARGUMENTS='wrong arguments',
                 FILE_NOT_EXECUTABLE='file not executable', FILE_NOT_WRITABLE='file not writable', FILE_NOT_READABLE='file not readable',
                 FILE_NO_HELP='no help available', FILE_NOT_FOUND='file not found', FILE_READ_ONLY='read only file').items():
    STEXT['ERROR_' + k] = b'error: ' + v.encode()
NSTATUS = len(STEXT)


def statcases(status, f):
    if z3.is_int_value(status):
        for k in STEXT:
            if E('USH_STATUS_' + k).as_long() == status.as_long(): return f(STEXT[k])
        return BoolVal(True)
    return And(*[Implies(status == E('USH_STATUS_' + k), f(t)) for k, t in STEXT.items()])


def litstr(s, p, b):
    """p is the read-only text b"""
    return And(ptr_ok(p), cst(O(p)), OFF(p) == 0, zend(cmem(O(p)), OFF(p)) == len(b), *[Select(cmem(O(p)), IV(i)) == x for i, x in enumerate(b + b'\0')])


contract('ush_utils_get_status_string', ['status'],
         requires=lambda c: [('known status', And(c.status >= 0, c.status < NSTATUS))],
         ensures=lambda c: [('C18.status text', statcases(c.status, lambda b: litstr(c.t, c.r, b))), ('text', ccstr(c.r))])


def selfok(c): return And(ok('ush_object')(c.self), per(c.self))


contract('ush_print_status', ['self', 'status'],
         requires=lambda c: [('self', selfok(c)), ('known status', And(c.status >= 0, c.status < NSTATUS))],
         modifies=lambda c: mod_ob(c.self, *WFRAME),
         ensures=lambda c: [('C22.message then new line', And(c.t.ob(c.self, 'state') == E('WRITE_CHAR'), c.t.ob(c.self, 'write_next_state') == E('RESET'))),
                            ('C18.status then new line', statcases(c.status, lambda b: queued_text(c.t, c.self, b, E('RESET')))),
                            ('text', And(ccstr(c.t.ob(c.self, 'write_buf')), queued_cstr(c.t, c.self, c.t.ob(c.self, 'write_buf'), E('RESET'))))])

for nm, st in (('ush_print', 'RESET'), ('ush_print_no_newline', 'RESET_PROMPT')):
    contract(nm, ['self', 'text'],
             requires=lambda c: [('self', selfok(c)), ('C20.text outlives the call', ptr_ok(c.text)), ('text', c.s.cstr(c.text))],
             modifies=lambda c: mod_ob(c.self, *WFRAME),
             ensures=lambda c, st=st: [('C22.then new line or prompt', And(c.t.ob(c.self, 'state') == E('WRITE_CHAR'), c.t.ob(c.self, 'write_next_state') == E(st))), ('C18.text', queued_cstr(c.t, c.self, c.text, E(st)))])

contract('ush_flush', ['self'],
         requires=lambda c: [('base', base(c.s, c.self)), ('text', c.s.cstr(obuf(c.s, c.self)))],
         modifies=lambda c: mod_ob(c.self, *WFRAME),
         ensures=lambda c: [('C18.text', queued_cstr(c.t, c.self, obuf(c.s, c.self), E('RESET_PROMPT')))])

# ------------------------------------------------------------------ \xNN escapes
ds = Function('ds', Str, I, I)          # state before character k
dv = Function('dv', Str, I, I)          # high digit read
dn = Function('dn', Str, I, I)          # bytes produced by the first k characters
dout = Function('dout', Str, I, I)      # byte m of the decoded text
hexv = lambda c: If(And(c >= 48, c <= 57), c - 48, If(And(c >= 65, c <= 70), c - 55, If(And(c >= 97, c <= 102), c - 87, IV(0))))


def decU(T, k):
    """what one character does: \\xNN stands for the byte NN (a digit that is none counts as 0), \\c for c"""
    ch = sat(T, k); st = ds(T, k)
    emit = Or(And(st == 0, ch != 92), And(st == 1, ch != 120), st == 3)
    return And(ds(T, 0) == 0, dn(T, 0) == 0, Implies(And(k >= 0, k < slen(T)), And(
        ds(T, k + 1) == If(st == 0, If(ch == 92, IV(1), IV(0)), If(st == 1, If(ch == 120, IV(2), IV(0)), If(st == 2, IV(3), IV(0)))),
        dv(T, k + 1) == If(st == 2, hexv(ch) * 16, dv(T, k)),
        dn(T, k + 1) == dn(T, k) + If(emit, IV(1), IV(0)),
        Implies(emit, dout(T, dn(T, k)) == If(st == 3, dv(T, k) + hexv(ch), ch)))))


def declen(T): return dn(T, slen(T))


def dec_inv(L):
    c = L.c; s0 = c.s
    T_ = s0.S(c.input)
    p, q, st, n, val = [L.role(x) for x in ('p', 'q', 'st', 'n', 'val')]
    k = OFF(p) - OFF(c.input)
    A, Ao = L.s.A(c.input), L.s.A(c.output)
    return [('position', And(O(p) == O(c.input), k >= 0, k <= slen(T_), q == mk(O(c.output), OFF(c.output) + n))),
            Clause('state', And(st == ds(T_, k), st >= 0, st <= 3, Implies(st == 3, And(val == dv(T_, k), val >= 0, val < 256, val % 16 == 0))), lem=[decU(T_, k - 1)]),
            Clause('count', And(n == dn(T_, k), n >= 0, n <= k, n <= c.max_size), lem=[decU(T_, k - 1)]),
            ('nothing behind', Select(Ao, OFF(c.output) + c.max_size) == Select(s0.A(c.output), OFF(c.output) + c.max_size)),
            ('rest unread', ForAll([k_], Implies(And(k_ >= OFF(p), k_ <= OFF(c.input) + slen(T_)), Select(A, k_) == Select(s0.A(c.input), k_)), patterns=[Select(A, k_)])),
            Clause('decoded', ForAll([k_], Implies(And(k_ >= 0, k_ < n), Select(Ao, OFF(c.output) + k_) == dout(T_, k_)), patterns=[dout(T_, k_)]), lem=[decU(T_, k - 1)]),
            Clause('decoded bytes', ForAll([k_], Implies(And(k_ >= OFF(c.output), k_ < OFF(c.output) + n), Select(Ao, k_) == dout(T_, k_ - OFF(c.output))), patterns=[Select(Ao, k_)]), lem=[decU(T_, k - 1)])]


contract('ush_utils_decode_ascii', ['input', 'output', 'max_size'], axioms=('zend', 'str', 'bits'),
         requires=lambda c: [('text', c.s.cstr(c.input)),
                             ('room', And(O(c.output) != 0, OFF(c.output) >= 0, c.max_size >= 0, OFF(c.output) + c.max_size <= bsize(O(c.output)), Not(cst(O(c.output))))),
                             ('in place or elsewhere', Or(c.input == c.output, O(c.input) != O(c.output)))],
         modifies=lambda c: [('B', O(c.output), OFF(c.output), OFF(c.output) + c.max_size)],
         ensures=lambda c: [('nothing behind', Implies(c.r == c.max_size, c.t.B(c.output, c.r) == c.s.B(c.output, c.r))),
                            ('C13.decoded length', And(c.r >= 0, c.r <= c.max_size, Implies(c.max_size >= c.s.strlen(c.input), c.r == declen(c.s.S(c.input))), c.r <= c.s.strlen(c.input))),
                            ('C13.decoded bytes', ForAll([k_], Implies(And(k_ >= OFF(c.output), k_ < OFF(c.output) + c.r), Select(c.t.A(c.output), k_) == dout(c.s.S(c.input), k_ - OFF(c.output))),
                                                         patterns=[Select(c.t.A(c.output), k_)]))],
         loops=[LoopSpec(dec_inv, roles=[('p', 'ptr', 'input'), ('q', 'ptr', 'output'), ('st', 'int', 'state'), ('n', 'int', 'ret_size'), ('val', 'undef', 'val')],
                         dec=lambda L: OFF(L.c.input) + L.c.s.strlen(L.c.input) - OFF(L.role('p')))])


# ------------------------------------------------------------------ formatted text
def lit(c, p):
    """bytes of a string literal in the program"""
    if not (z3.is_app(p) and p.decl().eq(mk) and z3.is_int_value(p.arg(0)) and z3.is_int_value(p.arg(1))): return None
    for g, i in c.w.gid.items():
        if i == p.arg(0).as_long():
            b = c.w.gbytes(g)
            return b[p.arg(1).as_long():b.index(0)] if b and 0 in b else None
    return None


GHOST_SORTS.update({'g.pfr': I, 'g.pft': Str})


def outbuf_ok(c): return And(O(c.d) != 0, OFF(c.d) >= 0, c.n >= 0, OFF(c.d) + c.n <= bsize(O(c.d)), Not(cst(O(c.d))))


contract('vsnprintf', ['d', 'n', 'fmt', 'ap'], trusted=True,
         requires=lambda c: [('room', outbuf_ok(c))],
         modifies=lambda c: [('B', O(c.d), OFF(c.d), OFF(c.d) + c.n), ('G', 'pfr'), ('G', 'pft')],
         ensures=lambda c: [Implies(c.n >= 1, And(vs(c.t.A(c.d), OFF(c.d)), c.t.strlen(c.d) < c.n, Implies(c.r >= 0, c.t.strlen(c.d) <= c.r))),
                            c.t.g('pfr') == c.r, c.t.g('pft') == c.t.S(c.d)])

import re


def fmtparts(b):
    """constant format split into literal texts and conversions"""
    out = []
    for m in re.finditer(rb'%(-?)(0?)(\d*)(l?)([sXc%])|([^%]+)', b):
        if m.group(6): out.append(m.group(6))
        elif m.group(5) == b'%': out.append(b'%')
        else: out.append((m.group(5).decode(), m.group(1) == b'-', m.group(2) == b'0', int(m.group(3) or 0)))
    return out


hexd = lambda v: If(v < 10, v + 48, v + 55)


def snprintf_text(c):
    """list of (length, byte at j) pieces; None when the format is not understood"""
    b = lit(c, c.fmt)
    if b is None: raise engine.Unsupported('snprintf with unknown format')
    out = []; va = list(c.va or []); defs = []

    def name(e):
        x = z3.FreshConst(e.sort(), 'sn'); defs.append(x == e); return x
    for p in fmtparts(b):
        if isinstance(p, bytes):
            out.append((IV(len(p)), [IV(x) for x in p])); continue
        k, left, zero, w = p
        v = va.pop(0)
        if k == 'c': out.append((IV(1), [engine.mapite(v, lambda x: IV(x.as_long() % 256)) if engine.constite(v) else v % 256]))
        elif k == 's':
            if w and not left: raise engine.Unsupported('format')
            v = name(v); n = name(c.s.strlen(v))
            out.append((name(If(n < w, IV(w), n)) if w else n, ('s', v, n)))
        else:
            if not zero or not w: raise engine.Unsupported('format')
            out.append((IV(w), ('x', v, w)))
    return out, defs


def snprintf_req(c):
    out = [('room', outbuf_ok(c))]
    b = lit(c, c.fmt)
    if b is None: raise engine.Unsupported('snprintf with unknown format')
    va = list(c.va or [])
    for p in fmtparts(b):
        if isinstance(p, bytes): continue
        v = va.pop(0)
        if p[0] == 's': out += [('argument', c.s.cstr(v)), ('no overlap', O(v) != O(c.d))]
    return out


def snprintf_ens(c):
    parts, defs = snprintf_text(c)
    tot = IV(0); A = c.t.A(c.d); o = OFF(c.d)
    cap = c.n - 1
    fs = []; side = []
    for ln, body in parts:
        if isinstance(body, list):
            for j, x in enumerate(body): fs.append(Implies(tot + j < cap, Select(A, o + tot + j) == x))
        elif body[0] == 's':
            _, v, n = body
            fs.append(ForAll([k_], Implies(And(o + tot <= k_, k_ < o + tot + ln, k_ < o + cap), Select(A, k_) == If(k_ < o + tot + n, Select(c.s.A(v), OFF(v) + k_ - o - tot), IV(32))),
                             patterns=[Select(A, k_)]))
        else:
            _, v, w = body
            side.append(v < 16 ** w)
            for j in range(w): fs.append(Implies(tot + j < cap, Select(A, o + tot + j) == hexd((v / (16 ** (w - 1 - j))) % 16)))
        tot = simplify(tot + ln)
    real = If(tot <= cap, tot, cap)
    sc = And(*side)
    full = [c.r == tot] + [Implies(c.n >= 1, f) for f in [Select(A, o + real) == 0] + fs]
    nz = [c.t.strlen(c.d) == real] if not any(isinstance(b, list) and len(b) == 1 and not z3.is_int_value(b[0]) for _, b in parts) else \
        [Implies(And(*[b[0] != 0 for _, b in parts if isinstance(b, list) and not z3.is_int_value(b[0])]), c.t.strlen(c.d) == real)]
    return defs + [Implies(sc, f) if side else f for f in full] + [Implies(And(sc, c.n >= 1), And(vs(A, o), *nz)),
            Implies(c.n >= 1, And(vs(A, o), c.t.strlen(c.d) < c.n))]


contract('snprintf', ['d', 'n', 'fmt'], trusted=True, requires=snprintf_req,
         modifies=lambda c: [('B', O(c.d), OFF(c.d), OFF(c.d) + c.n)], ensures=snprintf_ens)

MSGF, MSGO = b'...format error\r\n', b'...overflow error\r\n'


def printf_post(c):
    s, t, me = c.s, c.t, c.self
    ob = obuf(s, me); n = osz(s, me)
    cont = s.ob(me, 'write_buf') == ob
    l0 = If(cont, s.strlen(ob), IV(0))                     # text already queued
    r, F = t.g('pfr'), t.g('pft')
    A = t.A(ob); o = OFF(ob)
    l1 = l0 + slen(F)
    ws0 = If(cont, s.ob(me, 'write_size'), IV(0))
    good = r == slen(F)
    ws = t.ob(me, 'write_size')
    old = lambda m: ForAll([k_], Implies(And(k_ >= o, k_ < o + m), Select(A, k_) == If(k_ < o + l0, Select(s.A(ob), k_), sat(F, k_ - o - l0))), patterns=[Select(A, k_)])

    def err(M):
        at = If(n >= len(M) + 1, n - len(M) - 1, IV(0))
        tail = lambda a, m: And(*[Implies(i < m, Select(A, o + a + i) == x) for i, x in enumerate(M)])
        return And(Implies(n - l1 > len(M), And(old(l1), tail(l1, IV(len(M))), ws == l1 + len(M))),
                   Implies(n - l1 <= len(M), And(old(If(at < l1, at, l1)), tail(at, If(n >= len(M) + 1, IV(len(M)), n - 1)), ws == n)))
    return [('C18.queued behind earlier output', And(t.ob(me, 'state') == E('WRITE_CHAR'), t.ob(me, 'write_next_state') == E('RESET_PROMPT'), t.ob(me, 'write_buf') == ob,
                                                    t.ob(me, 'write_pos') == If(cont, s.ob(me, 'write_pos'), IV(0)))),
            ('C18.inside the output buffer', And(ws <= n, ws >= 0)), ('C18.terminated inside the output buffer', And(vs(A, o), t.strlen(ob) < n)),
            ('C18.formatted text', Implies(good, old(l1))), ('C18.formatted length', Implies(good, ws == ws0 + slen(F))), ('C18.terminated', Implies(good, t.strlen(ob) == l1)),
            ('C18.format error', Implies(r < 0, err(MSGF))),
            ('C18.overflow', Implies(And(r >= 0, Not(good)), err(MSGO))),
            ('C18.queued output', J_out(t, me))]


contract('ush_printf', ['self', 'format'], axioms=('zend', 'str', 'bridge'),
         requires=lambda c: [('base', base(c.s, c.self)), ('queued output', J_out(c.s, c.self)), ('format', c.format != NULL)],
         modifies=lambda c: mod_ob(c.self, *WFRAME) + obuf_mod(c) + [('G', 'pfr'), ('G', 'pft')],
         ensures=printf_post)
