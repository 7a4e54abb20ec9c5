"""Shared vocabulary: shell invariant, ghost state, external and callback contracts."""
import z3
from smt import *
import smt, engine, ir
from engine import contract, Clause, GHOST_SORTS, Contract, CONTRACTS, LoopSpec, FieldAddr

IV = IntVal

# ------------------------------------------------------------------ ghost state
GHOST_SORTS.update({
    'g.nc': I,            # interface calls (read + write) so far
    'g.nr': I, 'g.rtr': AII,      # bytes delivered by the read interface
    'g.nw': I, 'g.wtr': AII,      # bytes accepted by the write interface
    'g.nx': I,                    # calls of exec / data callbacks so far
    'g.xkind': AII,               # 0 hook, 1 exec, 2 get_data, 3 set_data, 4 process
    'g.xfile': AIP, 'g.xargc': AII, 'g.xdata': AIP,
    'g.xret': AIP,                # data pointer returned by a getter
    'g.xsize': AII,               # argc / size argument / returned size
    'g.xstr': ArraySort(I, AII),  # bytes passed (offset 0 based)
})
TRACE = ('nx', 'xkind', 'xfile', 'xargc', 'xdata', 'xret', 'xsize', 'xstr')

EN = {}
STATES = []


def setup(world):
    EN.clear(); EN.update(world.m.enums)
    STATES[:] = sorted([k for k in EN if k.startswith('USH_STATE_') and not k.endswith('TOTAL_NUM')], key=lambda k: EN[k])
    global W
    W = world


def E(n):
    """enumerator value; short names allowed"""
    for p in ('', 'USH_STATE_', 'USH_STATUS_'):
        if p + n in EN: return IV(EN[p + n])
    raise engine.Unsupported('enumerator ' + n)


def isin(x, *names): return Or(*[x == E(n) for n in names])


OBF = None


def obf(c):
    """all fields of struct ush_object that are heaps"""
    return [f for f in c.w.m.fields['ush_object'] if 'F.ush_object.' + f in engine.FIELD_SORT]


def mod_ob(self, *fs): return [('F', 'ush_object', f, self) for f in fs]


def per(p): return O(p) >= 10000


def ptr_ok(p): return O(p) >= 1000          # literals and persistent user memory


# ------------------------------------------------------------------ descriptor and buffers
def ibuf(s, self): return s.ds(s.ob(self, 'desc'), 'input_buffer')
def isz(s, self): return s.ds(s.ob(self, 'desc'), 'input_buffer_size')
def obuf(s, self): return s.ds(s.ob(self, 'desc'), 'output_buffer')
def osz(s, self): return s.ds(s.ob(self, 'desc'), 'output_buffer_size')
def pml(s, self): return s.ds(s.ob(self, 'desc'), 'path_max_length')


def bufok(p, n):
    return And(per(p), OFF(p) >= 0, n >= 0, OFF(p) + n <= bsize(O(p)), bsize(O(p)) < 2 ** 62, Not(cst(O(p))))


def desc_ok(s, d):
    io = s.ds(d, 'io')
    ib, ob, ni, no = s.ds(d, 'input_buffer'), s.ds(d, 'output_buffer'), s.ds(d, 'input_buffer_size'), s.ds(d, 'output_buffer_size')
    h = s.ds(d, 'hostname')
    return And(ok('ush_descriptor')(d), per(d), ok('ush_io_interface')(io), per(io), s.io(io, 'read') != NULL, s.io(io, 'write') != NULL,
               bufok(ib, ni), ni >= 2, ni < 2 ** 31, bufok(ob, no), no >= 4, no < 2 ** 31, O(ib) != O(ob),
               s.ds(d, 'path_max_length') >= 2, s.ds(d, 'path_max_length') < 2 ** 31,
               ccstr(h))


def base(s, self):
    return And(ok('ush_object')(self), per(self), desc_ok(s, s.ob(self, 'desc')))


# ------------------------------------------------------------------ read-only strings
def ccstr(p):
    """p points to a NUL terminated string in read-only memory"""
    o, f = O(p), OFF(p)
    return And(ptr_ok(p), cst(o), f >= 0, vs(cmem(o), f), zend(cmem(o), f) < bsize(o), bsize(o) < 2 ** 62)


def cS(p): return S(cmem(O(p)), OFF(p))
def clen(p): return zend(cmem(O(p)), OFF(p)) - OFF(p)


f_ = Const('f', Ptr)


FD_EXTRA = []


def fd_axioms(eng):
    """every valid file descriptor names read-only strings; descriptors are never modified"""
    m = eng.mem0
    F = lambda n: m.get('F.ush_file_descriptor.' + n)
    fd = 'ush_file_descriptor'
    return [('fd.valid', ForAll([f_], Implies(ok(fd)(f_), And(
        ptr_ok(f_), ccstr(Select(F('name'), f_)),
        Or(Select(F('description'), f_) == NULL, ccstr(Select(F('description'), f_))),
        Or(Select(F('help'), f_) == NULL, ccstr(Select(F('help'), f_))))), patterns=[ok(fd)(f_)]))] + [x for p in FD_EXTRA for x in p(eng)]


def text_is(s, p, b):
    """the bytes at p are exactly b"""
    return And(*[s.B(p, i) == x for i, x in enumerate(b)])


# ------------------------------------------------------------------ states
PROMPTS = ('PROMPT_PREFIX', 'PROMPT_HOST', 'PROMPT_SPACE', 'PROMPT_PATH', 'PROMPT_SUFFIX')
PARSES = ('PARSE_SEARCH_ARG', 'PARSE_QUOTE_ARG', 'PARSE_STANDARD_ARG')
PROCS = ('PROCESS_START', 'PROCESS_SERVICE', 'PROCESS_FINISH')
ACWALK = ('AUTOCOMP_CANDIDATES_COUNT', 'AUTOCOMP_CANDIDATES_OPTIMISE', 'AUTOCOMP_CANDIDATES_PRINT')


def valid_state(x): return And(x >= 0, x < len(STATES))


def queued_region(t, self, p, n, nxt):
    """region [p,p+n) queued from its start, nxt entered after it"""
    return And(t.ob(self, 'state') == E('WRITE_CHAR'), t.ob(self, 'write_next_state') == nxt, t.ob(self, 'write_pos') == 0,
               t.ob(self, 'write_size') == n, t.ob(self, 'write_buf') == p)


def queued_text(t, self, b, nxt):
    """exactly the bytes b are queued"""
    w = t.ob(self, 'write_buf')
    return And(t.ob(self, 'state') == E('WRITE_CHAR'), t.ob(self, 'write_next_state') == nxt, t.ob(self, 'write_pos') == 0,
               t.ob(self, 'write_size') == len(b), text_is(t, w, b), O(w) != 0, cst(O(w)))


def queued_cstr(t, self, p, nxt):
    """the NUL terminated text at p is queued"""
    return queued_region(t, self, p, t.strlen(p), nxt)


# status texts of the documentation (inc/ush_preconfig.h translations are read from the sources)
# ------------------------------------------------------------------ C library (trusted)
def sargs(c): return c.s


contract('strlen', ['p'], trusted=True,
         requires=lambda c: [('nul-terminated', c.s.cstr(c.p))],
         ensures=lambda c: [c.r == c.s.strlen(c.p)])



def is_lit(p):
    """p is the address of a literal"""
    return z3.is_app(p) and p.decl().eq(mk) and z3.is_int_value(p.arg(0)) and z3.is_int_value(p.arg(1))


contract('strcmp', ['p', 'q'], trusted=True,
         requires=lambda c: [('nul-terminated 1', c.s.cstr(c.p)), ('nul-terminated 2', c.s.cstr(c.q))],
         ensures=lambda c: [(c.r == 0) == (c.s.S(c.p) == c.s.S(c.q))] + ([ext(c.s.S(c.p), c.s.S(c.q))] if is_lit(c.q) or is_lit(c.p) else []))


def strcpy_mod(c):
    return [('B', O(c.d), OFF(c.d), OFF(c.d) + c.s.strlen(c.p) + 1)]


contract('strcpy', ['d', 'p'], trusted=True,
         requires=lambda c: [('nul-terminated', c.s.cstr(c.p)),
                             ('fits', And(O(c.d) != 0, OFF(c.d) >= 0, OFF(c.d) + c.s.strlen(c.p) + 1 <= bsize(O(c.d)))),
                             ('writable', Not(cst(O(c.d)))),
                             ('no overlap', Or(O(c.d) != O(c.p), OFF(c.d) + c.s.strlen(c.p) < OFF(c.p), c.s.zend(c.p) < OFF(c.d)))],
         modifies=strcpy_mod,
         ensures=lambda c: [c.r == c.d, vs(c.t.A(c.d), OFF(c.d)), c.t.zend(c.d) == OFF(c.d) + c.s.strlen(c.p),
                            c.t.S(c.d) == c.s.S(c.p),
                            ForAll([k_], Implies(And(k_ >= OFF(c.d), k_ <= OFF(c.d) + c.s.strlen(c.p)),
                                                 Select(c.t.A(c.d), k_) == Select(c.s.A(c.p), k_ - OFF(c.d) + OFF(c.p))),
                                   patterns=[Select(c.t.A(c.d), k_)])])

cat = Function('cat', Str, Str, Str)
axiom('cat', 'cat.len', [s_, t_], slen(cat(s_, t_)) == slen(s_) + slen(t_), [cat(s_, t_)])
axiom('cat', 'cat.at', [s_, t_, k_], Implies(And(0 <= k_, k_ <= slen(s_) + slen(t_)),
                                             sat(cat(s_, t_), k_) == If(k_ < slen(s_), sat(s_, k_), sat(t_, k_ - slen(s_)))),
      [sat(cat(s_, t_), k_)])
axiom('cat', 'cat.empty', [s_, t_], And(Implies(s_ == Empty, cat(s_, t_) == t_), Implies(t_ == Empty, cat(s_, t_) == s_)), [cat(s_, t_)])

contract('strcat', ['d', 'p'], trusted=True,
         requires=lambda c: [('nul-terminated', c.s.cstr(c.p)), ('nul-terminated dest', c.s.cstr(c.d)),
                             ('fits', And(c.s.zend(c.d) + c.s.strlen(c.p) + 1 <= bsize(O(c.d)))),
                             ('writable', Not(cst(O(c.d)))),
                             ('no overlap', Or(O(c.d) != O(c.p), c.s.zend(c.d) + c.s.strlen(c.p) < OFF(c.p), c.s.zend(c.p) < OFF(c.d)))],
         modifies=lambda c: [('B', O(c.d), c.s.zend(c.d), c.s.zend(c.d) + c.s.strlen(c.p) + 1)],
         ensures=lambda c: [c.r == c.d, vs(c.t.A(c.d), OFF(c.d)), c.t.zend(c.d) == c.s.zend(c.d) + c.s.strlen(c.p),
                            c.t.S(c.d) == cat(c.s.S(c.d), c.s.S(c.p)),
                            ForAll([k_], Implies(And(k_ >= c.s.zend(c.d), k_ <= c.s.zend(c.d) + c.s.strlen(c.p)),
                                                 Select(c.t.A(c.d), k_) == Select(c.s.A(c.p), k_ - c.s.zend(c.d) + OFF(c.p))),
                                   patterns=[Select(c.t.A(c.d), k_)])])

prefixof = Function('prefixof', Str, Str, B)      # first is a prefix of second
axiom('prefix', 'prefixof', [s_, t_],
      prefixof(s_, t_) == And(slen(s_) <= slen(t_), ForAll([k_], Implies(And(0 <= k_, k_ < slen(s_)), sat(s_, k_) == sat(t_, k_)),
                                                           patterns=[sat(s_, k_)])), [prefixof(s_, t_)])

contract('strncmp', ['p', 'q', 'n'], trusted=True,
         requires=lambda c: [('nul-terminated 1', c.s.cstr(c.p)), ('nul-terminated 2', c.s.cstr(c.q))],
         ensures=lambda c: [Implies(c.n == c.s.strlen(c.p), (c.r == 0) == prefixof(c.s.S(c.p), c.s.S(c.q))),
                            Implies(c.n == c.s.strlen(c.q), (c.r == 0) == prefixof(c.s.S(c.q), c.s.S(c.p)))])


def found_char(c, last):
    A, b, e, ch = c.s.A(c.p), OFF(c.p), c.s.zend(c.p), c.ch % 256
    none = lambda lo, hi: ForAll([k_], Implies(And(lo <= k_, k_ <= hi), Select(A, k_) != ch), patterns=[Select(A, k_)])
    return If(c.r == NULL, none(b, e), And(O(c.r) == O(c.p), b <= OFF(c.r), OFF(c.r) <= e, Select(A, OFF(c.r)) == ch,
                                           none(OFF(c.r) + 1, e) if last else none(b, OFF(c.r) - 1)))


contract('strchr', ['p', 'ch'], trusted=True, requires=lambda c: [('nul-terminated', c.s.cstr(c.p))], ensures=lambda c: [found_char(c, False)])
contract('strrchr', ['p', 'ch'], trusted=True, requires=lambda c: [('nul-terminated', c.s.cstr(c.p))], ensures=lambda c: [found_char(c, True)])

contract('memcpy', ['d', 'p', 'n', 'v'], trusted=True,
         requires=lambda c: [('source in bounds', And(O(c.p) != 0, OFF(c.p) >= 0, OFF(c.p) + c.n <= bsize(O(c.p)))),
                             ('dest in bounds', And(O(c.d) != 0, OFF(c.d) >= 0, OFF(c.d) + c.n <= bsize(O(c.d)))),
                             ('writable', Not(cst(O(c.d)))),
                             ('no overlap', Or(O(c.d) != O(c.p), OFF(c.d) + c.n <= OFF(c.p), OFF(c.p) + c.n <= OFF(c.d)))],
         modifies=lambda c: [('B', O(c.d), OFF(c.d), OFF(c.d) + c.n)],
         ensures=lambda c: [ForAll([k_], Implies(And(k_ >= OFF(c.d), k_ < OFF(c.d) + c.n),
                                                 Select(c.t.A(c.d), k_) == Select(c.s.A(c.p), k_ - OFF(c.d) + OFF(c.p))),
                                   patterns=[Select(c.t.A(c.d), k_)]),
                            Implies(And(c.s.cstr(c.p), c.n == c.s.strlen(c.p) + 1),
                                    And(vs(c.t.A(c.d), OFF(c.d)), c.t.zend(c.d) == OFF(c.d) + c.s.strlen(c.p), c.t.S(c.d) == c.s.S(c.p)))])


# ------------------------------------------------------------------ I/O interface callbacks (trusted)
def io_trace(c): return c


contract('*ush_io_interface.read', ['self', 'ch', 'io', 'fn'], trusted=True,
         requires=lambda c: [('byte cell', And(O(c.ch) != 0, OFF(c.ch) >= 0, OFF(c.ch) < bsize(O(c.ch)), Not(cst(O(c.ch)))))],
         modifies=lambda c: [('B', O(c.ch), OFF(c.ch), OFF(c.ch) + 1), ('G', 'nc'), ('G', 'nr'), ('G', 'rtr')],
         ensures=lambda c: [c.t.g('nc') == c.s.g('nc') + 1,
                            Implies(c.r != 0, And(c.t.g('nr') == c.s.g('nr') + 1,
                                                  c.t.g('rtr') == Store(c.s.g('rtr'), c.s.g('nr'), c.t.B(c.ch)))),
                            Implies(c.r == 0, And(c.t.g('nr') == c.s.g('nr'), c.t.g('rtr') == c.s.g('rtr')))])

contract('*ush_io_interface.write', ['self', 'ch', 'io', 'fn'], trusted=True,
         modifies=lambda c: [('G', 'nc'), ('G', 'nw'), ('G', 'wtr')],
         ensures=lambda c: [c.t.g('nc') == c.s.g('nc') + 1,
                            Implies(c.r != 0, And(c.t.g('nw') == c.s.g('nw') + 1,
                                                  c.t.g('wtr') == Store(c.s.g('wtr'), c.s.g('nw'), c.ch))),
                            Implies(c.r == 0, And(c.t.g('nw') == c.s.g('nw'), c.t.g('wtr') == c.s.g('wtr')))])
